"""Options written on a command line, or in a file header, are the ones the program sees."""
from dataset import *
from libmodel import rich
import itertools

AH = 'sources/core/args.h'


def N(n):
    return Num(var(n), 'double', 15)


def assume(name):
    return -1e6, 1e6


def tcall(c, a, q, key, ret):
    """results of the one-parameter methods q that return ret"""
    out = []
    for tu, f in program().byq['alta::arguments::' + q]:
        if len(f['p']) == 1 and program().ty(tu, f['rt'])['s'].startswith(ret):
            out.append(c.call('alta::arguments::' + q, [c.string(key)], pred=lambda x: x[1] is f, this=a))
    if not out:
        raise AnalysisError('no instance of %s returning %s' % (q, ret))
    return out


def pair(c, a, key):
    d = c.S.get(tcall(c, a, 'get_pair', key, 'std::pair<int')[0].o).d
    return tuple(v for k, v in sorted(d.items(), key=lambda t: str(t[0]))) if isinstance(d, dict) else tuple(d)


def items(c, a, key, ret):
    vs = tcall(c, a, 'get_vec', key, 'std::vector<' + ret)
    return [[text(c, x).strip() if isinstance(x, Loc) else x for x in c.S.get(v.o).d] for v in vs]


def words_text(ws):
    """a command line from option groups: (key, [words]) with words strings or atom lists"""
    out = []
    for key, val in ws:
        out.append(' --' + key)
        for w in val:
            out.append(' ')
            out += [w] if isinstance(w, str) else list(w)
    return out


def mkargs(c, ws, how):
    """how 0: argc/argv, 1: create_arguments, 2: create_arguments with irregular blanks"""
    if how == 0:
        words = [['program']]
        for key, val in ws:
            words.append(['--' + key])
            words += [[w] if isinstance(w, str) else list(w) for w in val]
        ptrs = []
        for w in words:
            L = c.I.mkstr(c.S, rich(tuple(w)))
            ptrs.append(Loc(L.o, 0))
        return c.new(CORETU, 'alta::arguments', [len(ptrs), c.cells(ptrs)])
    t = words_text(ws)
    if how == 2:
        t = [x.replace(' ', '  \t') if isinstance(x, str) else x for x in t] + ['  \n']
    L = c.I.mkstr(c.S, rich(tuple(t)))
    return c.call('alta::arguments::create_arguments', [L])


def rounded(x):
    return isinstance(x, E) and (x.op == 'f32' or any(rounded(y) for y in x.args))


def vector(R, c, label, got, want, what):
    compare(R, c, label, got, want, what, AH)
    bad = [i for i, x in enumerate(got) if rounded(x)]
    R.check(label + '/precision', not bad, '%s is rounded to single precision at %s' % (what, bad), AH, fp=str(bad))


def text(c, L):
    return c.S.get(L.o).d[0]


def eqtext(a, b):
    at = lambda t: [x if isinstance(x, str) else ('num', x.v if isinstance(x.v, (int, float)) else id(x.v)) for x in (t.atoms if hasattr(t, 'atoms') else (t,))]
    return at(a) == at(b)


def observe(R, c, label, a, want):
    """want: key -> {'s': text, 'd': number, 'i': int, 'v': numbers, 'n': n, 'isv': bool}"""
    for k, w in want.items():
        L = '%s/%s' % (label, k)
        ks = lambda: c.string(k)
        R.check(L + '/defined', c.mcall(a, 'is_defined', [ks()]) in (1, True), 'option --%s is not seen' % k, AH, fp='undefined')
        if 's' in w:
            for q in ('get_string', 'operator[]'):
                s = c.mcall(a, q, [ks()] + ([c.string('dflt')] if q == 'get_string' else []))
                R.check('%s/%s' % (L, q), eqtext(text(c, s), w['s']), '%s(%s) is %r instead of %r' % (q, k, text(c, s), w['s']), AH, fp=repr(text(c, s)))
        if 'd' in w:
            d = c.mcall(a, 'get_double', [ks(), 77.0])
            R.check(L + '/get_double', same(d, w['d']) and not rounded(d), 'get_double(%s) is %s' % (k, show(d)), AH, fp=show(d))
            f = c.mcall(a, 'get_float', [ks(), 77.0])
            g = f.args[0] if isinstance(f, E) and f.op == 'f32' else f
            ok = same(g, w['d']) if isinstance(w['d'], E) else abs(g - w['d']) <= 1e-6 * abs(w['d'])
            R.check(L + '/get_float', ok, 'get_float(%s) is %s' % (k, show(f)), AH, fp=show(f))
            for n in (1, 3):
                vector(R, c, '%s/get_vec scalar %d' % (L, n), c.mvals(c.mcall(a, 'get_vec', [ks(), n, 77.0])), [w['d']] * n, 'get_vec(%s, %d)' % (k, n))
        if 'i' in w:
            i = c.mcall(a, 'get_int', [ks(), 77])
            R.check(L + '/get_int', i == w['i'], 'get_int(%s) is %s' % (k, i), AH, fp=str(i))
        if 'v' in w:
            n = len(w['v'])
            vector(R, c, L + '/get_vec', c.mvals(c.mcall(a, 'get_vec', [ks(), n, 77.0])), w['v'], 'get_vec(%s)' % k)
            if n > 1:
                vector(R, c, L + '/get_vec shorter', c.mvals(c.mcall(a, 'get_vec', [ks(), n - 1, 77.0])), w['v'][:-1], 'get_vec(%s, %d)' % (k, n - 1))
            vector(R, c, L + '/get_vec longer', c.mvals(c.mcall(a, 'get_vec', [ks(), n + 1, 77.0])), w['v'] + [77.0], 'get_vec(%s, %d)' % (k, n + 1))
        if 'isv' in w:
            v = c.mcall(a, 'is_vec', [ks()])
            t = bounds.decider(assume)(v)
            R.check(L + '/is_vec', t is not None and bool(t) == w['isv'], 'is_vec(%s) is %s' % (k, v), AH, fp=str(v))
        if 'items' in w:
            got = items(c, a, k, 'std::basic_string')
            R.check(L + '/items', sorted(got) == sorted([w['items'], [t.split()[0] for t in w['items']]]), 'the elements of %s are %s' % (k, got), AH, fp=str(got))
        if 'ints' in w:
            got = items(c, a, k, 'int')
            R.check(L + '/integers', got == [w['ints']], 'the integers of %s are %s' % (k, got), AH, fp=str(got))
    for k in ('absent', 'other', 'dt2'):
        if k in want:
            continue
        L = '%s/absent %s' % (label, k)
        R.check(L + '/undefined', c.mcall(a, 'is_defined', [c.string(k)]) in (0, False), 'option --%s is seen' % k, AH, fp='defined')
        R.check(L + '/get_double', c.mcall(a, 'get_double', [c.string(k), 2.5]) == 2.5, 'the default is not returned', AH, fp='dd')
        R.check(L + '/get_float', c.mcall(a, 'get_float', [c.string(k), 2.5]) == 2.5, 'the default is not returned', AH, fp='df')
        R.check(L + '/get_int', c.mcall(a, 'get_int', [c.string(k), 5]) == 5, 'the default is not returned', AH, fp='di')
        R.check(L + '/get_string', text(c, c.mcall(a, 'get_string', [c.string(k), c.string('zz')])) == 'zz', 'the default is not returned', AH, fp='ds')
        compare(R, c, L + '/get_vec', c.mvals(c.mcall(a, 'get_vec', [c.string(k), 2, 2.5])), [2.5, 2.5], 'the default vector', AH)
        R.check(L + '/is_vec', c.mcall(a, 'is_vec', [c.string(k)]) in (0, False), 'an absent option is a vector', AH, fp='v')
    events(R, c, label, AH)


def cases():
    x, y, z = var('a'), var('b'), var('c')
    X, Y, Z = N('a'), N('b'), N('c')
    num_ = ('dt', [[X]], {'d': x, 's': rich((X,)), 'isv': False})
    vec1 = ('min', [['[', X, ']']], {'v': [x], 'isv': True, 's': rich(('[', X, ']'))})
    vec2 = ('max', [['[', X, ',', Y, ']']], {'v': [x, y], 'isv': True, 's': rich(('[', X, ',', Y, ']'))})
    vec3 = ('ymin', [['[', X, ','], [Y, ','], [Z, ']']], {'v': [x, y, z], 'isv': True, 's': rich(('[', X, ', ', Y, ', ', Z, ']'))})
    vec4 = ('ymax', ['[', [X, ','], [Y], ']'], {'v': [x, y], 'isv': True, 's': rich(('[ ', X, ', ', Y, ' ]'))})
    name = ('input', ['some/file-1.dat'], {'s': 'some/file-1.dat', 'isv': False})
    neg_ = ('n', ['-0.5'], {'d': -0.5, 's': '-0.5', 'isv': False, 'i': 0})
    neg2 = ('m', ['-3'], {'d': -3.0, 's': '-3', 'i': -3})
    int_ = ('np', ['12'], {'d': 12.0, 's': '12', 'i': 12})
    sci = ('eps', ['1e-3'], {'d': 1e-3, 's': '1e-3'})
    third = ('third', ['0.3'], {'d': 0.3, 's': '0.3'})
    flag = ('flag', [], {'s': ''})
    flag2 = ('dt-relative', [], {'s': ''})
    fn = ('func', ['nonlinear_function_blinn'], {'s': 'nonlinear_function_blinn', 'isv': False})
    comp = ('func', ['[nonlinear_function_blinn,', 'nonlinear_function_ward]'], {'s': '[nonlinear_function_blinn, nonlinear_function_ward]', 'isv': True, 'items': ['nonlinear_function_blinn', 'nonlinear_function_ward']})
    comp2 = ('func', ['[nonlinear_function_blinn', '--fixed-lobe', '--fresnel', 'nonlinear_fresnel_schlick,', 'nonlinear_function_ward', '--isotropic]'],
             {'s': '[nonlinear_function_blinn --fixed-lobe --fresnel nonlinear_fresnel_schlick, nonlinear_function_ward --isotropic]', 'isv': True,
              'items': ['nonlinear_function_blinn --fixed-lobe --fresnel nonlinear_fresnel_schlick', 'nonlinear_function_ward --isotropic']})
    ints = ('samples', ['[64,', '-1,32]'], {'ints': [64, -1, 32], 'v': [64.0, -1.0, 32.0], 'isv': True})
    ints1 = ('dim', ['[7]'], {'ints': [7], 'v': [7.0], 'isv': True})
    items1 = ('func', ['[nonlinear_function_beckmann]'], {'items': ['nonlinear_function_beckmann'], 'isv': True})
    negv = ('bootstrap', ['[-1,', '-2.5,', '3]'], {'v': [-1.0, -2.5, 3.0], 'isv': True})
    one = [num_, vec1, vec2, vec3, vec4, name, neg_, neg2, int_, sci, third, flag, flag2, fn, comp, comp2, negv, ints, ints1, items1]
    for o in one:
        yield o[0] + ' alone ' + repr(o[1])[:20], [o]
    pool = [num_, vec3, vec4, name, neg_, int_, flag, flag2, comp2, negv, ints]
    for p, q in itertools.permutations(pool, 2):
        yield '%s then %s' % (p[0], q[0]), [p, q]
    yield 'many', [flag, num_, vec3, name, flag2, comp2, neg_, vec2, int_]
    yield 'many reversed', [int_, vec2, neg_, comp2, flag2, name, vec3, num_, flag]


def headers(R):
    X, Y = N('a'), N('b')
    for name, t, want, rest in (
            ('plain', ['#DIM 2 3\n#PARAM_IN COS_TH_TD\n#PARAM_OUT RGB_COLOR\n#VS 1 2 0\n', X, ' ', Y, '\n'], {'DIM': '2 3', 'PARAM_IN': 'COS_TH_TD', 'PARAM_OUT': 'RGB_COLOR', 'VS': '1 2 0'}, [X]),
            ('blanks', ['#DIM \t 2 3\n#PARAM_IN    COS_TH\n', X], {'DIM': '2 3', 'PARAM_IN': 'COS_TH'}, [X]),
            ('carriage returns', ['#DIM 2 3\r\n#PARAM_IN COS_TH\r\n', X], {'DIM': '2 3', 'PARAM_IN': 'COS_TH'}, [X]),
            ('comments', ['# DIM 9 9\n#DIM 2 3\n#\n# the end\n', X], {'DIM': '2 3'}, [X]),
            ('markers', ['#ALTA FUNC HEADER\n#CMD --func f --dt ', Y, '\n#DIM 2 3\n#ALTA HEADER END\n#DIM 8 8\n'], {'DIM': '2 3', 'TYPE': 'FUNC', 'CMD': rich(('--func f --dt ', Y))}, ['#DIM']),
            ('documented end', ['#DIM 2 3\n#ALTA END HEADER\n#DIM 8 8\n'], {'DIM': '2 3'}, ['#DIM']),
            ('binary', ['#DIM 2 3\n#FORMAT binary\n#BEGIN_STREAM\n#DIM 8 8\n'], {'DIM': '2 3', 'FORMAT': 'binary'}, ['#DIM']),
            ('flag key', ['#DIM 2 3\n#FLAG\n#LAST x\n', X], {'DIM': '2 3', 'FLAG': '', 'LAST': 'x'}, [X]),
            ('last wins', ['#DIM 1 1\n#DIM 2 3\n', X], {'DIM': '2 3'}, [X]),
            ('only header', ['#DIM 2 3\n'], {'DIM': '2 3'}, []),
            ('no newline', ['#DIM 2 3'], {'DIM': '2 3'}, [])):
        label = 'header ' + name
        with R.guard(label, AH):
            c = fresh(bounds.decider(assume))
            s = c.istream(t)
            a = c.call('alta::arguments::parse_header', [s])
            R.saw(c)
            R.count('headers')
            for k, v in want.items():
                got = text(c, c.mcall(a, 'operator[]', [c.string(k)]))
                R.check('%s/%s' % (label, k), eqtext(got, v), '%s is %r instead of %r' % (k, got, v), AH, fp=repr(got))
            for k in ('the', '8', '9', '', 'DIM 2', 'ALTA', 'BEGIN_STREAM'):
                R.check('%s/no %s' % (label, k), c.mcall(a, 'is_defined', [c.string(k)]) in (0, False), 'a key %r is read from a header that has none' % k, AH, fp=k)
            R.check(label + '/pair', pair(c, a, 'DIM') == (2, 3), 'get_pair(DIM) is %s' % (pair(c, a, 'DIM'),), AH, fp=str(pair(c, a, 'DIM')))
            R.check(label + '/no pair', pair(c, a, 'DIN') == (0, 0), 'get_pair of an absent key is %s' % (pair(c, a, 'DIN'),), AH, fp=str(pair(c, a, 'DIN')))
            events(R, c, label, AH)


def run(R):
    R.rule('a command line whose numbers are symbolic is parsed by the two ways the tools use (argument vector, text of a command), and every accessor returns the value written after the option, the whole '
           'bracketed vector or the given default; the reconstructed command parses to the same options; header lines give the same through parse_header')
    for label0, ws in cases():
        for how in (0, 1, 2):
            if R.tier == 'quick' and ' then ' in label0 and how == 2:
                continue
            label = '%s/%s' % (('argv', 'command', 'blanks')[how], label0)
            with R.guard(label, AH):
                c = fresh(bounds.decider(assume))
                a = mkargs(c, [(k, v) for k, v, _ in ws], how)
                want = {k: w for k, _, w in ws}
                observe(R, c, label, a, want)
                R.saw(c)
                R.count('command lines')
                if how == 1:
                    t = c.mcall(a, 'get_cmd', [])
                    b = c.call('alta::arguments::create_arguments', [t])
                    observe(R, c, label + '/reconstructed', b, want)
    headers(R)
    R.floor('command lines', 200)
    R.floor('headers', 10)
