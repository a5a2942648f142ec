"""Exit status of the command-line tools."""
import re
from tools import *
from c18 import grid_text
from models import getfn, mkparams
import c06, c08

MISSING = object()


def command(words):
    """dict of options -> list of words; True is an option without a value"""
    r = []
    for k, v in words.items():
        if v is MISSING:
            continue
        r.append('--' + k)
        if v is not True:
            r.append(v)
    return r


def data_text(nY=1, inp='CARTESIAN'):
    x = {'CARTESIAN': [[0.6, 0.0, 0.8, 0.0, 0.6, 0.8], [0.0, 0.28, 0.96, 0.6, 0.0, 0.8], [-0.6, 0.0, 0.8, 0.28, 0.0, 0.96]], 'RUSIN_TH_TD': [[0.2, 0.3], [0.4, 0.2], [0.1, 0.5]]}[inp]
    return [header(len(x[0]), nY, inp, 'INV_STERADIAN')] + lines([p + [var('y%d_%d' % (i, j)) for j in range(nY)] for i, p in enumerate(x)])


def func_text():
    return function_file('--func nonlinear_function_blinn')


class Run:
    def __init__(self, tool, words, files, required=(), outputs=('o.dat',), plugins=(), readable=(), broken=None, prepare=None):
        self.tool, self.words, self.files, self.required, self.outputs, self.plugins, self.readable, self.prepare = tool, words, files, required, outputs, plugins, readable or tuple(files), prepare


def runs():
    f, d, g = func_text(), data_text(), grid_text('RUSIN_TH_TD', 1, 'INV_STERADIAN', [2, 3], 'y')
    return [
        Run('brdf2brdf', {'input': 'f.func', 'output': 'o.dat'}, {'f.func': f}, ('input', 'output')),
        Run('brdf2brdf', {'input': 'f.func', 'output': 'o.dat', 'export': 'matlab'}, {'f.func': f}, ('input', 'output')),
        Run('brdf2data', {'input': 'f.func', 'output': 'o.dat', 'data-file': 'd.dat'}, {'f.func': f, 'd.dat': d}, ('input', 'output', 'data-file')),
        Run('brdf2data', {'input': 'f.func', 'output': 'o.dat', 'data-file': 'g.dat', 'data': 'data_grid'}, {'f.func': f, 'g.dat': g}, ('input', 'output'), plugins=('data',)),
        Run('brdf2data', {'input': 'f.func', 'output': 'o.dat', 'data': 'data_grid', 'grid-size': '[3,2]', 'param': 'RUSIN_TH_TD'}, {'f.func': f}, ('input', 'output', 'data'), plugins=('data',)),
        Run('brdf2gnuplot', {'input': 'f.func', 'output': 'o.dat', 'data-file': 'd.dat'}, {'f.func': f, 'd.dat': d}, ('input', 'output')),
        Run('brdf2gnuplot', {'input': 'f.func', 'output': 'o.dat', 'data-file': 'g.dat', 'data': 'data_grid', 'cos-plot': True}, {'f.func': f, 'g.dat': g}, ('input', 'output'), plugins=('data',)),
        Run('brdf2gnuplot', {'input': 'f.func', 'output': 'o.dat', 'polar-plot': True, 'samples': '6', 'inc-angle': '0.5'}, {'f.func': f}, ('input', 'output')),
        Run('data2data', {'input': 'd.dat', 'output': 'o.dat'}, {'d.dat': d}, ('input', 'output')),
        Run('data2data', {'input': 'd.dat', 'output': 'o.dat', 'out-data': 'alta-binary', 'param': 'SPHERICAL_TL_PL_TV_PV'}, {'d.dat': d}, ('input', 'output')),
        Run('data2data', {'input': 'g.dat', 'output': 'o.dat', 'in-data': 'data_grid', 'out-data': 'data_grid', 'grid-size': '[3,3]', 'param': 'RUSIN_TH_TD'}, {'g.dat': g}, ('input', 'output'), plugins=('in-data', 'out-data')),
        Run('data2moments', {'input': 'g.dat', 'output': 'o.dat', 'data': 'data_grid', 'samples': '[3,2]'}, {'g.dat': g}, ('input', 'output', 'data'), plugins=('data',)),
        Run('data2stats', {'input': 'g.dat', 'in-data': 'data_grid', 'ref': 'd.dat', 'output': 'o.dat'}, {'g.dat': g, 'd.dat': d}, ('input', 'ref'), plugins=('in-data',)),
        Run('fit2stat', {'input': 'd.dat', 'brdf': 'f.func', 'output': 'o.dat'}, {'f.func': f, 'd.dat': d}, ('input', 'brdf')),
        Run('data2brdf', {'input': 'd.dat', 'output': 'o.dat', 'fitter': 'nonlinear_fitter_nlopt', 'func': 'nonlinear_function_blinn'}, {'d.dat': d}, ('input', 'output', 'fitter'), plugins=('fitter', 'func'), prepare=solver),
        Run('data2brdf', {'input': 'd.dat', 'output': 'o.dat', 'fitter': 'nonlinear_fitter_nlopt', 'func': 'nonlinear_function_blinn', 'change-param': True}, {'d.dat': d}, ('input', 'output', 'fitter'), plugins=('fitter', 'func'), prepare=solver),
    ]


def solver(c):
    """stand-in for the solver: it moves the parameters to some value and reports success"""
    h = c.cells([0.0])
    rec = {}
    I = c.I

    def create(I, S, fr, e, o, args):
        rec['n'] = args[1]
        return h
    I.hooks['nlopt_create'] = create
    for n in ('nlopt_set_lower_bounds', 'nlopt_set_upper_bounds', 'nlopt_set_maxeval', 'nlopt_set_xtol_rel', 'nlopt_set_xtol_abs', 'nlopt_set_ftol_abs', 'nlopt_set_ftol_rel', 'nlopt_set_maxtime',
              'nlopt_set_min_objective', 'nlopt_destroy', 'nlopt_set_stopval'):
        I.hooks[n] = lambda I, S, fr, e, o, args: 1

    def optimize(I, S, fr, e, o, args):
        for i in range(rec['n']):
            I.store(S, Loc(args[1].o, (args[1].k or 0) + i), 0.5 + 0.25 * i, 'solver')
        I.store(S, args[2], 0.25, e['l'])
        return c.solver_status
    I.hooks['nlopt_optimize'] = optimize


BAD = ('null-deref', 'uninit', 'oob', 'double-free', 'mismatch')


def attempt(R, r, label, words, expect, files=None, file_ok=None, status=1, missing_plugin=None):
    loc = where(r.tool)
    with R.guard(label, loc):
        c = fresh()
        c.solver_status = status
        c.I.files.update(r.files if files is None else files)
        if file_ok:
            c.I.file_ok = file_ok
        if r.prepare:
            r.prepare(c)
        ends = tool(c, r.tool, command(words))
        R.saw(c)
        ev = [x for x in c.I.events if x[0] in BAD and (expect == 'ok' or x[0] != 'uninit')]
        R.check(label + '/defined', not ev, ev and ev[0][1], ev[0][2] if ev else loc, fp=ev and ev[0][0])
        if expect == 'ok':
            R.check(label + '/status', succeeded(ends), 'the run ends with %s' % tell(ends), loc, fp='status')
            R.count('successes')
        else:
            R.check(label + '/status', failed(ends), 'the run ends with %s' % tell(ends), loc, fp='status')
            R.count('failures')
        return c, ends
    return None, None


def run(R):
    R.rule('main() of each tool is interpreted on valid command lines and on the same with one fault (an option left out, a file that cannot be opened, an unknown plugin, malformed contents, a fit that fails): '
           'every path of the first returns 0 and of the others a non-zero status, and none reads memory it should not')
    for k, r in enumerate(runs()):
        base = '%s %s' % (r.tool, ' '.join(command(r.words)))
        loc = where(r.tool)
        c, ends = attempt(R, r, base, r.words, 'ok')
        if c is not None:
            R.check(base + '/files', opened(c) == set(r.outputs), 'the run writes %s' % sorted(opened(c)), loc, fp=sorted(opened(c)))
            for o in r.outputs:
                R.check(base + '/content', bool(written(c, o)), 'nothing is written to %s' % o, loc, fp='empty')
        for o in r.required:
            w = dict(r.words)
            w[o] = MISSING
            attempt(R, r, '%s without --%s' % (base, o), w, 'fail')
        for f in r.files:
            attempt(R, r, '%s, %s absent' % (base, f), r.words, 'fail', file_ok=lambda c, name, f=f: name != f)
        for o in r.outputs:
            attempt(R, r, '%s, %s unwritable' % (base, o), r.words, 'fail', file_ok=lambda c, name, o=o: name != o)
        for p in r.plugins:
            attempt(R, r, '%s, unknown --%s' % (base, p), dict(r.words, **{p: 'no_such_plugin'}), 'fail')
        for f, t in r.files.items():
            for what, bad in damage(f, t):
                attempt(R, r, '%s, %s %s' % (base, f, what), r.words, 'fail', files=dict(r.files, **{f: bad}))
        if r.prepare:
            attempt(R, r, base + ', the fit fails', r.words, 'fail', status=-1)
        attempt(R, r, base + ' --help', dict(r.words, help=True), 'ok')
    functions(R)
    rational(R)
    R.floor('successes', 58)
    R.floor('failures', 600)
    R.floor('discharged', 1350)


def rational_file(plug, nX, nY, np, nq):
    """a rational function as it is saved, with given coefficients"""
    c = Ctx()
    c.I.env = {}
    a = cmd(c, '' if plug == 'rational_function' else '--func ' + plug)
    F = c08.RFn.__new__(c08.RFn)
    F.plug, F.nX, F.nY, F.np, F.nq, F.kind, F.c, F.f = plug, nX, nY, np, nq, c08.BASES[plug], c, getfn(c, a, mkparams(c, nX, nY, 'UNKNOWN_INPUT'))
    F.x, F.lo, F.hi = ([var('%s%d' % (z, i)) for i in range(nX)] for z in 'xlh')
    F.setup()
    for k in range(nY):
        F.update(F.get(k), *F.coefs(k))
    c.mcall(F.f, 'save', [c.string('o.func'), a])
    n = 0
    out = ''
    for t in written(c, 'o.func'):
        if isinstance(t, Num):
            n += 1
            out += repr(1.0 + 0.25 * n)
        else:
            out += t
    return [out]


def rational(R):
    for plug, nX, nY, np, nq in [(p, nX, nY, 3, 2) for p in sorted(c08.BASES) for nX, nY in ((1, 1), (2, 2))]:
        label = 'a file of %s nX=%d nY=%d' % (plug, nX, nY)
        with R.guard(label, 'sources/core/rational_function.cpp'):
            t = rational_file(plug, nX, nY, np, nq)
            r = Run('brdf2brdf', {'input': 'f.func', 'output': 'o.dat'}, {'f.func': t})
            attempt(R, r, label, r.words, 'ok')
            for what, bad in damage('f.func', t):
                if 'unknown' not in what and ('word' not in what or int(what.split()[-1]) < 2 * nX + 2):
                    attempt(R, r, label + ', ' + what, r.words, 'fail', files={'f.func': bad})


def functions(R):
    """function files cut short, or with a word where a number belongs, are refused by the tools that read functions"""
    for line in c06.LINES:
        if 'sgd' in line:
            continue
        with R.guard(line, 'sources/core/function.cpp'):
            t = function_file(line)
            r = Run('brdf2brdf', {'input': 'f.func', 'output': 'o.dat'}, {'f.func': t})
            attempt(R, r, 'a file of ' + line, r.words, 'ok')
            for what, bad in damage('f.func', t):
                attempt(R, r, 'a file of %s, %s' % (line, what), r.words, 'fail', files={'f.func': bad})


def damage(name, text):
    if name.endswith('.func'):
        yield 'empty', []
        yield 'without a function', [t.replace('#FUNC', '#OTHER') if isinstance(t, str) else t for t in text]
        yield 'of an unknown function', [t.replace('nonlinear_', 'no_such_') if isinstance(t, str) else t for t in text]
        flat = ''.join(t for t in text if isinstance(t, str))
        head, body = flat.split('#ALTA HEADER END')
        nums = list(re.finditer(r'(?<=\s)[-\d.][-+\d.e]*', body))
        for i, m in enumerate(nums):
            yield 'cut before number %d' % i, [head + '#ALTA HEADER END' + body[:m.start()]]
            yield 'with a word for number %d' % i, [head + '#ALTA HEADER END' + body[:m.start()] + 'nil' + body[m.end():]]
    else:
        yield 'empty', []
        yield 'without a header', [t for t in text if not (isinstance(t, str) and t.startswith('#'))]
        k = max(i for i, t in enumerate(text) if isinstance(t, Num))
        yield 'cut before the last number', text[:k]
        yield 'with a word for the last number', text[:k] + ['nil'] + text[k + 1:]
