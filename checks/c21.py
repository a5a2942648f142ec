"""Exports of a fitted model: its value at each sample of a data set, in a table or a plot file."""
from tools import *
from c18 import unit, through, ANGLES, grid_text, rows_of
from models import getfn, mkparams, mkdata, enum
import bounds
from conv import inputs, dimension

FN = 'sources/core/function.cpp'
MODELS = [('blinn', '--func nonlinear_function_blinn'), ('beckmann', '--func nonlinear_function_beckmann'), ('lafortune', '--func nonlinear_function_lafortune'), ('ward', '--func nonlinear_function_ward'),
          ('diffuse', '--func nonlinear_function_diffuse'), ('sum', '--func [nonlinear_function_diffuse, nonlinear_function_blinn]'), ('product', '--func nonlinear_function_blinn --fresnel nonlinear_fresnel_schlick')]


RATIONAL = [('legendre in COS_TH_TD', ('--func rational_function_legendre', 'COS_TH_TD')), ('chebychev in RUSIN_TH_TD_PD', ('--func rational_function_chebychev', 'RUSIN_TH_TD_PD')), ('cosine in STARK_2D', ('--func rational_function_cosine', 'STARK_2D')),
            ('monomials in COS_TLV', ('', 'COS_TLV')), ('monomials in ISOTROPIC_TL_TV_PROJ_DPHI', ('', 'ISOTROPIC_TL_TV_PROJ_DPHI')), ('legendre in ISOTROPIC_TV_TL_DPHI', ('--func rational_function_legendre', 'ISOTROPIC_TV_TL_DPHI'))]


def rational_file(line, inp, nY):
    """file of a rational function with unknown coefficients"""
    c = fresh()
    nX = dimension(enum('alta::params::input')[inp])
    a = cmd(c, line)
    f = getfn(c, a, mkparams(c, nX, nY, inp))
    c.mcall(f, 'setSize', [3, 2])
    c.mcall(f, 'setMin', [c.vec([-0.1] * nX)])
    c.mcall(f, 'setMax', [c.vec([1.1 + 0.3 * i for i in range(nX)])])
    for k in range(nY):
        r = c.mcall(f, 'get', [k], pred=lambda t, m: not m.get('const'))
        c.mcall(r, 'update', [c.vec([var('p%d' % (5 * k + i)) for i in range(3)]), c.vec([1.0, var('p%d' % (5 * k + 3))])], pred=lambda t, m: len(m['p']) == 2)
    c.mcall(f, 'save', [c.string('f.func'), a])
    return written(c, 'f.func')


def model_file(line, nY):
    """file of a model with unknown parameters; -> atoms, number of parameters"""
    if isinstance(line, tuple):
        return rational_file(*line, nY)
    c = fresh()
    a = cmd(c, line)
    f = getfn(c, a, mkparams(c, 6, nY))
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    d = mkdata(c, 6, nY, [[0.1, 0.2, 0.8, -0.3, 0.2, 0.7] + [0.5] * nY, [0.3, 0.2, 0.6, 0.3, -0.2, 0.7] + [0.25] * nY], ie['CARTESIAN'], oe['INV_STERADIAN'])
    c.mcall(f, 'bootstrap', [c.sptr(d), a])
    n = c.mcall(f, 'nbParameters', [])
    c.mcall(f, 'setParameters', [c.vec([var('p%d' % i) for i in range(n)])])
    c.mcall(f, 'save', [c.string('f.func'), a])
    return written(c, 'f.func')


def parametrization(c, f):
    """of a function (some functions have a method of the same name)"""
    P = program()
    tu = c.S.get(f.o).x['tu']
    tu, m = c._method(P.rec(tu, 'alta::function'), 'parametrization', 0)
    k, v = c.runfn(P.find(tu, m['u']), f, [])
    if k == 'noret':
        raise Noret('parametrization', v)
    return v


class Model:
    """the model the file holds, in a machine of its own"""

    def __init__(self, text, console=False):
        self.c = c = fresh()
        c.I.console = console
        c.I.files['f.func'] = list(text)
        self.f = c.call('alta::plugins_manager::load_function', [c.string('f.func')])
        p = parametrization(c, self.f)
        self.nX, self.inp = c.mcall(p, 'dimX', []), c.mcall(p, 'input_parametrization', [])

    def at(self, x, src):
        """value at a concrete configuration given in parametrization src"""
        name = [k for k, v in enum('alta::params::input').items() if v == self.inp][0]
        y = x[:self.nX] if name == 'UNKNOWN_INPUT' else through(x, src, name)
        return y and self.c.mvals(self.c.mcall(self.f, 'value', [self.c.vec(y)]))


def sampler(rng):
    return {**{'p%d' % i: rng.uniform(0.2, 0.9) for i in range(40)}, **{'%s%d_%d' % (k, i, j): rng.uniform(0.1, 2.0) for k in 'vy' for i in range(24) for j in range(3)}}


def agree(R, label, got, want, what, loc):
    """numbers of a file against the model's"""
    if not R.check(label + '/length', len(got) == len(want), '%s has %d numbers instead of %d' % (what, len(got), len(want)), loc, fp=len(got)):
        return
    for j, (a, b) in enumerate(zip(got, want)):
        if a is UNDEF or b is UNDEF:
            R.check('%s/%d' % (label, j), False, '%s: number %d is unset' % (what, j), loc, fp='unset')
            continue
        r = equal(b if isinstance(b, E) else mkc(b), a if isinstance(a, E) else mkc(a), sampler)
        if r.equal is None:
            R.undecided('%s/%d' % (label, j), str(r))
        else:
            R.check('%s/%d' % (label, j), r.equal, '%s: number %d is %s instead of %s' % (what, j, show(a)[:70], show(b)[:70]), loc, fp=j)


def mkc(v):
    return v


def configs(src, n=5):
    out = []
    for tv, pv, tl, pl in [(0.5, 0.2, 0.9, 2.3), (0.3, -1.2, 1.1, 0.4), (1.2, 2.9, 0.2, -0.8), (0.9, -2.4, 0.7, 0.1), (0.15, 0.4, 0.35, 1.9)][:n]:
        x = through(unit(tv, pv) + unit(tl, pl), 'CARTESIAN', src)
        if x:
            out.append(x)
    return out


def tokens(text):
    """lines of a plot file -> rows of numbers"""
    rows, cur, part = [], [], ''

    def flush():
        nonlocal part
        if part:
            cur.append(float(part))
            part = ''
    for t in text:
        if isinstance(t, Num):
            cur.append(t.v)
        elif isinstance(t, str):
            for ch in t:
                if ch in ' \t\n':
                    flush()
                    if ch == '\n' and cur:
                        rows.append(cur)
                        cur = []
                else:
                    part += ch
        else:
            raise Unsupported('the text depends on a condition')
    flush()
    return rows + ([cur] if cur else [])


def near(a, b, eps=1e-8):
    return a is not UNDEF and not isinstance(a, E) and abs(a - b) <= eps * max(1, abs(b))


def data_rows(src, nY, n=5):
    xs = configs(src, n)
    return xs, [[var('v%d_%d' % (i, j)) for j in range(nY)] for i in range(len(xs))]


def start(R, label, name, line, files):
    c = fresh(bounds.decider(lambda n: (0.2, 0.9) if n[0] == 'p' else (-1e6, 1e6)))
    c.I.files.update(files)
    ends = tool(c, name, line)
    events(R, c, label, where(name))
    R.saw(c)
    return c if R.check(label + '/status', succeeded(ends), 'the run ends with %s' % tell(ends), where(name), fp='status') else None


def table(R, mname, line, nY, src, diff):
    loc = where('brdf2data')
    label = 'brdf2data %s x%d at %s%s' % (mname, nY, src, ', differences' if diff else '')
    with R.guard(label, loc):
        text = model_file(line, nY)
        xs, vs = data_rows(src, nY)
        c = start(R, label, 'brdf2data', '--input f.func --output o.dat --data-file d.dat' + (' --export-diff' if diff else ''),
                  {'f.func': text, 'd.dat': [header(len(xs[0]), nY, src, 'INV_STERADIAN')] + lines([a + b for a, b in zip(xs, vs)])})
        if not c:
            return
        rc, g, back = reread(c, 'o.dat')
        M = Model(text)
        R.check(label + '/descriptor', describe(rc, g)[:3] == (len(xs[0]), nY, enum('alta::params::input')[src]), 'the output is %s' % (describe(rc, g),), loc, fp='descriptor')
        rows = [list(map(back, r)) for r in rows_of(rc, g)]
        if R.check(label + '/count', len(rows) == len(xs), 'the output has %d samples instead of %d' % (len(rows), len(xs)), loc, fp=len(rows)):
            for i, r in enumerate(rows):
                k = len(xs[0])
                R.check('%s/sample %d/configuration' % (label, i), all(near(a, b) for a, b in zip(r[:k], xs[i])), 'sample %d moved to %s' % (i, r[:k]), loc, fp='moved')
                want = M.at(xs[i], src)
                agree(R, '%s/sample %d' % (label, i), r[k:], [sym.sub(v, w) for v, w in zip(vs[i], want)] if diff else want, 'sample %d' % i, loc)
                R.count('samples')


def grid(R, mname, line, nY, src, sz, given):
    """a grid as template, from a file or made for the purpose"""
    loc = where('brdf2data')
    label = 'brdf2data %s x%d on a grid %s %s%s' % (mname, nY, src, sz, '' if given else ' from scratch')
    with R.guard(label, loc):
        text = model_file(line, nY)
        s = ','.join(map(str, sz))
        opts = '--data-file g.dat --data data_grid' if given else '--data data_grid --param %s --grid-size [%s]' % (src, s)
        c = start(R, label, 'brdf2data', '--input f.func --output o.dat ' + opts, {'f.func': text, 'g.dat': grid_text(src, nY, 'INV_STERADIAN', sz, 'v')})
        if not c:
            return
        rc, g, back = reread(c, 'o.dat', 'data_grid')
        M = Model(text)
        n = 1
        for k in sz:
            n *= k
        rows = [list(map(back, r)) for r in rows_of(rc, g)]
        if R.check(label + '/count', len(rows) == n, 'the output has %d nodes instead of %d' % (len(rows), n), loc, fp=len(rows)):
            for i, r in enumerate(rows):
                z = through(r[:len(sz)], src, 'CARTESIAN')
                want = z and min(z[2], z[5]) > 1e-9 and M.at(r[:len(sz)], src)
                if want and all(isinstance(w, E) or math.isfinite(w) for w in want):
                    agree(R, '%s/node %d' % (label, i), r[len(sz):], want, 'node %d' % i, loc)
                    R.count('samples')


def plot(R, mname, line, nY, src, opts):
    loc = where('brdf2gnuplot')
    label = 'brdf2gnuplot %s x%d at %s %s' % (mname, nY, src, opts)
    with R.guard(label, loc):
        text = model_file(line, nY)
        xs, vs = data_rows(src, nY)
        c = start(R, label, 'brdf2gnuplot', '--input f.func --output o.dat --data-file d.dat ' + opts, {'f.func': text, 'd.dat': [header(len(xs[0]), nY, src, 'INV_STERADIAN')] + lines([a + b for a, b in zip(xs, vs)])})
        if not c:
            return
        M = Model(text)
        rows = tokens(written(c, 'o.dat'))
        if not R.check(label + '/count', len(rows) == len(xs), 'the plot has %d lines instead of %d' % (len(rows), len(xs)), loc, fp=len(rows)):
            return
        for i, r in enumerate(rows):
            lead = [float(i)] if 'linear_error' in opts else xs[i]
            k = len(lead)
            R.check('%s/line %d/abscissa' % (label, i), len(r) >= k and all(near(a, b) for a, b in zip(r, lead)), 'line %d starts with %s instead of %s' % (i, r[:k], lead), loc, fp='abscissa')
            want = M.at(xs[i], src)
            if 'cos-plot' in opts:
                z = through(xs[i], src, 'CARTESIAN')
                want = [sym.mul(w, z[2] * z[5]) for w in want]
            if 'linear_error' in opts:
                want = [sym.div(sym.sub(v, w), v) for v, w in zip(vs[i], want)]
            elif 'error' in opts:
                want = [sym.sub(v, w) for v, w in zip(vs[i], want)]
            agree(R, '%s/line %d' % (label, i), r[k:], want, 'line %d' % i, loc)
            R.count('lines')


def polar(R, mname, line, nY, inc, samples):
    loc = where('brdf2gnuplot')
    label = 'brdf2gnuplot %s x%d polar %s/%s' % (mname, nY, inc, samples)
    with R.guard(label, loc):
        text = model_file(line, nY)
        c = start(R, label, 'brdf2gnuplot', '--input f.func --output o.dat --polar-plot --inc-angle %r --samples %d' % (inc, samples), {'f.func': text})
        if not c:
            return
        M = Model(text)
        rows = tokens(written(c, 'o.dat'))
        n = samples // 2
        if not R.check(label + '/count', len(rows) == 2 * n, 'the plot has %d lines instead of %d' % (len(rows), 2 * n), loc, fp=len(rows)):
            return
        # light from (inc, pi); the retro-reflection side has negative abscissas
        for i, r in enumerate(rows):
            th, ph = 0.5 * math.pi * (i % n) / n, math.pi if i < n else 0.0
            R.check('%s/line %d/abscissa' % (label, i), near(r[0], -th if i < n else th), 'line %d starts with %s' % (i, r[0]), loc, fp='abscissa')
            want = M.at([inc, math.pi, th, ph], 'SPHERICAL_TL_PL_TV_PV')
            if want:
                agree(R, '%s/line %d' % (label, i), r[1:], want, 'line %d' % i, loc)
                R.count('lines')


def alike(line, nY):
    """the other parametrizations with as many coordinates as the input of the model"""
    M = Model(model_file(line, nY))
    out = []
    for name, v in inputs():
        if v == M.inp or dimension(v) != M.nX:
            continue
        try:
            xs = configs(name)
            if len(xs) > 1 and all(M.at(x, name) for x in xs):
                out.append(name)
        except Noret:
            pass
    return out


def again(R, mname, line, nY):
    """brdf2brdf keeps the model"""
    loc = where('brdf2brdf')
    label = 'brdf2brdf %s x%d' % (mname, nY)
    with R.guard(label, loc):
        text = model_file(line, nY)
        c = start(R, label, 'brdf2brdf', '--input f.func --output o.func ' + line, {'f.func': text})
        if not c:
            return
        M, N = Model(text), Model(written(c, 'o.func'))
        R.check(label + '/parametrization', (M.nX, M.inp) == (N.nX, N.inp), 'the parametrization changes', loc, fp='inp')
        for x in configs('CARTESIAN', 3):
            agree(R, label, N.at(x, 'CARTESIAN'), M.at(x, 'CARTESIAN'), 'the value', loc)
            R.count('samples')


def run(R):
    R.rule('main() of brdf2data, brdf2gnuplot and brdf2brdf is interpreted over model files with unknown parameters and data files with concrete configurations and unknown values: '
           'each number written is the value of the model in the file at the configuration of its sample, converted to the parametrization of the model')
    srcs = ['CARTESIAN', 'SPHERICAL_TL_PL_TV_PV', 'RUSIN_TH_TD_PD', 'ISOTROPIC_TV_TL_DPHI', 'STEREOGRAPHIC']
    for k, (mname, line) in enumerate(MODELS):
        for j, nY in enumerate((1, 3)):
            src = srcs[(2 * k + j) % len(srcs)]
            for diff in (False, True):
                table(R, mname, line, nY, src, diff)
            for o, opts in enumerate(('', '--error', '--linear_error', '--cos-plot', '--cos-plot --error')):
                plot(R, mname, line, nY, srcs[(2 * k + j + o) % len(srcs)], opts)
            polar(R, mname, line, nY, (0.3, 0.7)[j], (6, 9)[j])
            grid(R, mname, line, nY, 'RUSIN_TH_TD', [3, 2], True)
            if R.tier == 'thorough':
                for src in srcs:
                    table(R, mname, line, nY, src, False)
                    for opts in ('', '--cos-plot --linear_error'):
                        plot(R, mname, line, nY, src, opts)
            same = alike(line, nY)
            for src in same if R.tier == 'thorough' else [same[(k + j) % len(same)]] if same else []:
                table(R, mname, line, nY, src, bool(j))
                plot(R, mname, line, nY, src, '--error' if j else '')
                R.count('other coordinates of the same number')
            again(R, mname, line, nY)
            grid(R, mname, line, nY, ('RUSIN_TH_TD', 'RUSIN_TH_TD_PD')[j], [2, 3] if j == 0 else [2, 2, 3], False)
    for k, (mname, line) in enumerate(RATIONAL):
        for j, nY in enumerate((1, 3)):
            src = srcs[(k + j) % len(srcs)]
            table(R, mname, line, nY, src, bool(k % 2))
            plot(R, mname, line, nY, src, ('', '--error', '--linear_error', '--cos-plot')[(k + j) % 4])
            same = alike(line, nY)
            for src in same if R.tier == 'thorough' else [same[(k + j) % len(same)]] if same else []:
                table(R, mname, line, nY, src, bool(j))
                plot(R, mname, line, nY, src, '--error' if j else '')
                R.count('other coordinates of the same number')
    R.floor('other coordinates of the same number', 8)
    R.floor('samples', 380)
    R.floor('lines', 510)
    R.floor('discharged', 4000)
