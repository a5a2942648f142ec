"""Distances between models and data, data and data, and moments of data."""
from tools import *
from c18 import unit, through, grid_text
from c21 import model_file, Model, MODELS, configs, data_rows, start, parametrization, sampler as sampler21
from models import enum
import bounds

KEYS = ('L1', 'L2', 'L3', 'LINF', 'MSE', 'RMSE')


def sq(a):
    return sym.mul(a, a)


def total(v):
    r = 0.0
    for a in v:
        r = sym.add(r, a)
    return r


def metrics(diff, weights=None):
    """diff: rows of differences -> {name: value of each output}"""
    n, m = len(diff), len(diff[0])
    out = {k: [] for k in KEYS}
    for j in range(m):
        d = [r[j] for r in diff]
        a = [sym.fun('abs', x) for x in d]
        out['L1'].append(total(a))
        out['L2'].append(sym.fun('sqrt', total(map(sq, d))))
        out['L3'].append(sym.fun('pow', total(sym.mul(x, sq(x)) for x in a), 1 / 3.0))
        b = a[0]
        for x in a[1:]:
            b = sym.fun('max', b, x)
        out['LINF'].append(b)
        out['MSE'].append(sym.div(total(map(sq, d)), float(n)))
        out['RMSE'].append(sym.fun('sqrt', out['MSE'][-1]))
    return out


def weighted(diff, w):
    return metrics([[sym.mul(x, k) for x in r] for r, k in zip(diff, w)])


def report(text):
    """lines 'label[a, b]' -> {label: numbers}"""
    out, label, cur = {}, '', None
    for t in text:
        if isinstance(t, Num):
            if cur is not None:
                cur.append(t.v)
            else:
                label += '#'
            continue
        if not isinstance(t, str):
            raise Unsupported('the report depends on a condition')
        for ch in t:
            if ch == '\n':
                label, cur = '', None
            elif cur is None and ch == '[':
                cur = out.setdefault(label.strip(' :='), [])
                lit = ''
            elif cur is not None:
                if ch in ',]':
                    if lit.strip():
                        cur.append(float(lit))
                    lit = ''
                    if ch == ']':
                        cur = None
                        label = ''
                else:
                    lit += ch
            else:
                label += ch
    return out


def values(rng):
    m = {'%s%d_%d' % (k, i, j): rng.uniform(*((0.5, 2.0) if k == 'y' else (-1.0, 2.0))) for k in 'vgy' for i in range(60) for j in range(3)}
    m.update({'p%d' % i: rng.uniform(0.2, 0.9) for i in range(40)})
    return m


def numbers(R, label, got, want, what, loc):
    if not R.check(label + '/length', got is not None and len(got) == len(want), '%s has %s numbers instead of %d' % (what, 'no' if got is None else len(got), len(want)), loc, fp='length'):
        return
    for j, (a, b) in enumerate(zip(got, want)):
        if a is UNDEF:
            R.check('%s/%d' % (label, j), False, '%s: number %d is unset' % (what, j), loc, fp='unset')
            continue
        r = equal(b, a, values)
        if r.equal is None:
            R.undecided('%s/%d' % (label, j), str(r))
        else:
            R.check('%s/%d' % (label, j), r.equal, '%s of output %d is %s instead of %s' % (what, j, show(a)[:80], show(b)[:80]), loc, fp=j)
    R.count('distances', len(want))


GRIDS = [('RUSIN_TH_TD', [3, 2], 'CARTESIAN'), ('RUSIN_TH_TD_PD', [2, 2, 3], 'SPHERICAL_TL_PL_TV_PV'), ('ISOTROPIC_TV_PROJ_DPHI', [3, 3], 'RUSIN_TH_PH_TD_PD'), ('COS_TH', [4], 'STEREOGRAPHIC'),
         ('STARK_3D', [2, 2, 2], 'ISOTROPIC_TV_TL_DPHI'), ('COS_TLV', [4], 'COS_TLV'), ('COS_TLR', [5], 'CARTESIAN'), ('RUSIN_TH_TD', [2, 3], 'RUSIN_TH_TD')]


def sample_rows(src, nY, n):
    if DIMS()[src] >= 3:
        xs = configs(src, n)
    else:
        xs = [through(unit(tv, pv) + unit(tl, pl), 'CARTESIAN', src) for tv, pv, tl, pl in [(0.5, 0.2, 0.9, 2.3), (0.3, -1.2, 1.1, 0.4), (0.9, -2.4, 0.7, 0.1), (0.15, 0.4, 0.35, 1.9)][:n]]
        xs = [x for x in xs if x and all(z is not None for z in [through(x, src, 'CARTESIAN')])]
    return xs, [[var('v%d_%d' % (i, j)) for j in range(nY)] for i in range(len(xs))]


def at_grid(text, dst, src, xs):
    """interpolated values of a grid at configurations"""
    c = fresh()
    g = load(c, text, '', 'data_grid', 'g.dat')
    out = []
    for x in xs:
        z = through(x, src, 'CARTESIAN')
        y = conv_point(z, 'CARTESIAN', dst)
        out.append(c.mvals(c.mcall(g, 'value', [c.vec(y)])))
    return out


def data_to_data(R, k, nY):
    dst, sz, src = GRIDS[k]
    loc = where('data2stats')
    label = 'data2stats x%d, %s against a grid %s %s' % (nY, src, dst, sz)
    with R.guard(label, loc):
        xs, vs = sample_rows(src, nY, 4)
        g = grid_text(dst, nY, 'INV_STERADIAN', sz, 'g')
        c = fresh()
        c.I.files.update({'g.dat': list(g), 'd.dat': [header(len(xs[0]), nY, src, 'INV_STERADIAN')] + lines([a + b for a, b in zip(xs, vs)])})
        ends = tool(c, 'data2stats', '--ref d.dat --input g.dat --in-data data_grid --output o.txt')
        events(R, c, label, loc)
        R.saw(c)
        if not R.check(label + '/status', succeeded(ends), 'the run ends with %s' % tell(ends), loc, fp='status'):
            return
        have = at_grid(g, dst, src, xs)
        want = metrics([[sym.sub(a, b) for a, b in zip(r, s)] for r, s in zip(have, vs)])
        got = report(written(c, 'o.txt'))
        for m in KEYS:
            numbers(R, '%s/%s' % (label, m), got.get(m), want[m], m, loc)


def masked(R, k, nY, mask):
    """errors::compute with a mask"""
    dst, sz, src = GRIDS[k]
    loc = 'sources/core/metrics.cpp'
    label = 'metrics x%d of %s against a grid %s %s, mask %s' % (nY, src, dst, sz, mask)
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    with R.guard(label, loc):
        xs, vs = sample_rows(src, nY, 4)
        if mask:
            mask = mask[:len(xs)]
        text = grid_text(dst, nY, 'INV_STERADIAN', sz, 'g')
        c = fresh()
        g = load(c, text, '', 'data_grid', 'g.dat')
        d = mkdata(c, len(xs[0]), nY, [a + b for a, b in zip(xs, vs)], ie[src], oe['INV_STERADIAN'])
        m = mkdata(c, len(xs[0]), 1, [a + [float(b)] for a, b in zip(xs, mask)], ie[src], oe['INV_STERADIAN']) if mask else 0
        fn = c.findfn('alta::errors::compute', 4)
        P = program()
        t = P.ty(fn.tu, fn.node['p'][3]['t'])
        res = c.I.new_rec(c.S, fn.tu, t)
        c.call('alta::errors::compute', [g, d, m, res])
        events(R, c, label, loc)
        R.saw(c)
        have = at_grid(text, dst, src, xs)
        want = metrics([[sym.sub(a, b) for a, b in zip(r, s)] for r, s, b in zip(have, vs, mask or [1] * 9) if b])
        got = c.S.get(res.o).d
        for n in KEYS:
            key = 'LInf' if n == 'LINF' else n
            v = [x for q, x in got.items() if textof(c, q) == key]
            numbers(R, '%s/%s' % (label, n), c.mvals(v[0]) if v else None, want[n], n, loc)


def textof(c, k):
    return k if isinstance(k, str) else str(k)


def model_to_data(R, mname, line, nY, src):
    loc = where('fit2stat')
    label = 'fit2stat %s x%d at %s' % (mname, nY, src)
    with R.guard(label, loc):
        text = model_file(line, nY)
        xs, vs = data_rows(src, nY, 4)
        c = fresh(bounds.decider(lambda n: (0.2, 0.9) if n[0] == 'p' else (-1e6, 1e6)))
        c.I.files.update({'f.func': list(text), 'd.dat': [header(len(xs[0]), nY, src, 'INV_STERADIAN')] + lines([a + b for a, b in zip(xs, vs)])})
        ends = tool(c, 'fit2stat', '--brdf f.func --input d.dat --output o.txt')
        events(R, c, label, loc)
        R.saw(c)
        if not R.check(label + '/status', succeeded(ends), 'the run ends with %s' % tell(ends), loc, fp='status'):
            return
        M = Model(text)
        diff = [[sym.sub(v, w) for v, w in zip(r, M.at(x, src))] for x, r in zip(xs, vs)]
        want = metrics(diff)
        got = report(written(c, 'o.txt'))
        for m in KEYS:
            numbers(R, '%s/%s' % (label, m), got.get(m), want[m], m, loc)
        z = [through(x, src, 'CARTESIAN') for x in xs]
        for what, w in (('cos(theta_light)', [t[5] for t in z]), ('cos(theta_light) cos(theta_view)', [t[5] * t[2] for t in z])):
            want = weighted(diff, w)
            for m in ('MSE', 'RMSE'):
                g = [v for k, v in got.items() if k.split()[0] == m and k.replace('*', ' ').split() == [m] + what.split()]
                numbers(R, '%s/%s %s' % (label, m, what), g[0] if g else None, want[m], '%s weighted by %s' % (m, what), loc)


def distance(R, mname, line, nY, src):
    """L2_distance, Linf_distance"""
    loc = 'sources/core/function.cpp'
    label = 'distance of %s x%d to data at %s' % (mname, nY, src)
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    with R.guard(label, loc):
        text = model_file(line, nY)
        xs, vs = data_rows(src, nY, 4)
        M = Model(text, True)
        c = M.c
        d = mkdata(c, len(xs[0]), nY, [a + b for a, b in zip(xs, vs)], ie[src], oe['INV_STERADIAN'])
        L2 = c.mcall(M.f, 'L2_distance', [c.sptr(d)])
        Li = c.mcall(M.f, 'Linf_distance', [c.sptr(d)])
        events(R, c, label, loc)
        R.saw(c)
        flat = [sym.sub(v, w) for x, r in zip(xs, vs) for v, w in zip(r, M.at(x, src))]
        numbers(R, label + '/L2', [L2], [sym.fun('sqrt', sym.div(total(map(sq, flat)), float(len(xs))))], 'the root of the mean squared distance', loc)
        # mean and variance of the error are printed
        out = [k.d for k in c.S.mem.values() if k.kind == 'ostr' and k.x.get('name') == 'std::cout']
        got = {k.split()[-1]: v for k, v in report(out[-1] if out else []).items() if k}
        cols = [[flat[i * nY + j] for i in range(len(xs))] for j in range(nY)]
        mean = [sym.div(total(d), float(len(d))) for d in cols]
        for what, want in (('Mean', mean), ('Var', [sym.div(total(sq(sym.sub(x, m)) for x in d), float(len(d))) for d, m in zip(cols, mean)])):
            if what in got:
                numbers(R, '%s/%s' % (label, what), got[what], want, what.lower() + ' of the error', loc)
                R.count('printed')
        numbers(R, label + '/Linf', [Li], metrics([[x] for x in flat])['LINF'], 'the largest distance', loc)


MOMENTS = ['', 'x', 'y', 'xx', 'xy', 'yy', 'xxx', 'xxy', 'xyy', 'yyy']


def moments(R, dst, sz, nY, samples, dim):
    loc = where('data2moments')
    label = 'data2moments x%d of a grid %s %s, samples %s, dimensions %s' % (nY, dst, sz, samples, dim)
    with R.guard(label, loc):
        N = 1
        for k in sz:
            N *= k
        # the least value of each output is known
        text = [header(len(sz), nY, dst, 'INV_STERADIAN', '#grid-size [%s]\n' % ','.join(map(str, sz)))] + lines([[0.0] * len(sz) + [var('y%d_%d' % (i, j)) if i != 1 else 0.25 for j in range(nY)] for i in range(N)])
        c = fresh(bounds.decider(lambda n: (0.5, 2.0)))
        c.I.files['g.dat'] = list(text)
        ends = tool(c, 'data2moments', '--input g.dat --data data_grid --output o.txt --samples [%s]' % ','.join(map(str, samples)) + (' --dim [%d,%d]' % tuple(dim) if dim else ''))
        events(R, c, label, loc)
        R.saw(c)
        if not R.check(label + '/status', succeeded(ends), 'the run ends with %s' % tell(ends), loc, fp='status'):
            return
        r = fresh(bounds.decider(lambda n: (0.5, 2.0)))
        g = load(r, text, '', 'data_grid', 'g.dat')
        lo, hi = r.mvals(r.mcall(g, 'min', [])), r.mvals(r.mcall(g, 'max', []))
        dt, n = 1.0, 1
        for k in range(len(sz)):
            dt *= (hi[k] - lo[k]) / samples[k]
            n *= samples[k]
        pts = []
        for i in range(n):
            x = []
            for k in range(len(sz)):
                x.append(lo[k] + (hi[k] - lo[k]) * (i % samples[k]) / samples[k])
                i //= samples[k]
            pts.append(x)
        val = [[sym.sub(v, 0.25) for v in r.mvals(r.mcall(g, 'value', [r.vec(x)]))] for x in pts]
        ax = dict(zip('xy', dim or [0, 1]))
        got = report([t for t in written(c, 'o.txt')])
        want = {}
        for m in MOMENTS:
            w = []
            for x in pts:
                f = dt
                for a in m:
                    f *= x[ax[a]]
                w.append(f)
            want[m] = [total(sym.mul(v[j], f) for v, f in zip(val, w)) for j in range(nY)]
        for m in MOMENTS:
            name = '\\mu_' + (m or '0' if len(m) < 2 else '{%s}' % m)
            numbers(R, '%s/%s' % (label, m or '0'), got.get(name), want[m] if not m else [sym.div(a, b) for a, b in zip(want[m], want[''])], 'the moment ' + (m or '0'), loc)
        R.count('moments', len(MOMENTS))


def run(R):
    R.rule('errors::compute, the distances of functions and main() of data2stats, fit2stat and data2moments are interpreted over models with unknown parameters and data with unknown values: '
           'each norm, weighted error and moment equals its definition over the samples, output by output')
    for k in range(len(GRIDS)):
        for nY in (1, 3):
            data_to_data(R, k, nY)
            for mask in (None, [1, 0, 1, 1], [0, 0, 1, 0], [0, 1, 0, 1], [1, 1, 1, 1]):
                masked(R, k, nY, mask)
    srcs = ['CARTESIAN', 'SPHERICAL_TL_PL_TV_PV', 'RUSIN_TH_TD_PD', 'ISOTROPIC_TV_TL_DPHI', 'STEREOGRAPHIC']
    for k, (mname, line) in enumerate(MODELS):
        for j, nY in enumerate((1, 3)):
            for src in srcs if R.tier == 'thorough' else (srcs[(k + j) % 5], srcs[(k + j + 2) % 5]):
                model_to_data(R, mname, line, nY, src)
                distance(R, mname, line, nY, src)
    moments(R, 'RUSIN_TH_TD', [2, 3], 1, [3, 4], None)
    moments(R, 'RUSIN_TH_TD', [3, 2], 3, [2, 2], [1, 0])
    moments(R, 'RUSIN_TH_TD_PD', [2, 2, 2], 2, [2, 3, 2], [0, 2])
    moments(R, 'STARK_3D', [2, 2, 2], 1, [2, 2, 3], [2, 1])
    moments(R, 'ISOTROPIC_TV_PROJ_DPHI', [2, 2], 2, [4, 2], None)
    R.floor('distances', 1800)
    R.floor('moments', 45)
    R.floor('discharged', 2800)
