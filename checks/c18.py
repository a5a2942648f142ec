"""Conversion of data files: data2data keeps each sample, at the converted configuration, with its value."""
import random
from tools import *
from conv import inputs

LOC = 'sources/softs/data2data/main.cpp'


def unit(th, ph):
    return [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]


# light and view directions: (view theta, view phi, light theta, light phi)
ANGLES = [(2.0, 0.3, 0.4, 1.0), (0.5, 0.2, 0.9, 2.3), (0.3, -1.2, 1.1, 0.4), (0.6, 0.7, 1.9, -2.0), (1.2, 2.9, 0.2, -0.8), (1.8, 0.5, 1.7, 2.0), (0.9, -2.4, 0.7, 0.1)]


def through(x, src, dst):
    try:
        y = conv_point(x, src, dst)
    except Noret:
        return None
    return y if all(math.isfinite(v) for v in y) else None


def points(src, dst):
    """configurations in parametrization src with their image in dst and whether that is above the horizon"""
    out = []
    for tv, pv, tl, pl in ANGLES:
        x = through(unit(tv, pv) + unit(tl, pl), 'CARTESIAN', src)
        y = x and through(x, src, dst)
        z = y and through(y, dst, 'CARTESIAN')
        if z and abs(min(z[2], z[5])) > 1e-6:
            out.append((x, y, min(z[2], z[5]) > 0))
    return out


def near(a, b):
    if isinstance(a, E) or a is UNDEF:
        return False
    return abs(a - b) <= 1e-9 * max(1, abs(b))


def opened(c):
    return {k.x['path'] for k in c.S.mem.values() if k.kind == 'ostr' and k.x.get('path')}


def rows_of(c, d):
    return [row(c, d, i) for i in range(size(c, d))]


def samples(R, label, got, want, nX, loc, rng=None):
    """got: rows; want: list of (coordinates, values)"""
    if not R.check(label + '/count', len(got) == len(want), 'the output holds %d samples instead of %d' % (len(got), len(want)), loc, fp=len(got)):
        return
    for i, (g, (x, y)) in enumerate(zip(got, want)):
        bad = [k for k in range(nX) if not near(g[k], x[k])]
        R.check('%s/sample %d/configuration' % (label, i), not bad, 'sample %d is at %s instead of %s' % (i, [show(v)[:20] for v in g[:nX]], ['%.6g' % v for v in x]), loc, fp=bad)
        compare(R, c_, '%s/sample %d/value' % (label, i), g[nX:], y, 'the value of sample %d' % i, loc, rng)
        R.count('samples')


c_ = None


def done(R, c, label, ends, loc=LOC):
    return R.check(label + '/status', succeeded(ends), 'the run ends with %s' % tell(ends), loc, fp='status')


def convert(R, label, src, dst, nY, op, opts='', interval=False, all_values=False, spelled=True, corrected=False):
    """list of samples -> list of samples"""
    D = DIMS()
    pts = points(src, dst)
    if len(pts) < 4:
        return False
    xs = [p[0] for p in pts]
    kind = 2 if interval else 0
    with R.guard(label, LOC):
        c = fresh()
        vals = [[var('y%d_%d' % (i, j)) for j in range(nY)] for i in range(len(xs))]
        ci = [[var('l%d_%d' % (i, j)) if s == 0 else var('u%d_%d' % (i, j)) for j in range(nY) for s in (0, 1)] for i in range(len(xs))] if interval else [[]] * len(xs)
        c.I.files['in.dat'] = [header(D[src], nY, src, op, '#VS %s\n' % ' '.join([str(kind)] * nY) if interval else '')] + lines([x + y + z for x, y, z in zip(xs, vals, ci)])
        ends = tool(c, 'data2data', '--input in.dat --output o.dat%s%s%s' % (' --param ' + dst if spelled else '', ' --all-values' if all_values else '', opts))
        events(R, c, label, LOC)
        if not done(R, c, label, ends):
            return True
        w = written(c, 'o.dat')
        R.saw(c)
        g = load(c, w, '', '', 'o.dat')
        ie, oe = enum('alta::params::input'), enum('alta::params::output')
        R.check(label + '/descriptor', describe(c, g) == (D[dst], nY, ie[dst], oe[op]), 'the output is described as %s' % (describe(c, g),), LOC, fp='descriptor')
        R.check(label + '/files', sorted(opened(c)) == ['o.dat'], 'the run writes %s' % sorted(opened(c)), LOC, fp=sorted(opened(c)))
        if corrected:
            for i, x in enumerate(xs):
                z = through(x, src, 'CARTESIAN')
                vals[i] = [sym.div(v, z[2] * z[5]) for v in vals[i]]
                ci[i] = [sym.div(v, z[2] * z[5]) for v in ci[i]]
        keep = [i for i, (x, y, above) in enumerate(pts) if above or all_values]
        samples(R, label, rows_of(c, g), [(pts[i][1], vals[i]) for i in keep], D[dst], LOC)
        R.count('conversions')
        if interval and 'alta-binary' in opts and size(c, g) == len(keep):
            vals = [[sym.sub(v, w) for v, w in zip(a, b[0::2])] + [sym.add(v, w) for v, w in zip(a, b[1::2])] for a, b in zip(vals, ci)]
            for k, i in enumerate(keep):
                lo, hi = interval2(c, g, k)
                compare(R, c, '%s/sample %d/interval' % (label, k), lo + hi, vals[i], 'the interval of sample %d' % k, LOC)
    return True


def grid_text(n, nY, op, sz, name):
    dim = len(sz)
    N = 1
    for k in sz:
        N *= k
    return [header(dim, nY, n, op, '#grid-size [%s]\n' % ','.join(map(str, sz)))] + lines([[0.0] * dim + [var('%s%d_%d' % (name, i, j)) for j in range(nY)] for i in range(N)])


def regrid(R, label, src, dst, nY, op, isz, osz):
    """grid -> grid: each node holds the interpolated value of the input there, zero below the horizon"""
    D = DIMS()
    with R.guard(label, LOC):
        c = fresh()
        text = grid_text(src, nY, op, isz, 'y')
        c.I.files['in.dat'] = list(text)
        ends = tool(c, 'data2data', '--input in.dat --in-data data_grid --output o.dat --out-data data_grid --param %s --grid-size [%s]' % (dst, ','.join(map(str, osz))))
        events(R, c, label, LOC)
        if not done(R, c, label, ends):
            return
        w = written(c, 'o.dat')
        R.saw(c)
        g = load(c, w, '', 'data_grid', 'o.dat')
        d = load(c, text, '', 'data_grid', 'again.dat')
        ie, oe = enum('alta::params::input'), enum('alta::params::output')
        R.check(label + '/descriptor', describe(c, g) == (D[dst], nY, ie[dst], oe[op]), 'the output is described as %s' % (describe(c, g),), LOC, fp='descriptor')
        n = 1
        for k in osz:
            n *= k
        if not R.check(label + '/count', size(c, g) == n, 'the output has %s nodes instead of %d' % (size(c, g), n), LOC, fp='count'):
            return
        for i in range(n):
            r = row(c, g, i)
            x = r[:D[dst]]
            z = through(x, dst, 'CARTESIAN')
            y = z and through(z, 'CARTESIAN', src)
            if not y or min(abs(z[2]), abs(z[5])) < 1e-6:
                continue
            want = [0.0] * nY if min(z[2], z[5]) < 0 else c.mvals(c.mcall(d, 'value', [c.vec(y)]))
            compare(R, c, '%s/node %d' % (label, i), r[D[dst]:], want, 'node %d, at %s,' % (i, ['%.4g' % v for v in x]), LOC)
            R.count('nodes')
        R.count('grids')


GRIDS = [('RUSIN_TH_TD', [3, 4], 'RUSIN_TH_TD', [4, 3]), ('RUSIN_TH_TD_PD', [2, 3, 3], 'RUSIN_TH_TD_PD', [3, 2, 4]), ('COS_TH', [4], 'COS_TH', [3]),
         ('ISOTROPIC_TV_PROJ_DPHI', [3, 3], 'RUSIN_TH_TD_PD', [3, 3, 3]), ('RUSIN_TH_TD_PD', [3, 3, 2], 'RUSIN_TH_TD', [4, 4]),
         ('STARK_2D', [3, 2], 'COS_TH_TD', [3, 3]), ('RUSIN_TH_TD', [3, 3], 'STARK_3D', [2, 3, 2]),
         ('RUSIN_TH_TD', [2, 2], 'COS_TH', [5])]


def list_to_grid(R, label, all_values):
    """--splat: sample i becomes the value of cell i"""
    n, dim, sz = 'RUSIN_TH_TD', 2, [3, 4]
    with R.guard(label, LOC):
        c = fresh()
        xs = [[0.05 * i + 0.03, 0.04 * i + 0.02] for i in range(12)]
        vals = [[var('y%d' % i)] for i in range(12)]
        c.I.files['in.dat'] = [header(2, 1, n, 'INV_STERADIAN')] + lines([x + y for x, y in zip(xs, vals)])
        ends = tool(c, 'data2data', '--input in.dat --output o.dat --out-data data_grid --param %s --grid-size [3,4] --splat%s' % (n, ' --all-values' if all_values else ''))
        events(R, c, label, LOC)
        if not done(R, c, label, ends):
            return
        g = load(c, written(c, 'o.dat'), '', 'data_grid', 'o.dat')
        R.saw(c)
        if R.check(label + '/count', size(c, g) == 12, 'the output has %s nodes' % size(c, g), LOC, fp='count'):
            for i in range(12):
                compare(R, c, '%s/cell %d' % (label, i), row(c, g, i)[2:], vals[i], 'cell %d' % i, LOC)


def filters(R):
    """samples outside the boxes do not reach the output"""
    n = 'COS_TH_TD'
    xs = [[0.9, 0.5], [0.2, 0.8], [0.7, 0.3], [0.6, 0.95], [0.8, 0.6]]
    ys = [0.5, 1.0, 2.0, 3.0, 1.5]
    for opts, ok in (('--min [0.5,0.4]', lambda x, y: x[0] >= 0.5 and x[1] >= 0.4), ('--max [0.85,0.9]', lambda x, y: x[0] <= 0.85 and x[1] <= 0.9), ('--ymin [1.2]', lambda x, y: y >= 1.2),
                     ('--ymax [1.7]', lambda x, y: y <= 1.7), ('--min [0.5,0.4] --max [0.95,0.9] --ymin [1.0] --ymax [2.5]', lambda x, y: 0.5 <= x[0] <= 0.95 and 0.4 <= x[1] <= 0.9 and 1 <= y <= 2.5)):
        label = 'filter ' + opts
        with R.guard(label, LOC):
            c = fresh()
            c.I.files['in.dat'] = [header(2, 1, n, 'INV_STERADIAN')] + lines([x + [y] for x, y in zip(xs, ys)])
            ends = tool(c, 'data2data', '--input in.dat --output o.dat --all-values ' + opts)
            events(R, c, label, LOC)
            if not done(R, c, label, ends):
                continue
            g = load(c, written(c, 'o.dat'), '', '', 'o.dat')
            samples(R, label, rows_of(c, g), [(x, [y]) for x, y in zip(xs, ys) if ok(x, y)], 2, LOC)
            R.saw(c)


def cosine(R):
    for src, dst, interval in (('CARTESIAN', 'RUSIN_TH_TD_PD', False), ('SPHERICAL_TL_PL_TV_PV', 'CARTESIAN', False), ('CARTESIAN', 'SPHERICAL_TL_PL_TV_PV', True)):
        convert(R, 'corrected %s to %s' % (src, dst), src, dst, 3, 'RGB_COLOR', ' --data-correct-cosine' + (' --out-data alta-binary' if interval else ''), interval=interval, corrected=True)


def run(R):
    R.rule('main() of data2data is interpreted over files with concrete configurations and unknown values; the output file is parsed back and compared sample by sample')
    names = [n for n, v in inputs() if DIMS()[n] > 0]
    outs = [('INV_STERADIAN', 1), ('RGB_COLOR', 3), ('INV_STERADIAN_COSINE_FACTOR', 1)]
    for k, dst in enumerate(names):
        op, nY = outs[k % 3]
        if R.tier == 'thorough':
            for src in names:
                convert(R, '%s to %s' % (src, dst), src, dst, nY, op)
                convert(R, '%s to %s, intervals' % (src, dst), src, dst, nY, op, ' --out-data alta-binary', interval=True)
        else:
            convert(R, 'CARTESIAN to %s' % dst, 'CARTESIAN', dst, nY, op)
            convert(R, '%s to its own' % dst, dst, dst, nY, op, spelled=False)
            src = names[(k * 7 + 3) % len(names)]
            convert(R, '%s to %s' % (src, dst), src, dst, nY, op, all_values=k % 2 == 0)
    for src, dst, nY in (('CARTESIAN', 'SPHERICAL_TL_PL_TV_PV', 3), ('SPHERICAL_TL_PL_TV_PV', 'RUSIN_TH_TD_PD', 1), ('STEREOGRAPHIC', 'CARTESIAN', 2), ('ISOTROPIC_TV_TL_DPHI', 'ISOTROPIC_TV_TL_DPHI', 1)):
        for av in (False, True):
            for iv in (False, True):
                convert(R, '%s to binary %s nY=%d%s%s' % (src, dst, nY, ', all' if av else '', ', intervals' if iv else ''), src, dst, nY, 'RGB_COLOR' if nY == 3 else 'INV_STERADIAN', ' --out-data alta-binary', interval=iv, all_values=av)
    for src, isz, dst, osz in GRIDS:
        for nY, op in ((1, 'INV_STERADIAN'), (3, 'RGB_COLOR')):
            regrid(R, 'grid %s %s to %s %s x%d' % (src, isz, dst, osz, nY), src, dst, nY, op, isz, osz)
    list_to_grid(R, 'splat', False)
    list_to_grid(R, 'splat all', True)
    filters(R)
    cosine(R)
    R.floor('conversions', 79)
    R.floor('samples', 400)
    R.floor('nodes', 100)
    R.floor('grids', 14)
    R.floor('discharged', 2000)
