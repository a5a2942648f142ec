"""Intervals around the values, and filters, are those the options ask for."""
from dataset import *
import itertools, math

KCOLS = {0: 0, 1: 1, 2: 2}


def kinds_of(vs, nY):
    k = [int(w) for w in vs.split()] if vs is not None else []
    return [k[j] if j < len(k) else 0 for j in range(nY)]


def sizes(r, kinds, dt):
    """(lower size, upper size) per output"""
    out = []
    for j, k in enumerate(kinds):
        if k == 0:
            out.append((dt, dt))
        elif k == 1:
            out.append((r['s'][j], r['s'][j]))
        else:
            out.append((r['l'][j], r['u'][j]))
    return out


def expected(r, kinds, mode, dt, positive):
    y, lo, up = [], [], []
    for v, (a, b) in zip(r['y'], sizes(r, kinds, dt)):
        if mode == 'relative':
            l, u = sym.mul(v, sym.sub(1.0, a)), sym.mul(v, sym.add(1.0, b))
        elif mode == 'max':
            l, u = sym.sub(v, sym.fun('max', a, sym.mul(v, a))), sym.add(v, sym.fun('max', b, sym.mul(v, b)))
        else:
            l, u = sym.sub(v, a), sym.add(v, b)
        if positive:
            v, l, u = [sym.fun('max', t, 0.0) for t in (v, l, u)]
        y.append(v)
        lo.append(l)
        up.append(u)
    return y, lo, up


def rows_of(n, nX, nY):
    def V(p, i):
        return [var('%s%d_%d' % (p, i, j)) for j in range(nY)]
    return [{'x': [var('x%d_%d' % (i, j)) for j in range(nX)], 'y': V('y', i), 's': V('s', i), 'l': V('l', i), 'u': V('u', i)} for i in range(n)]


def text_of(rows, kinds, nX, nY, inp, out, vs):
    T = ['#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n' % (nX, nY, inp, out)]
    if vs is not None:
        T.append('#VS %s\n' % vs)
    for r in rows:
        for v in r['x'] + r['y'] + [v for j, k in enumerate(kinds) for v in ([] if k == 0 else [r['s'][j]] if k == 1 else [r['l'][j], r['u'][j]])]:
            T += [num(v), ' ']
        T.append('\n')
    return T


def ranges(positive_y):
    def rng(n):
        if n[0] in 'slu':
            return 0.0, 1.0
        if n[0] == 'y':
            return (0.0, 10.0) if positive_y else (-10.0, 10.0)
        return -10.0, 10.0
    return rng


def sampler(positive_y):
    f = ranges(positive_y)

    def s(*xs):
        names = sorted(set().union(*[vars_of(x) for x in xs if isinstance(x, E)] or [set()]))

        def g(rng):
            return {n: rng.uniform(*f(n)) for n in names}
        g.special = g
        return g
    return s


def check(R, c, label, g, want, nX, nY, rng):
    n = size(c, g)
    if not R.check(label + '/size', n == len(want), '%s samples instead of %d' % (n, len(want)), DS, fp=n):
        return
    for i, (x, (y, lo, up)) in enumerate(want):
        compare(R, c, '%s/sample%d' % (label, i), row(c, g, i), x + y, 'sample %d' % i, DS, rng)
        gx, l, u = interval(c, g, i)
        compare(R, c, '%s/x%d' % (label, i), gx, x, 'the input of sample %d' % i, VS, rng)
        compare(R, c, '%s/lower%d' % (label, i), l, lo, 'the lower bound of sample %d' % i, DS, rng)
        compare(R, c, '%s/upper%d' % (label, i), u, up, 'the upper bound of sample %d' % i, DS, rng)
        l, u = interval2(c, g, i)
        compare(R, c, '%s/bounds%d' % (label, i), l + u, lo + up, 'the bounds of sample %d' % i, VS, rng)
    events(R, c, label, DS)


def intervals(R):
    hdr = {1: (None, '0', '1', '2'), 2: (None, '0', '1', '1 1', '2', '2 2', '1 2', '2 1', '0 1', '0 2', '2 0'), 3: (None, '0 0 0', '1 1 1', '2 2 2', '1 0 2', '0 2 1', '2 1')}
    k = 0
    for nY in (1, 2, 3):
        for vs in hdr[nY]:
            kinds = kinds_of(vs, nY)
            for mode in ('', 'relative', 'max'):
                for dt in (None, 0.25):
                    for pos in ('', '--data-positive', '--dt-positive'):
                        k += 1
                        if R.tier == 'quick' and pos and (k % 4):
                            continue
                        nX = 1 + k % 2
                        label = 'intervals VS=%s/nY=%d/%s/dt=%s%s' % (vs, nY, mode or 'absolute', dt, pos and '/' + pos)
                        with R.guard(label, DS):
                            py = mode == 'max'
                            c = fresh(bounds.decider(ranges(py)))
                            rows = rows_of(2, nX, nY)
                            a = ' '.join(w for w in (mode and '--dt-' + mode, dt is not None and '--dt %g' % dt, pos) if w)
                            try:
                                g = load(c, text_of(rows, kinds, nX, nY, 'UNKNOWN_INPUT', 'UNKNOWN_OUTPUT', vs), a)
                            except Noret:
                                R.check(label + '/loads', False, 'the file is refused', c.I.events and c.I.events[-1][2] or DS, fp='noload')
                                continue
                            R.saw(c)
                            R.count('interval options')
                            want = [(r['x'], expected(r, kinds, mode, 0.1 if dt is None else dt, pos)) for r in rows]
                            check(R, c, label, g, want, nX, nY, sampler(py))


def stored(R):
    """bounds of data sets kept with each kind of interval"""
    u, uo = enum('alta::params::input')['UNKNOWN_INPUT'], enum('alta::params::output')['UNKNOWN_OUTPUT']
    for kind, nX, nY in itertools.product((0, 1, 2), (1, 2), (1, 3)):
        label = 'stored kind %d/%dx%d' % (kind, nX, nY)
        with R.guard(label, VS):
            c = fresh(bounds.decider(ranges(False)))
            rows = rows_of(2, nX, nY)
            vals = [v for r in rows for v in r['x'] + r['y'] + (r['s'] if kind == 1 else r['l'] + r['u'] if kind == 2 else [])]
            d = segment(c, nX, nY, u, uo, vals, kind)
            want = []
            for r in rows:
                y = r['y']
                lo = r['l'] if kind == 2 else [sym.sub(a, b) for a, b in zip(y, r['s'] if kind == 1 else [0.1] * nY)]
                up = r['u'] if kind == 2 else [sym.add(a, b) for a, b in zip(y, r['s'] if kind == 1 else [0.1] * nY)]
                want.append((r['x'], (y, lo, up)))
            R.count('stored kinds')
            R.saw(c)
            check(R, c, label, d, want, nX, nY, sampler(False))
            # replacing a sample leaves the others alone
            nr = rows_of(3, nX, nY)[2]
            c.mcall(d, 'set', [1, c.vec(nr['x'] + nr['y'])])
            compare(R, c, label + '/set', row(c, d, 1), nr['x'] + nr['y'], 'the sample just set', VS)
            compare(R, c, label + '/set/other', row(c, d, 0), rows[0]['x'] + rows[0]['y'], 'the sample before the one set', VS)
            full = nr['x'] + nr['y'] + (nr['s'] if kind == 1 else nr['l'] + nr['u'] if kind == 2 else [])
            c.mcall(d, 'set', [0, c.vec(full)])
            compare(R, c, label + '/set full', row(c, d, 0), nr['x'] + nr['y'], 'the sample just set', VS)
            l, up = interval2(c, d, 0)
            y = nr['y']
            wl = nr['l'] if kind == 2 else [sym.sub(a, b) for a, b in zip(y, nr['s'] if kind == 1 else [0.1] * nY)]
            wu = nr['u'] if kind == 2 else [sym.add(a, b) for a, b in zip(y, nr['s'] if kind == 1 else [0.1] * nY)]
            compare(R, c, label + '/set full/bounds', l + up, wl + wu, 'the bounds of the sample just set', VS)
            compare(R, c, label + '/set full/other', row(c, d, 1), nr['x'] + nr['y'], 'the sample after the one set', VS)
            events(R, c, label + '/set', VS)


def filters(R):
    X1 = [0.0, 0.25, 0.5, 0.75, 1.0, 1.25, -0.5]
    opts1 = ['', '--min 0.25', '--max 0.75', '--min 0.25 --max 0.75', '--ymin 1', '--ymax 2', '--ymin 1 --ymax 2', '--min [0.25]', '--max [0.75]', '--min [0.25] --max [1] --ymin [1] --ymax [2.5]', '--min 0.3 --max 0.3', '--min -0.5 --max 0']
    pts2 = list(itertools.product((0.0, 0.5, 1.0), (-1.0, 0.0, 1.0)))
    opts2 = ['', '--min [0.5,0]', '--max [0.5,0]', '--min [0.5,-1] --max [1,0]', '--ymin [0,1]', '--ymax [1,3]', '--ymin [0,1] --ymax [1,3]', '--min 0.5', '--max 0', '--ymin 1', '--ymax 2', '--min [0.5,0] --ymax [1,2]', '--min [2,2]']

    def opt(a, key, dim, dflt):
        w = a.split()
        if '--' + key not in w:
            return [dflt] * dim
        v = w[w.index('--' + key) + 1]
        if v.startswith('['):
            return [float(t) for t in v[1:-1].split(',')]
        return [float(v)] * dim
    for nX, nY, pts, opts in ((1, 1, [(x,) for x in X1], opts1), (2, 2, pts2, opts2)):
        rows = [(list(p), [0.5 * i] if nY == 1 else [i % 3 - 0.5 * (i % 2), i * 0.5]) for i, p in enumerate(pts)]
        for a in opts:
            label = 'filter %s/%dx%d' % (a or 'none', nX, nY)
            with R.guard(label, DS):
                c = fresh()
                T = ['#DIM %d %d\n#PARAM_IN UNKNOWN_INPUT\n#PARAM_OUT UNKNOWN_OUTPUT\n#VS %s\n' % (nX, nY, ' '.join(['1'] * nY))]
                for i, (x, y) in enumerate(rows):
                    T.append(' '.join(repr(v) for v in x + y))
                    for j in range(nY):
                        T += [' ', num(var('s%d_%d' % (i, j)))]
                    T.append('\n')
                g = load(c, T, a)
                keep = []
                big = 3.4e38
                mn, mx, ymn, ymx = opt(a, 'min', nX, -big), opt(a, 'max', nX, big), opt(a, 'ymin', nY, -big), opt(a, 'ymax', nY, big)
                for i, (x, y) in enumerate(rows):
                    if all(l <= v <= h for l, v, h in zip(mn + ymn, x + y, mx + ymx)):
                        s = [var('s%d_%d' % (i, j)) for j in range(nY)]
                        keep.append((x, (y, [sym.sub(v, t) for v, t in zip(y, s)], [sym.add(v, t) for v, t in zip(y, s)])))
                R.count('filters')
                R.saw(c)
                check(R, c, label, g, keep, nX, nY, sampler(False))
                if keep:
                    compare(R, c, label + '/domain min', c.mvals(c.mcall(g, 'min', [])), [min(k[0][j] for k in keep) for j in range(nX)], 'the minimum of the inputs', VS)
                    compare(R, c, label + '/domain max', c.mvals(c.mcall(g, 'max', [])), [max(k[0][j] for k in keep) for j in range(nX)], 'the maximum of the inputs', VS)


def cosine(R):
    """values and bounds divided by both cosines; rows below the horizon dropped"""
    CZ = {'CARTESIAN': [([0.6, 0.0, 0.8, 0.0, 0.6, 0.8], True), ([0.6, 0.0, -0.8, 0.0, 0.6, 0.8], False), ([0.28, 0.0, 0.96, 0.0, 0.6, -0.8], False), ([0.0, 0.6, 0.8, 0.28, 0.0, 0.96], True)],
          'SPHERICAL_TL_PL_TV_PV': [([0.5, 0.1, 0.25, 2.0], True), ([0.1, 0.0, 1.7, 0.0], False), ([1.25, 3.0, 0.75, 0.0], True)]}
    for name, pts in CZ.items():
        nX = len(pts[0][0])
        for nY, vs in ((1, None), (2, '1 2'), (3, '2')):
            kinds = kinds_of(vs, nY)
            label = 'cosine %s/nY=%d/VS=%s' % (name, nY, vs)
            with R.guard(label, DS):
                c = fresh(bounds.decider(ranges(False)))
                rows = rows_of(len(pts), nX, nY)
                for r, (x, _) in zip(rows, pts):
                    r['x'] = x
                g = load(c, text_of(rows, kinds, nX, nY, name, 'UNKNOWN_OUTPUT', vs), '--data-correct-cosine')
                want = []
                for r, (x, keep) in zip(rows, pts):
                    if not keep:
                        continue
                    cl, cv = (x[2], x[5]) if name == 'CARTESIAN' else (math.cos(x[0]), math.cos(x[2]))
                    y, lo, up = expected(r, kinds, '', 0.1, False)
                    want.append((x, tuple([sym.div(v, cl * cv) for v in t] for t in (y, lo, up))))
                R.count('cosine corrections')
                R.saw(c)
                check(R, c, label, g, want, nX, nY, sampler(False))


def run(R):
    R.rule('text data with symbolic values and interval sizes is loaded under each combination of interval header and option, and the three accessors return the bounds the documentation defines; '
           'filters keep exactly the samples inside the closed boxes, in order, and the domain is that of the samples kept; the cosine correction divides values and bounds by both cosines')
    intervals(R)
    stored(R)
    filters(R)
    cosine(R)
    R.floor('interval options', 150)
    R.floor('stored kinds', 11)
    R.floor('filters', 22)
    R.floor('cosine corrections', 6)
    R.floor('discharged', 2500)
