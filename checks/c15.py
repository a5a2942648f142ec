"""Measured and gridded tables: samples, bounds and interpolation."""
import math, random
from dataset import *
import exr, flannmodel
from sym import cmp, and_, or_, not_, ite, fun, evalx

PI = math.pi
MERL = 'sources/plugins/data_io/merl.cpp'
UTIA = 'sources/plugins/data_io/utia.cpp'
SLICE = 'sources/plugins/data_io/slice.cpp'
GRID = 'sources/plugins/data_interpolants/grid.cpp'
RBF = 'sources/plugins/data_interpolants/rbf.cpp'


def provide_data(c, tu, size, nX, nY, inp, out, args=''):
    x = [y for y in c.P.byq.get('provide_data', []) if y[0] == tu]
    if not x:
        raise AnalysisError('%s exports no provide_data' % tu)
    k, v = c.runfn(Fn(*x[0]), None, [size, mkparams(c, nX, nY, inp, out), cmd(c, args)])
    if k == 'noret':
        raise Noret('provide_data', v)
    return v


def machine(rng):
    c = fresh(bounds.decider(rng))
    c.I.sarr_min = 200000
    c.rng = rng
    return c


def unknown(c, name='T'):
    """every large table now holds arbitrary numbers; -> how many tables"""
    n = 0
    for o in sorted(c.S.mem):
        if c.S.mem[o].kind == 'sarr':
            c.S.w(o).x.update(init='sel', name=name + (str(n) if n else ''), writes=())
            n += 1
    return n


def T(k, name='T'):
    return mk('sel', name, k)


def sampler(rng, special=None):
    """special(rng, name) -> values to prefer now and then"""
    def s(*xs):
        names = sorted(set().union(*[vars_of(x) for x in xs if isinstance(x, E)] or [set()]))

        def draw(r, n):
            lo, hi = rng(n)
            if isinstance(lo, int):
                return r.randint(lo, hi)
            return r.uniform(lo, hi)

        def g(r):
            return {n: draw(r, n) for n in names}

        def sp(r):
            e = g(r)
            for n in names:
                v = list(special(n) if special else ()) + list(rng(n))
                if r.random() < 0.4:
                    e[n] = r.choice(v)
            return e
        g.special = sp
        return g
    return s


def intable(R, c, label, since, rng, what, loc, special=None, edge=()):
    """every element read or written since event `since` is one the table has"""
    bad = und = None
    n = 0
    for e in c.I.events[since:]:
        if e[0] == 'oob':
            bad = bad or (e[1], e[2])
        if e[0] != 'symindex' or not isinstance(e[1], tuple):
            continue
        n += 1
        k, size = e[1]
        D = bounds.Decider(rng).under(*e[3])
        if D is None:
            continue
        lo, hi = D.iv(k)
        if lo >= 0 and hi <= size - 1:
            continue
        # look for a configuration that reads outside
        pcs = [x for x in e[3] if isinstance(x, E)]
        g = sampler(rng, special)(k, *pcs)
        r = random.Random(1)
        w = None
        try:
            for i in range(3000):
                env = (g.special if i % 2 else g)(r)
                if not all(evalx(x, env) for x in pcs):
                    continue
                v = evalx(k, env)
                if not (0 <= v < size):
                    w = env, v
                    break
        except Exception:
            w = None
        if w:
            bad = bad or ('element %s of %d is used at %s' % (w[1], size, {a: round(b, 6) for a, b in w[0].items()}), e[2])
        else:
            und = und or 'element in [%s, %s] of %d' % (lo, hi, size)
    R.count('table accesses', n)
    if bad:
        R.check(label + '/inside', False, '%s: %s' % (what, bad[0]), bad[1] or loc, fp='outside')
    elif und:
        R.undecided(label + '/inside', und)
    else:
        R.check(label + '/inside', True, '%d accesses' % n, loc)


def agree(R, label, got, want, what, loc, smp):
    bad, und = [], []
    if not R.check(label + '/length', len(got) == len(want), '%s has %d numbers instead of %d' % (what, len(got), len(want)), loc, fp=len(got)):
        return
    w = None
    for i, (a, b) in enumerate(zip(got, want)):
        if a is UNDEF or (isinstance(a, E) and 'undef' in sym.ops_of(a)):
            bad.append(i)
            continue
        r = equal(a, b, smp(a, b), n=60, tol=2e-6)
        if r.equal is None:
            und.append(i)
        elif not r.equal:
            bad.append(i)
            w = w or r.witness
    if und and not bad:
        R.undecided(label, 'numbers %s' % und)
        return
    R.check(label, not bad, '%s is not what it should be at positions %s%s' % (what, bad, w and ': %s instead of %s at %s' % (w[1], w[2], {k: round(v, 5) for k, v in w[0].items()}) or ''), loc, fp=bad)


def limits(R, c, d, label, dimX, loc):
    lo, hi = [c.mvals(c.mcall(d, n, [])) for n in ('min', 'max')]
    ok = len(lo) == dimX and len(hi) == dimX and all(isinstance(v, (int, float)) for v in lo + hi) and all(a < b for a, b in zip(lo, hi))
    R.check(label + '/bounds', ok, 'the declared bounds are %s .. %s' % ([show(v) for v in lo], [show(v) for v in hi]), loc, fp='bounds')
    return (lo, hi) if ok else None


def within(R, c, label, coords, lim, rng, loc):
    """sample coordinates lie in the declared bounds"""
    D = bounds.Decider(rng)
    for j, x in enumerate(coords):
        a, b = D.iv(x) if isinstance(x, E) else (x, x)
        eps = 1e-9 * max(1.0, abs(lim[1][j]))
        if a >= lim[0][j] - eps and b <= lim[1][j] + eps:
            R.check('%s/coordinate %d in bounds' % (label, j), True)
            continue
        g = sampler(rng)(x)
        r = random.Random(2)
        w = None
        for i in range(400):
            env = g.special(r) if i % 2 else g(r)
            v = evalx(x, env)
            if v != v or v < lim[0][j] - eps or v > lim[1][j] + eps:
                w = env, v
                break
        if w or not isinstance(x, E):
            R.check('%s/coordinate %d in bounds' % (label, j), False, 'coordinate %d of a sample is %s, outside [%s, %s], at %s' % (j, w and w[1] or x, lim[0][j], lim[1][j], w and w[0]), loc, fp='outside')
        else:
            R.undecided('%s/coordinate %d in bounds' % (label, j), 'in [%s, %s]' % (a, b))


def writes(R, c, d, label, dimX, dimY, n, loc):
    """set(i) then get(j): the samples other than i keep their values"""
    rng = lambda v: (0, n - 1) if v in ('i', 'j') else (-5.0, 5.0)
    i, j = var('i'), var('j')
    pre_i, pre_j = row(c, d, i), row(c, d, j)
    s = [var('s%d' % k) for k in range(dimX + dimY)]
    n0 = len(c.I.events)
    c.mcall(d, 'set', [i, c.vec(s)])
    ri, rj = row(c, d, i), row(c, d, j)
    intable(R, c, label + '/set', n0, rng, 'writing a sample', loc)
    R.count('writes')
    base = sampler(rng)

    def smp(*xs):
        g = base(*xs)
        def h(r):
            e = g(r)
            if 'i' in e and 'j' in e and r.random() < 0.3:
                e['j'] = e['i']
            elif 'i' in e and 'j' in e and r.random() < 0.3:
                e['j'] = min(n - 1, e['i'] + 1)
            return e
        def hs(r):
            e = g.special(r)
            if 'i' in e and 'j' in e and r.random() < 0.3:
                e['j'] = e['i']
            return e
        h.special = hs
        return h
    agree(R, label + '/set then get', ri, pre_i[:dimX] + s[dimX:], 'a sample just written', loc, smp)
    same_ = cmp('==', i, j)
    agree(R, label + '/other samples', rj, pre_j[:dimX] + [ite(same_, a, b) for a, b in zip(s[dimX:], pre_j[dimX:])], 'a sample after another one is written', loc, smp)


def trunc(x):
    return fun('trunc', x)


def floor(x):
    return fun('floor', x)


def clampi(k, lo, hi):
    return ite(cmp('<', k, lo), lo, ite(cmp('<', hi, k), hi, k))


def idiv(a, b):
    return mk('idiv', a, b)


def imod(a, b):
    return mk('imod', a, b)


# ---- MERL

def merl(R):
    N = 90 * 90 * 180
    rng = lambda n: (0, N - 1) if n in ('i', 'j') else (-4.0, 7.0) if n[0] == 'q' else (-1.0, 1.0)
    loc = MERL
    with R.guard('MERL', loc):
        c = machine(rng)
        d = provide_data(c, MERL, 0, 3, 3, 'RUSIN_TH_TD_PD', 'RGB_COLOR')
        ie, oe = enum('alta::params::input'), enum('alta::params::output')
        R.check('MERL/descriptor', describe(c, d) == (3, 3, ie['RUSIN_TH_TD_PD'], oe['RGB_COLOR']), 'the table is %s' % (describe(c, d),), loc, fp='descriptor')
        R.check('MERL/size', size(c, d) == N, 'the table has %s samples' % size(c, d), loc, fp=size(c, d))
        lim = limits(R, c, d, 'MERL', 3, loc)
        i = var('i')
        n0 = len(c.I.events)
        g = row(c, d, i)
        k = imod(i, 180), imod(idiv(i, 180), 90), idiv(i, 180 * 90)
        want = [sym.mul(sym.mul(k[2] + 0.5, k[2] + 0.5), PI / 2 / 8100), sym.mul(k[1] + 0.5, PI / 180), sym.mul(k[0] + 0.5, PI / 180)]
        agree(R, 'MERL/fresh sample', g, want + [0.0, 0.0, 0.0], 'a sample of a new table', loc, sampler(rng))
        intable(R, c, 'MERL/fresh sample', n0, rng, 'reading a sample', loc)
        if lim:
            within(R, c, 'MERL', g[:3], lim, rng, loc)
        if unknown(c) != 1:
            R.undecided('MERL/tables', 'the table is not a single array')
            return
        n0 = len(c.I.events)
        sc = 1.0 / 1500, 1.15 / 1500, 1.66 / 1500
        g = row(c, d, i)
        agree(R, 'MERL/sample', g, want + [sym.mul(T(sym.add(i, N * p)), sc[p]) for p in range(3)], 'a sample', loc, sampler(rng))
        intable(R, c, 'MERL/sample', n0, rng, 'reading a sample', loc)
        # evaluation anywhere
        q = [var('q0'), var('q1'), var('q2')]
        sp = lambda n: (0.0, PI / 2, PI, 2 * PI, -PI, math.nextafter(PI / 2, 0), 1e-9, PI / 4) if n[0] == 'q' else ()
        qs = sampler(lambda n: ((-0.3, 1.8) if n in ('q0', 'q1') else (-3.6, 6.7)) if n[0] == 'q' else rng(n), sp)
        n0 = len(c.I.events)
        v = c.mvals(c.mcall(d, 'value', [c.vec(q)]))
        intable(R, c, 'MERL/value', n0, rng, 'evaluating the table', loc, sp)
        a = fun('abs', q[2])
        p = ite(cmp('<', PI, a), 2 * PI - a, a)
        out = or_(or_(or_(cmp('<', q[0], 0.0), cmp('<', PI / 2, q[0])), or_(cmp('<', q[1], 0.0), cmp('<', PI / 2, q[1]))), or_(cmp('<', p, 0.0), cmp('<', PI, p)))
        kp = clampi(trunc(sym.mul(p, 180 / PI)), 0, 179)
        kd = clampi(trunc(sym.mul(q[1], 180 / PI)), 0, 89)
        kh = clampi(trunc(fun('sqrt', sym.mul(fun('max', q[0], 0.0), 8100 / (PI / 2)))), 0, 89)
        idx = kp + kd * 180 + kh * (180 * 90)
        ref = [ite(out, 0.0, sym.mul(T(sym.add(idx, N * p_)), sc[p_])) for p_ in range(3)]
        agree(R, 'MERL/value', v, ref, 'the value of the table', loc, qs)
        R.count('evaluations')
        # at the coordinates of the samples
        back = [sym.subst(x, {'q%d' % m: g[m] for m in range(3)}) for x in v]
        agree(R, 'MERL/value at samples', back, g[3:], 'the value at the coordinates of a sample', loc, sampler(rng))
        # negative entries mark what could not be measured
        for o in sorted(c.S.mem):
            if c.S.mem[o].kind == 'sarr':
                c.S.w(o).x.update(init='fill', fill=var('t'), writes=())
        v = c.mvals(c.mcall(d, 'value', [c.vec([0.3, 0.4, 0.5])]))
        agree(R, 'MERL/invalid', v, [ite(cmp('<', var('t'), 0.0), 0.0, sym.mul(var('t'), s)) for s in sc], 'the value of a table with negative entries', loc, sampler(rng))
        unknown(c)
        writes(R, c, d, 'MERL', 3, 3, N, loc)
        events(R, c, 'MERL', loc)
        R.saw(c)
        R.count('tables')


# ---- UTIA

def utia(R):
    NT, NP = 6, 48
    N = (NT * NP) ** 2
    rng = lambda n: (0, N - 1) if n in ('i', 'j') else ({'q0': (0.0, PI), 'q1': (-PI, 2 * PI), 'q2': (0.0, PI), 'q3': (-PI, 2 * PI)}.get(n, (-1.0, 1.0)))
    loc = UTIA
    with R.guard('UTIA', loc):
        c = machine(rng)
        d = provide_data(c, UTIA, 0, 3, 3, 'RUSIN_TH_TD_PD', 'RGB_COLOR')
        ie, oe = enum('alta::params::input'), enum('alta::params::output')
        R.check('UTIA/descriptor', describe(c, d) == (4, 3, ie['SPHERICAL_TL_PL_TV_PV'], oe['RGB_COLOR']), 'the table is %s' % (describe(c, d),), loc, fp='descriptor')
        R.check('UTIA/size', size(c, d) == N, 'the table has %s samples' % size(c, d), loc, fp=size(c, d))
        lim = limits(R, c, d, 'UTIA', 4, loc)
        i = var('i')
        n0 = len(c.I.events)
        g = row(c, d, i)
        st, spp = PI / 12, PI / 24
        want = [sym.mul(imod(idiv(i, NP * NT * NP), NT), st), sym.mul(imod(idiv(i, NP * NT), NP), spp), sym.mul(imod(idiv(i, NP), NT), st), sym.mul(imod(i, NP), spp)]
        agree(R, 'UTIA/fresh sample', g, want + [0.0, 0.0, 0.0], 'a sample of a new table', loc, sampler(rng))
        intable(R, c, 'UTIA/fresh sample', n0, rng, 'reading a sample', loc)
        if lim:
            within(R, c, 'UTIA', g[:4], lim, rng, loc)
        if unknown(c) != 1:
            R.undecided('UTIA/tables', 'the table is not a single array')
            return
        n0 = len(c.I.events)
        g = row(c, d, i)
        agree(R, 'UTIA/sample', g, want + [T(sym.add(i, N * p)) for p in range(3)], 'a sample', loc, sampler(rng))
        intable(R, c, 'UTIA/sample', n0, rng, 'reading a sample', loc)
        q = [var('q%d' % k) for k in range(4)]
        sp = lambda n: {'0': (0.0, PI / 2, PI / 12, 5 * PI / 12, 1.6), '2': (0.0, PI / 2, PI / 6, 5 * PI / 12, 1.6)}.get(n[1], (0.0, 2 * PI, PI, -PI, -1e-9, math.nextafter(2 * PI, 0), 6.28, 6.2)) if n[0] == 'q' else ()
        qs = sampler(lambda n: (0.0, 1.8) if n in ('q0', 'q2') else rng(n), sp)
        n0 = len(c.I.events)
        v = c.mvals(c.mcall(d, 'value', [c.vec(q)]))
        intable(R, c, 'UTIA/value', n0, rng, 'evaluating the table', loc, sp)
        R.count('evaluations')
        out = or_(cmp('<', PI / 2, q[0]), cmp('<', PI / 2, q[2]))

        def theta(x):
            t = sym.mul(x, 12 / PI)
            k = clampi(floor(t), 0, NT - 2)
            return [(k, 1 - (t - k)), (k + 1, t - k)]

        def phi(x):
            t = sym.mul(ite(cmp('<', x, 0.0), x + 2 * PI, x), 24 / PI)
            k = floor(t)
            w = t - k
            m = lambda z: imod(z, NP)
            return [(m(k), 1 - w), (m(k + 1), w)]
        A = theta(q[0]), phi(q[1]), theta(q[2]), phi(q[3])
        ref = []
        for p in range(3):
            acc = 0.0
            for ti, wti in A[0]:
                for pi_, wpi in A[1]:
                    for tv, wtv in A[2]:
                        for pv, wpv in A[3]:
                            k = ((ti * NP + pi_) * NT + tv) * NP + pv
                            acc = sym.add(acc, sym.mul(T(sym.add(k, N * p)), sym.mul(sym.mul(wti, wpi), sym.mul(wtv, wpv))))
            ref.append(ite(out, 0.0, acc))
        agree2(R, 'UTIA/value', v, ref, 'the value of the table', loc, qs, 2e-5)
        back = [sym.subst(x, {'q%d' % m: g[m] for m in range(4)}) for x in v]
        agree2(R, 'UTIA/value at samples', back, g[4:], 'the value at the coordinates of a sample', loc, sampler(rng), 2e-5)
        unknown(c)
        writes(R, c, d, 'UTIA', 4, 3, N, loc)
        events(R, c, 'UTIA', loc)
        R.saw(c)
        R.count('tables')


def agree2(R, label, got, want, what, loc, smp, tol):
    """agreement up to single-precision steps"""
    bad = []
    w = None
    if not R.check(label + '/length', len(got) == len(want), '%s has %d numbers instead of %d' % (what, len(got), len(want)), loc, fp=len(got)):
        return
    for i, (a, b) in enumerate(zip(got, want)):
        r = equal(a, b, smp(a, b), n=120, tol=tol)
        if r.equal is None:
            R.undecided(label, 'number %d' % i)
            return
        if not r.equal:
            bad.append(i)
            w = w or r.witness
    R.check(label, not bad, '%s is not what it should be at positions %s%s' % (what, bad, w and ': %s instead of %s at %s' % (w[1], w[2], {k: round(v, 5) for k, v in w[0].items()}) or ''), loc, fp=bad)


# ---- BRDF slices

FIRST2 = {'RUSIN_TH_TD': (0.0, PI / 2), 'RUSIN_TH_TD_PD': (0.0, PI / 2), 'STARK_2D': (0.0, 1.0), 'STARK_3D': (0.0, 1.0), 'COS_TH_TD': (0.0, 1.0),
          'ISOTROPIC_TV_TL_DPHI': (-PI / 2, PI / 2), 'ISOTROPIC_TL_TV_PROJ_DPHI': (-PI / 2, PI / 2), 'SCHLICK_TL_TK_PROJ_DPHI': (-PI / 2, PI / 2), 'RETRO_TL_TVL_PROJ_DPHI': (-PI / 2, PI / 2)}
REVERSED = ('ISOTROPIC_TL_TV_PROJ_DPHI', 'SCHLICK_TL_TK_PROJ_DPHI', 'RETRO_TL_TVL_PROJ_DPHI')


def dimension(c, ie, n):
    d = c.call('alta::params::dimension', [ie[n]], nargs=1, pred=lambda x: 'input' in c.P.ty(x[0], x[1]['p'][0]['t'])['s'])
    return d if d > 0 else None        # None: not a parametrization of its own


def loaded_slice(c, X, W, H, args, name='T'):
    px = lambda ch: [T(3 * k + ch, name) for k in range(W * H)]
    t = X.add(exr.Img(W, H, [('B', px(2)), ('G', px(1)), ('R', px(0))]))
    return load(c, [t], args, 'data_brdf_slice', 'in.exr')


def slices(R):
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    c = fresh()
    names = [n for n in ie if n != 'UNKNOWN_INPUT' and dimension(c, ie, n) in (2, 3)]
    cases = [('', 'STARK_2D', 90.0)] + [('--param %s' % n, n, 90.0) for n in names] + [('--param %s --phi 30' % n, n, 30.0) for n in names if dimension(c, ie, n) == 3]
    cases.append(('--phi 30', 'STARK_2D', 90.0))
    for k, (args, n, phi) in enumerate(cases):
        W, H = ((4, 3), (3, 5), (1, 2), (5, 1))[k % 4]
        slice_case(R, ie, oe, args, n, phi, W, H)
    with R.guard('slice', SLICE):
        rng = lambda n: (0, 512 * 512 - 1) if n in ('i', 'j') else (-5.0, 5.0)
        c = machine(rng)
        label = 'new slice'
        d = provide_data(c, SLICE, 0, 2, 3, 'STARK_2D', 'RGB_COLOR', '--param RUSIN_TH_TD')
        n = 512 * 512
        R.check(label + '/size', size(c, d) == n, 'a new slice has %s samples' % size(c, d), SLICE, fp=size(c, d))
        i = var('i')
        n0 = len(c.I.events)
        g = row(c, d, i)
        want = [sym.mul(imod(i, 512) + 0.5, PI / 1024), sym.mul(idiv(i, 512) + 0.5, PI / 1024)]
        agree(R, label + '/fresh sample', g, want + [0.0] * 3, 'a sample of a new table', SLICE, sampler(rng))
        lim = limits(R, c, d, label, 2, SLICE)
        if lim:
            within(R, c, label, g[:2], lim, rng, SLICE)
        unknown(c)
        writes(R, c, d, label, 2, 3, n, SLICE)
        intable(R, c, label, n0, rng, 'reading a sample', SLICE)
        q = [var('q0'), var('q1')]
        n0 = len(c.I.events)
        g = row(c, d, i)
        v = c.mvals(c.mcall(d, 'value', [c.vec(q)]))
        intable(R, c, label + '/value', n0, rng, 'evaluating the table', SLICE)
        unknown(c)
        g = row(c, d, i)
        v = c.mvals(c.mcall(d, 'value', [c.vec(q)]))
        back = [sym.subst(x, {'q%d' % m: g[m] for m in range(2)}) for x in v]
        agree(R, label + '/value at samples', back, g[2:], 'the value at the coordinates of a sample', SLICE, sampler(rng))
        events(R, c, label, SLICE)
        R.saw(c)


def slice_case(R, ie, oe, args, n, phi, W, H):
    label = 'slice %s %dx%d' % (args or 'default', W, H)
    with R.guard(label, SLICE):
        N = W * H
        rng = lambda v: (0, N - 1) if v in ('i', 'j') else (-7.0, 7.0)
        c = machine(rng)
        X = exr.Exr(c)
        d = loaded_slice(c, X, W, H, args)
        dim = dimension(c, ie, n)
        R.check(label + '/descriptor', describe(c, d) == (dim, 3, ie[n], oe['RGB_COLOR']), 'the table is %s' % (describe(c, d),), SLICE, fp='descriptor')
        if not R.check(label + '/size', size(c, d) == N, 'the table has %s samples' % size(c, d), SLICE, fp=size(c, d)):
            return
        lim = limits(R, c, d, label, dim, SLICE)
        if not lim:
            return
        R.count('tables')
        flip = (lambda v: v[::-1]) if n in REVERSED else (lambda v: v)
        lo, hi = flip(lim[0]), flip(lim[1])
        if n in FIRST2:
            R.check(label + '/domain', all(abs(lo[k] - FIRST2[n][0]) < 1e-9 and abs(hi[k] - FIRST2[n][1]) < 1e-9 for k in (0, 1)), 'the domain of the image is %s .. %s' % (lo[:2], hi[:2]), SLICE, fp='domain')
        for i in range(N):
            g = row(c, d, i)
            x = [lo[0] + (i % W + 0.5) * (hi[0] - lo[0]) / W, lo[1] + (i // W + 0.5) * (hi[1] - lo[1]) / H] + [math.radians(phi)] * (dim - 2)
            agree(R, '%s/sample %d' % (label, i), g, flip(x) + [T(3 * i + k) for k in range(3)], 'sample %d' % i, SLICE, sampler(rng))
            within(R, c, '%s/sample %d' % (label, i), g[:dim], lim, rng, SLICE)
            v = c.mvals(c.mcall(d, 'value', [c.vec(g[:dim])]))
            agree(R, '%s/value at sample %d' % (label, i), v, g[dim:], 'the value at the coordinates of sample %d' % i, SLICE, sampler(rng))
        q = [var('q%d' % k) for k in range(dim)]
        u = flip(q)
        n0 = len(c.I.events)
        v = c.mvals(c.mcall(d, 'value', [c.vec(q)]))
        names = [x.args[0] for x in u[:2]]
        sp = lambda nm: [lo[names.index(nm)], hi[names.index(nm)], math.nextafter(hi[names.index(nm)], 9), math.nextafter(lo[names.index(nm)], -9)] if nm in names else ()
        rq = lambda nm: (lo[names.index(nm)] - 0.1, hi[names.index(nm)] + 0.1) if nm in names else rng(nm)
        intable(R, c, label + '/value', n0, rng, 'evaluating the table', SLICE, sp)
        out = or_(or_(cmp('<', u[0], lo[0]), cmp('<', hi[0], u[0])), or_(cmp('<', u[1], lo[1]), cmp('<', hi[1], u[1])))
        ci = [clampi(floor(sym.mul(u[k] - lo[k], S_ / (hi[k] - lo[k]))), 0, S_ - 1) for k, S_ in ((0, W), (1, H))]
        ref = [ite(out, 0.0, T((ci[0] + ci[1] * W) * 3 + k)) for k in range(3)]
        agree(R, label + '/value', v, ref, 'the value of the table', SLICE, sampler(rq, sp))
        R.count('evaluations')
        nan = float('nan')
        for k in (0, 1):
            x = [0.5 * (lo[0] + hi[0]), 0.5 * (lo[1] + hi[1])] + [0.5] * (dim - 2)
            x[k] = nan
            v = c.mvals(c.mcall(d, 'value', [c.vec(flip(x))]))
            R.check('%s/undefined coordinate %d' % (label, k), all(same(t, 0.0) for t in v), 'the value at a configuration that is not a number is %s' % [show(t)[:40] for t in v], SLICE, fp='nan')
        # writing
        for i in {0, N - 1, N // 2}:
            before = [row(c, d, j) for j in range(N)]
            s = [var('s%d' % k) for k in range(dim + 3)]
            c.mcall(d, 'set', [i, c.vec(s)])
            R.count('writes')
            for j in range(N):
                g = row(c, d, j)
                agree(R, '%s/sample %d after writing %d' % (label, j, i), g, before[j][:dim] + (s[dim:] if i == j else before[j][dim:]), 'sample %d' % j, SLICE, sampler(rng))
        events(R, c, label, SLICE)
        R.saw(c)


# ---- grids

GRIDS = {'COS_TH': [(0.0, 1.0)], 'COS_TK': [(0.0, 1.0)], 'COS_TLV': [(-1.0, 1.0)], 'COS_TLR': [(-1.0, 1.0)], 'COS_TH_TD': [(0.0, 1.0)] * 2, 'RUSIN_TH_TD': [(0.0, PI / 2)] * 2,
         'ISOTROPIC_TV_PROJ_DPHI': [(-PI / 2, PI / 2)] * 2, 'STARK_2D': [(0.0, 1.0)] * 2, 'RUSIN_TH_TD_PD': [(0.0, PI / 2)] * 2 + [(0.0, 2 * PI)], 'STARK_3D': [(0.0, 1.0)] * 2 + [(0.0, 2 * PI)]}
SIZES = {1: ([], [4], [2], [5]), 2: ([], [4, 3], [2, 5], [3, 3]), 3: ([2, 3, 4], [3, 2, 2], [2, 2, 3])}


def grids(R):
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    for n, dom in sorted(GRIDS.items()):
        for k, sz in enumerate(SIZES[len(dom)]):
            for nY in ((1, 3)[k % 2],) if len(dom) > 1 else (1, 3):
                grid_case(R, ie, oe, n, dom, sz, nY, k)
    c = fresh()
    for n in sorted(ie):
        if n in GRIDS or n == 'UNKNOWN_INPUT' or dimension(c, ie, n) is None:
            continue
        label = 'grid over %s' % n
        with R.guard(label, GRID):
            c = machine(lambda v: (-5, 5))
            try:
                d = provide_data(c, GRID, 4, dimension(c, ie, n), 1, n, 'INV_STERADIAN', '--grid-size [%s]' % ','.join(['2'] * dimension(c, ie, n)))
                lo, hi = [c.mvals(c.mcall(d, m, [])) for m in ('min', 'max')]
                ok = len(lo) == len(hi) == dimension(c, ie, n) and all(isinstance(x, (int, float)) for x in lo + hi) and all(x < y for x, y in zip(lo, hi))
                R.check(label, ok, 'a grid is made without bounds: %s .. %s' % ([show(x) for x in lo], [show(x) for x in hi]), GRID, fp='bounds')
            except Noret:
                R.check(label, True, 'refused')
            R.count('grids refused')


def grid_case(R, ie, oe, n, dom, sz, nY, how):
    dim = len(dom)
    label = 'grid %s %s x%d' % (n, sz or 'default', nY)
    with R.guard(label, GRID):
        rng = lambda v: (dom[int(v[1])] if v[0] == 'q' and v[1:].isdigit() and int(v[1]) < dim else (-5.0, 5.0))
        c = machine(lambda v: (-20.0, 20.0))
        args = '--grid-size [%s]' % ','.join(map(str, sz)) if sz else ''
        on = 'INV_STERADIAN' if nY == 1 else 'RGB_COLOR'
        if how % 2:
            # the grid's own option wins over the parametrization asked for
            d = provide_data(c, GRID, 7, 2, nY, 'STARK_2D', on, args + ' --param ' + n)
        else:
            d = provide_data(c, GRID, 7, dim, nY, n, on, args)
        sz = sz or [10] * dim
        N = 1
        for k in sz:
            N *= k
        R.check(label + '/descriptor', describe(c, d) == (dim, nY, ie[n], oe[on]), 'the table is %s' % (describe(c, d),), GRID, fp='descriptor')
        if not R.check(label + '/size', size(c, d) == N, 'the table has %s samples' % size(c, d), GRID, fp=size(c, d)):
            return
        lim = limits(R, c, d, label, dim, GRID)
        if not lim:
            return
        R.check(label + '/domain', all(abs(lim[0][k] - dom[k][0]) < 1e-9 and abs(lim[1][k] - dom[k][1]) < 1e-9 for k in range(dim)), 'the domain is %s .. %s' % lim, GRID, fp='domain')
        R.count('tables')
        coords = []
        for i in range(N):
            k, r = [], i
            for s in reversed(sz):
                k.insert(0, r % s)
                r //= s
            coords.append([dom[j][0] + (dom[j][1] - dom[j][0]) * k[j] / (sz[j] - 1) for j in range(dim)])
        for i in range(N):
            g = row(c, d, i)
            agree(R, '%s/new sample %d' % (label, i), g, coords[i] + [0.0] * nY, 'sample %d of a new grid' % i, GRID, sampler(rng))
            within(R, c, '%s/new sample %d' % (label, i), g[:dim], lim, rng, GRID)
        for i in range(N):
            c.mcall(d, 'set', [i, c.vec(coords[i] + [T(i * nY + j) for j in range(nY)])])
            R.count('writes')
        bad = [i for i in range(N) if not all(same(a, b) for a, b in zip(row(c, d, i), coords[i] + [T(i * nY + j) for j in range(nY)]))]
        R.check(label + '/set then get', not bad, 'samples %s are not the ones written' % bad[:5], GRID, fp=bad[:5])
        lim2 = limits(R, c, d, label + ' filled', dim, GRID)
        R.check(label + ' filled/domain', lim2 is not None and lim2[0] == lim[0] and lim2[1] == lim[1], 'the domain moved to %s' % (lim2,), GRID, fp='moved')
        for i in range(N):
            v = c.mvals(c.mcall(d, 'value', [c.vec(coords[i])]))
            agree(R, '%s/value at sample %d' % (label, i), v, [T(i * nY + j) for j in range(nY)], 'the value at the coordinates of sample %d' % i, GRID, sampler(rng))
        if N <= 128:
            q = [var('q%d' % k) for k in range(dim)]
            n0 = len(c.I.events)
            v = c.mvals(c.mcall(d, 'value', [c.vec(q)]))
            sp = lambda nm: list(dom[int(nm[1])]) + [0.0, math.nextafter(dom[int(nm[1])][1], -9)] if nm[0] == 'q' else ()
            wide = lambda nm: (dom[int(nm[1])][0] - 0.3, dom[int(nm[1])][1] + 0.3) if nm[0] == 'q' else (-5.0, 5.0)
            intable(R, c, label + '/value', n0, wide, 'evaluating the table', GRID, sp)
            agree(R, label + '/value', v, [multilinear(q, dom, sz, nY, j) for j in range(nY)], 'the value of the table', GRID, sampler(wide, sp))
            R.count('evaluations')
        else:
            r = random.Random(how)
            for t in range(12):
                x = [r.uniform(a, b) if t % 4 else r.choice((a, b)) for a, b in dom]
                v = c.mvals(c.mcall(d, 'value', [c.vec(x)]))
                agree(R, '%s/value %d' % (label, t), v, [multilinear(x, dom, sz, nY, j) for j in range(nY)], 'the value at %s' % x, GRID, sampler(rng))
            R.count('evaluations')
        events(R, c, label, GRID)
        R.saw(c)


def multilinear(q, dom, sz, nY, j):
    cells = [(0, 1.0)]
    for m, s in enumerate(sz):
        lo, hi = dom[m]
        t = sym.mul(sym.sub(q[m], lo), (s - 1) / (hi - lo))
        k = clampi(floor(t), 0, s - 2)
        w = fun('max', fun('min', sym.sub(t, k), 1.0), 0.0)
        cells = [x for i, a in cells for x in ((sym.add(sym.mul(i, s), k), sym.mul(a, sym.sub(1.0, w))), (sym.add(sym.add(sym.mul(i, s), k), 1), sym.mul(a, w)))]
    acc = 0.0
    for i, a in cells:
        acc = sym.add(acc, sym.mul(a, T(sym.add(sym.mul(i, nY), j))))
    return acc


# ---- scattered points

def scattered(R):
    import itertools
    ie, oe = enum('alta::params::input'), enum('alta::params::output')
    r = random.Random(5)
    for (nX, ip), (nY, op) in itertools.product(((1, 'COS_TH'), (2, 'RUSIN_TH_TD'), (3, 'RUSIN_TH_TD_PD')), ((1, 'INV_STERADIAN'), (3, 'RGB_COLOR'))):
        for n in (1, 2, 5):
            order = list(range(n))
            r.shuffle(order)
            label = 'scattered %s/%s n=%d' % (ip, op, n)
            with R.guard(label, RBF):
                c = machine(lambda v: (-2.0, 2.0))
                F = flannmodel.Flann(c, order)
                rows = [[var('x%d_%d' % (i, j)) for j in range(nX)] + [var('y%d_%d' % (i, j)) for j in range(nY)] for i in range(n)]
                text = ['#DIM %d %d\n#PARAM_IN %s\n#PARAM_OUT %s\n#VS 0\n' % (nX, nY, ip, op)]
                for x in rows:
                    text += [t for v in x for t in (num(v), ' ')] + ['\n']
                d = load(c, text, '', 'data_rbf')
                R.check(label + '/descriptor', describe(c, d) == (nX, nY, ie[ip], oe[op]), 'the table is %s' % (describe(c, d),), RBF, fp='descriptor')
                if not R.check(label + '/size', size(c, d) == n, 'the table has %s samples' % size(c, d), RBF, fp=size(c, d)):
                    continue
                R.count('tables')
                for m in ('min', 'max'):
                    want = []
                    for j in range(nX):
                        w = rows[0][j]
                        for x in rows[1:]:
                            w = fun(m, w, x[j])
                        want.append(w)
                    agree(R, '%s/%s' % (label, m), c.mvals(c.mcall(d, m, [])), want, 'the %simum of the inputs' % m, RBF, rangevars2)
                for i in range(n):
                    agree(R, '%s/sample %d' % (label, i), row(c, d, i), rows[i], 'sample %d' % i, RBF, rangevars2)
                q = [var('q%d' % j) for j in range(nX)]
                v = c.mvals(c.mcall(d, 'value', [c.vec(q)]))
                k = F.asked
                if not R.check(label + '/neighbours', isinstance(k, int) and k >= 1, 'no neighbour is looked for', RBF, fp='none'):
                    continue
                den, acc = 0.0, [0.0] * nY
                for i in order[:k]:
                    ds = 0.0
                    for j in range(nX):
                        e = sym.sub(q[j], rows[i][j])
                        ds = sym.add(ds, sym.mul(e, e))
                    w = sym.div(1.0, sym.add(1e-10, ds))
                    den = sym.add(den, w)
                    acc = [sym.add(a, sym.mul(w, y)) for a, y in zip(acc, rows[i][nX:])]
                agree(R, label + '/value', v, [sym.div(a, den) for a in acc], 'the interpolation of the neighbours', RBF, rangevars2)
                R.count('evaluations')
                events(R, c, label, RBF)
                R.saw(c)


def rangevars2(*xs):
    return rangevars(-2.0, 2.0, *xs)


def run(R):
    R.rule('tables of each plugin are built from the analysed factory or loader, with arbitrary content (an uninterpreted function of the index); samples, bounds and fresh content are compared with the file format; '
           'table accesses are decided in range by intervals under the path conditions; values are compared with the cell look-up or interpolation the format defines, over the domain, its borders and beyond')
    merl(R)
    utia(R)
    slices(R)
    grids(R)
    scattered(R)
    R.floor('tables', 90)
    R.floor('evaluations', 90)
    R.floor('writes', 780)
    R.floor('discharged', 7900)
