"""Rational functions: the value is the ratio of the two expansions over the input domain."""
from models import *
from sym import ite, cmp, fun
from libmodel import rich
import itertools

RF = 'sources/core/rational_function.cpp'
BASES = {'rational_function': 'monomial', 'rational_function_chebychev': 'chebyshev', 'rational_function_legendre': 'legendre', 'rational_function_cosine': 'legendre'}


def poly(kind, t, n):
    if kind == 'monomial':
        r = 1.0
        for _ in range(n):
            r = r * t
        return r
    a, b = 1.0, t
    if n == 0:
        return a
    for i in range(2, n + 1):
        a, b = (b, 2.0 * t * b - a) if kind == 'chebyshev' else (b, ((2 * i - 1) * t * b - (i - 1) * a) / float(i))
    return b


def basis(kind, t, deg):
    r = 1.0
    for x, n in zip(t, deg):
        r = r * poly(kind, x, n)
    return r


class RFn:
    def __init__(self, plug, nX, nY, np, nq, inp='UNKNOWN_INPUT'):
        self.plug, self.nX, self.nY, self.np, self.nq = plug, nX, nY, np, nq
        self.kind = BASES[plug]
        self.c = c = Ctx()
        c.I.env = {}
        tu = [t for t in plugin_tus((plug,)) if plugin_name(t) == plug]
        if plug == 'rational_function':
            self.f = c.new(RF, 'alta::rational_function', [mkparams(c, nX, nY, inp), 0, 0], pred=lambda t, m: len(m['p']) == 3)
            self.loc = RF
        else:
            if not tu:
                raise AnalysisError('no plugin ' + plug)
            self.f = provide(c, tu[0], nY, nX, inp)
            self.loc = tu[0]
        self.x = [var('x%d' % i) for i in range(nX)]
        self.lo = [var('l%d' % i) for i in range(nX)]
        self.hi = [var('h%d' % i) for i in range(nX)]

    def setup(self, lo=None, hi=None):
        c = self.c
        c.mcall(self.f, 'setSize', [self.np, self.nq])
        c.mcall(self.f, 'setMin', [c.vec(lo or self.lo)])
        c.mcall(self.f, 'setMax', [c.vec(hi or self.hi)])
        return self

    def get(self, k):
        return self.c.mcall(self.f, 'get', [k], pred=lambda t, m: not m.get('const'))

    def coefs(self, k=0):
        return [var('a%d_%d' % (k, i)) for i in range(self.np)], [var('b%d_%d' % (k, i)) for i in range(self.nq)]

    def update(self, r, a, b):
        c = self.c
        return c.mcall(r, 'update', [c.vec(a), c.vec(b)], pred=lambda t, m: len(m['p']) == 2)

    def degrees(self, r, n):
        c = self.c
        return [tuple(c.val(Loc(v.o, i)) for i in range(self.nX)) for v in (c.mcall(r, 'index2degree', [j]) for j in range(n))]

    def t(self):
        return [2.0 * ((x - l) / (h - l) - 0.5) for x, l, h in zip(self.x, self.lo, self.hi)]

    def cosine(self, inp):
        if self.plug != 'rational_function_cosine' or inp == 'UNKNOWN_INPUT':
            return 1.0
        return self.x[2] * self.x[5]                       # inputs given as Cartesian directions

    def sampler(self):
        def s(rng, special=False):
            env = {}
            for i in range(self.nX):
                a = rng.uniform(-2, 2)
                h = rng.uniform(0.3, 3)
                env['l%d' % i], env['h%d' % i] = a, a + h
                env['x%d' % i] = rng.choice([a, a + h, a + h / 2, a - 0.3, a + 1.2 * h]) if special else rng.uniform(a, a + h)
            for k in range(self.nY):
                for i in range(self.np):
                    env['a%d_%d' % (k, i)] = rng.uniform(-2, 2)
                for i in range(self.nq):
                    env['b%d_%d' % (k, i)] = rng.uniform(-0.05, 0.05) if i else rng.choice([-1, 1]) * rng.uniform(0.5, 2)
            return env
        s.special = lambda rng: s(rng, True)
        return s


def same(R, key, have, want, smp, loc, fp='differs'):
    if have is UNDEF:
        return R.check(key, False, 'the result is never set', loc, fp='undef')
    r = equal(have, want, smp)
    return R.check(key, r.equal, r.equal is False and 'computes %.9g, documented %.9g at %s' % (r.witness[1], r.witness[2], {k: round(v, 4) for k, v in sorted(r.witness[0].items())[:12]}) or r.how, loc, fp=fp)


def values(R, plug, nX, nY, np, nq, inp='UNKNOWN_INPUT'):
    lab = '%s/nX=%d nY=%d np=%d nq=%d%s' % (plug, nX, nY, np, nq, '' if inp == 'UNKNOWN_INPUT' else ' ' + inp)
    with R.guard(lab, RF):
        F = RFn(plug, nX, nY, np, nq, inp).setup()
        c, smp = F.c, F.sampler()
        F.c.I.assumef = None
        t = F.t()
        cos = F.cosine(inp)
        rs = []
        for k in range(nY):
            r = F.get(k)
            if not R.check(lab + '/channel%d' % k, isinstance(r, Loc) and r.o != 0, 'channel %d does not exist' % k, F.loc, fp='null'):
                return
            F.update(r, *F.coefs(k))
            rs.append(r)
        R.check(lab + '/distinct', len({r.o for r in rs}) == nY, 'two channels share their coefficients', F.loc, fp='shared')
        deg = F.degrees(rs[0], max(np, nq))
        v = c.mvals(c.mcall(F.f, 'value', [c.vec(F.x)]))
        R.check(lab + '/size', len(v) == nY, '%d values for %d channels' % (len(v), nY), F.loc, fp=len(v))
        for k in range(nY):
            a, b = F.coefs(k)
            num = sum((a[i] * basis(F.kind, t, deg[i]) * cos for i in range(np)), 0.0)
            den = sum((b[i] * basis(F.kind, t, deg[i]) for i in range(nq)), 0.0)
            if k < len(v):
                same(R, lab + '/value%d' % k, v[k], num / den, smp, F.loc)
            # normalised coefficients
            P, Q = (c.mvals(c.mcall(rs[k], g, [])) for g in ('getP', 'getQ'))
            R.check(lab + '/coefficients%d' % k, len(P) == np and len(Q) == nq, '%d and %d coefficients' % (len(P), len(Q)), RF, fp='%d,%d' % (len(P), len(Q)))
            for i in range(min(np, len(P))):
                same(R, lab + '/P%d_%d' % (k, i), P[i], a[i] / b[0], smp, RF)
            for i in range(min(nq, len(Q))):
                same(R, lab + '/Q%d_%d' % (k, i), Q[i], b[i] / b[0], smp, RF)
            if k == 0:
                for i in range(np):
                    same(R, lab + '/p(x,%d)' % i, c.mcall(rs[0], 'p', [c.vec(F.x), i]), basis(F.kind, t, deg[i]) * cos, smp, F.loc)
                for i in range(nq):
                    same(R, lab + '/q(x,%d)' % i, c.mcall(rs[0], 'q', [c.vec(F.x), i]), basis(F.kind, t, deg[i]), smp, F.loc)
                for n, w in (('p', num / b[0]), ('q', den / b[0])):
                    y = c.mvals(c.mcall(rs[0], n, [c.vec(F.x)]))
                    R.check(lab + '/%s(x)/size' % n, len(y) == 1, '%d values' % len(y), RF, fp=len(y))
                    same(R, lab + '/%s(x)' % n, y[0], w, smp, F.loc)
        problems(R, lab, c)
        R.saw(c)
        R.count('instances')


def problems(R, lab, c):
    for k, msg, loc, pc in list(c.I.events):
        if k in ('oob', 'uninit', 'null-deref', 'shape', 'mismatch', 'double-free', 'assert', 'throw'):
            R.check('%s/%s' % (lab, k), False, msg, loc, fp=msg[:40])


def degrees(R, nX, n):
    lab = 'degrees/nX=%d' % nX
    with R.guard(lab, RF):
        F = RFn('rational_function', nX, 1, 1, 1).setup()
        d = F.degrees(F.get(0), n)
        tot = [sum(x) for x in d]
        R.check(lab + '/distinct', len(set(d)) == n, 'the same multi-degree is used twice: %s' % [x for x in d if d.count(x) > 1][:2], RF, fp='twice')
        R.check(lab + '/graded', all(a <= b for a, b in zip(tot, tot[1:])) and tot[0] == 0, 'total degrees %s are not increasing' % tot[:12], RF, fp='order')
        R.check(lab + '/nonnegative', all(x >= 0 for y in d for x in y), 'negative degree', RF, fp='negative')
        D = tot[-1]
        want = {y for y in itertools.product(range(D), repeat=nX) if sum(y) < D}
        R.check(lab + '/complete', want <= set(d), 'degrees %s are skipped' % sorted(want - set(d))[:3], RF, fp='skipped')
        R.count('multi-degrees', n)
        R.saw(F.c)


def degenerate(R, plug):
    lab = plug + '/point domain'
    with R.guard(lab, RF):
        F = RFn(plug, 2, 1, 3, 3)
        F.setup([F.lo[0], var('m')], [F.hi[0], var('m')])
        r = F.get(0)
        a, b = F.coefs()
        F.update(r, a, b)
        c = F.c
        deg = F.degrees(r, 3)
        v = c.mvals(c.mcall(F.f, 'value', [c.vec([F.x[0], var('m')])]))
        t = [F.t()[0], 0.0]
        num = sum((a[i] * basis(F.kind, t, deg[i]) for i in range(3)), 0.0)
        den = sum((b[i] * basis(F.kind, t, deg[i]) for i in range(3)), 0.0)
        s0 = F.sampler()
        s = lambda rng: dict(s0(rng), m=rng.uniform(-2, 2))
        same(R, lab, v[0], num / den, s, F.loc)
        problems(R, lab, c)
        R.count('instances')


def normalise(R, plug):
    """a denominator whose first coefficient is zero is not divided by it"""
    lab = plug + '/zero leading coefficient'
    with R.guard(lab, RF):
        F = RFn(plug, 1, 1, 2, 2).setup()
        r = F.get(0)
        c = F.c
        a, b = F.coefs()
        b = [0.0, b[1]]
        F.update(r, a, b)
        P, Q = (c.mvals(c.mcall(r, g, [])) for g in ('getP', 'getQ'))
        t = F.t()
        v = c.mvals(c.mcall(F.f, 'value', [c.vec(F.x)]))
        want = (a[0] + a[1] * t[0]) / (b[1] * t[0])
        s0 = F.sampler()

        def s(rng):
            e = s0(rng)
            e['x0'] = e['l0'] + (e['h0'] - e['l0']) * rng.choice([rng.uniform(0.0, 0.4), rng.uniform(0.6, 1.0)])
            return e
        same(R, lab, v[0], want, s, RF)
        for i in range(2):
            same(R, lab + '/P%d' % i, P[i], a[i], s, RF)
            same(R, lab + '/Q%d' % i, Q[i], b[i], s, RF)
        problems(R, lab, c)


def sizes(R, plug, nX, old, new, how):
    """giving more or fewer coefficients than before keeps the expansion well formed"""
    lab = '%s/nX=%d %s %s->%s' % (plug, nX, how, old, new)
    with R.guard(lab, RF):
        F = RFn(plug, nX, 1, *old).setup()
        r = F.get(0)
        c = F.c
        F.update(r, *F.coefs())
        F.np, F.nq = new
        a, b = F.coefs()
        if how == 'update':
            F.update(r, a, b)
        elif how == 'resize':
            c.mcall(r, 'resize', [F.np, F.nq])
            F.update(r, a, b)
        else:
            G = RFn.__new__(RFn)
            G.__dict__ = dict(F.__dict__)
            G.f = None
            tu = c.S.get(F.f.o).x['tu']
            G.f = provide(c, tu, 1, nX, 'UNKNOWN_INPUT') if plug != 'rational_function' else c.new(RF, 'alta::rational_function', [mkparams(c, nX, 1, 'UNKNOWN_INPUT'), 0, 0], pred=lambda t, m: len(m['p']) == 3)
            G.setup()
            g = G.get(0)
            G.update(g, a, b)
            c.mcall(F.f, 'update', [0, g], pred=lambda t, m: len(m['p']) == 2)
        deg = F.degrees(r, max(new))
        t = F.t()
        num = sum((a[i] * basis(F.kind, t, deg[i]) for i in range(F.np)), 0.0)
        den = sum((b[i] * basis(F.kind, t, deg[i]) for i in range(F.nq)), 0.0)
        v = c.mvals(c.mcall(F.f, 'value', [c.vec(F.x)]))
        same(R, lab, v[0], num / den, F.sampler(), RF)
        problems(R, lab, c)
        R.count('instances')


def printing(R, plug):
    lab = plug + '/printed'
    with R.guard(lab, RF):
        F = RFn(plug, 1, 2, 2, 2).setup()
        c = F.c
        for k in range(2):
            F.update(F.get(k), *F.coefs(k))
        o = c.ostream()
        c.call('operator<<', [o, F.f], nargs=2, pred=lambda x: c.P.ty(x[0], x[1]['p'][1]['t'])['s'].replace('const ', '').rstrip(' &') == 'alta::rational_function')
        have = {t.v for t in c.text(o) if isinstance(t, Num)}
        want = [t / F.coefs(k)[1][0] for k in range(2) for t in F.coefs(k)[0] + F.coefs(k)[1][1:]]
        s = F.sampler()
        lost = [show(w) for w in want if not any(h is w or equal(h, w, s).equal for h in have)]
        R.check(lab, not lost, 'the coefficients %s are not written to the stream' % lost[:4], RF, fp='lost')
        R.saw(c)


def roundtrip(R, plug, nX, nY, np, nq, inp='UNKNOWN_INPUT'):
    lab = '%s/save nX=%d nY=%d np=%d nq=%d' % (plug, nX, nY, np, nq)
    with R.guard(lab, RF):
        c = Ctx()
        c.I.env = {}
        a = cmd(c, '' if plug == 'rational_function' else '--func ' + plug)
        f = getfn(c, a, mkparams(c, nX, nY, inp))
        if not R.check(lab + '/created', isinstance(f, Loc) and f.o != 0, 'no function', 'sources/core/plugins_manager.cpp', fp='null'):
            return
        F = RFn.__new__(RFn)
        F.plug, F.nX, F.nY, F.np, F.nq, F.kind, F.c, F.f = plug, nX, nY, np, nq, BASES[plug], c, f
        F.x, F.lo, F.hi = ([var('%s%d' % (z, i)) for i in range(nX)] for z in 'xlh')
        F.setup()
        loc = c.S.get(f.o).x['tu']
        for k in range(nY):
            F.update(F.get(k), *F.coefs(k))
        v = c.mvals(c.mcall(f, 'value', [c.vec(F.x)]))
        c.mcall(f, 'save', [c.string('o.func'), a])
        text = written(c, 'o.func')
        if not R.check(lab + '/written', text is not None, 'nothing was written', loc, fp='nofile'):
            return
        nums = [t for t in text if isinstance(t, Num)]
        low = [t for t in nums if isinstance(t.prec, int) and t.prec < 6]
        R.check(lab + '/digits', not low, 'numbers are written with fewer than 6 digits', loc, fp='digits')
        c.I.files['o.func'] = text
        try:
            g = c.call('alta::plugins_manager::load_function', [c.string('o.func')])
        except Noret:
            R.check(lab + '/loads', False, 'loading the saved file never completes', c.I.events and c.I.events[-1][2] or loc, fp='noload')
            return
        R.saw(c)
        if not R.check(lab + '/loads', isinstance(g, Loc) and g.o != 0, 'the file written by save is refused', loc, fp='refused'):
            return
        R.check(lab + '/class', c.S.get(g.o).x['cn'] == c.S.get(f.o).x['cn'], 'saved %s, loaded %s' % (c.S.get(f.o).x['cn'], c.S.get(g.o).x['cn']), loc, fp='class')
        R.check(lab + '/descriptor', dims(c, g) == dims(c, f), 'descriptor %s becomes %s' % (dims(c, f), dims(c, g)), loc, fp='descriptor')
        w = c.mvals(c.mcall(g, 'value', [c.vec(F.x)]))
        s = F.sampler()
        for k in range(nY):
            if k < len(w):
                same(R, lab + '/value%d' % k, w[k], v[k], s, loc)
        R.check(lab + '/channels', len(w) == nY, '%d channels become %d' % (nY, len(w)), loc, fp=len(w))
        problems(R, lab, c)
        R.count('round trips')


def run(R):
    R.rule('for the built-in rational function and each rational function plugin, with symbolic coefficients, input and input domain: value graphs of value, p, q and the coefficient '
           'accessors equal the ratio of expansions in the documented basis (monomial, Chebyshev, Legendre; cosine-weighted numerator) of the input mapped from its domain to [-1,1]; '
           'the index to multi-degree map enumerates every multi-degree once, by increasing total degree; a changed number of coefficients and the saved text keep all of it')
    deep = R.tier != 'quick'
    for plug in BASES:
        for nX, nY, np, nq in [(1, 1, 10, 3), (1, 3, 3, 10), (2, 1, 6, 4), (2, 2, 4, 6), (3, 1, 5, 5)] + ([(4, 3, 6, 6), (3, 2, 11, 4), (1, 1, 14, 12)] if deep else []):
            values(R, plug, nX, nY, np, nq)
        degenerate(R, plug)
        normalise(R, plug)
        printing(R, plug)
        for how in ('update', 'resize', 'assign'):
            for old, new in (((2, 2), (5, 3)), ((5, 3), (2, 4)), ((3, 3), (3, 3))):
                sizes(R, plug, 2, old, new, how)
            sizes(R, plug, 1, (2, 2), (4, 3), how)
        for nX, nY, np, nq in ((1, 1, 2, 2), (2, 3, 4, 3), (3, 1, 5, 2)):
            roundtrip(R, plug, nX, nY, np, nq)
    values(R, 'rational_function_cosine', 6, 2, 8, 7, 'CARTESIAN')
    roundtrip(R, 'rational_function_cosine', 6, 2, 3, 3, 'CARTESIAN')
    for nX, n in ((1, 12), (2, 45), (3, 56), (4, 70), (5, 56), (6, 84)) if not deep else ((1, 30), (2, 120), (3, 165), (4, 210), (5, 252), (6, 210), (7, 120)):
        degrees(R, nX, n)
    R.floor('instances', 60)
    R.floor('round trips', 11)
    R.floor('multi-degrees', 290)
