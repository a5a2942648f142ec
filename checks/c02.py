"""Conversions out of the Cartesian configuration compute the documented coordinates; every conversion route agrees;
nothing outside the coordinates is touched."""
from conv import *
from c01 import DOC_DIM
from report import AnalysisError

BAD = ('oob', 'uninit', 'null-deref')
F = 'sources/core/params.cpp'


def footprint(R, key, c, vals, loc=F):
    ev = [e for e in c.I.events if e[0] in BAD]
    un = [i for i, v in enumerate(vals) if v is UNDEF]
    R.check('footprint/' + key, not ev and not un,
            '%s: %s' % (key, '; '.join(['coordinate %d is never written' % i for i in un] + ['%s (%s)' % (e[1], e[2]) for e in ev[:3]])),
            ev[0][2] if ev else loc, fp=','.join(sorted({e[0] for e in ev} | ({'unwritten'} if un else set()))))
    return not ev and not un


def compare(R, key, got, names, want, sampler, n, tol=1e-6, loc=F, msg=''):
    """got: graphs; want(env) -> list of floats or ('a', angle)"""
    rng = random.Random(R.seed * 7919 + 13)
    bad, good, err = None, 0, None
    for i in range(n):
        x = sampler(rng, i)
        env = {'x%d' % k: a for k, a in enumerate(x)}
        try:
            w = want(x)
        except (ZeroDivisionError, ValueError):
            continue
        try:
            g = [float(evalx(e, env)) for e in got]
        except (sym.EvalError, TypeError) as e:
            err = e
            continue
        if len(g) != len(w):
            bad = (x, g, w)
            break
        for a, b in zip(w, g):
            d, sc = gap(a, b)
            if d != d or d > tol * sc:
                bad = (x, g, w)
        if bad:
            break
        good += 1
    R.count('sample points', good)
    if bad and sym.opaque(*got):
        return R.undecided(key, 'depends on an unknown call', loc)
    if bad:
        r = lambda l: [round(t[1] if isinstance(t, tuple) else t, 5) for t in l]
        return R.check(key, False, '%s: at %s the code gives %s, documented %s' % (msg or key, r(bad[0]), r(bad[1]), r(bad[2])), loc, fp='wrong')
    if good < 4:
        return R.undecided(key, 'no usable sample point %s' % err, loc)
    return R.check(key, True, msg or key, loc)


def run(R):
    R.rule('each from_cartesian case is evaluated abstractly on six symbolic direction components into an output of exactly the registered dimension: no read or write '
           'outside, no coordinate left unwritten, and the value graph of every coordinate equals the documented formula (random interpretation over unit direction pairs)')
    R.rule('convert() is value-equivalent to the direct, shortcut or two-step route for every pair of registered parametrizations')
    xs = [var('x%d' % i) for i in range(6)]
    n = 100 if R.tier == 'quick' else 2000
    reg = []
    for nme, v in inputs():
        d = dimension(v)
        if d <= 0:
            continue
        R.count('parametrizations')
        reg.append((nme, v, d))
        try:
            got, c = from_cart(v, xs, d, R)
        except Unsupported as e:
            R.undecided('formula/' + nme, str(e))
            continue
        if got is None:
            R.check('defined/' + nme, False, 'no conversion from Cartesian to %s' % nme, F, fp='none')
            continue
        if not footprint(R, 'from_cartesian/' + nme, c, got):
            continue
        if spec(nme, [0, 0, 1, 0, 0, 1]) is None if nme not in DOC_DIM else False:
            R.undecided('formula/' + nme, 'no documented formula in the checker')
            continue
        if nme in ('ISOTROPIC_TD_PD', 'SCHLICK_TK_PK'):
            R.undecided('formula/' + nme, 'no documented formula in the checker')
            continue
        compare(R, 'formula/' + nme, got, nme, lambda x, nme=nme: spec(nme, x), lambda rng, i: dirs(rng, STYLES[i % len(STYLES)]), n, msg='coordinates in ' + nme)
        ti, ci = to_cart(v, [var('x%d' % i) for i in range(d)], R)
        if ti is not None:
            footprint(R, 'to_cartesian/' + nme, ci, ti)
    cart = dict((a, b) for a, b, _ in reg)['CARTESIAN']
    # every route of convert
    P = program()
    four = lambda x: len(x[1]['p']) == 4 and 'params::input' in str(P.ty(x[0], x[1]['p'][1]['t']))
    three = lambda x: len(x[1]['p']) == 3 and 'params::input' in str(P.ty(x[0], x[1]['p'][1]['t']))
    tocache = {}
    for a, va, da in reg:
        tc, _ = to_cart(va, [var('x%d' % i) for i in range(da)])
        if tc is None or any(t is UNDEF for t in tc):
            continue
        for b, vb, db in reg:
            R.count('conversion pairs')
            key = 'convert/%s/%s' % (a, b)
            try:
                if vb == cart:
                    want = tc
                elif a == b:
                    want = [var('x%d' % i) for i in range(da)]
                else:
                    want, _ = from_cart(vb, tc, db)
                for how in ('into', 'new'):
                    c = Ctx()
                    i = c.cells([var('x%d' % k) for k in range(da)])
                    if how == 'into':
                        o = c.cells([UNDEF] * db)
                        c.call(PQ + 'convert', [i, va, vb, o], pred=four)
                    else:
                        if a == b and a != 'CARTESIAN':
                            continue        # through Cartesian there and back: the round trip, judged elsewhere
                        o = c.call(PQ + 'convert', [i, va, vb], pred=three)
                    got = list(c.S.get(o.o).d)
                    R.saw(c)
                    if any(g is UNDEF for g in got) or any(e[0] in BAD for e in c.I.events) or len(got) != db:
                        R.check('%s/%s' % (key, how), False, 'conversion %s to %s (%s) leaves or touches values outside: %s' % (a, b, how, [e[:3] for e in c.I.events][:3]), 'sources/core/params.h', fp='footprint')
                        continue
                    if all(sym.same(g, w) for g, w in zip(got, want)):
                        R.check('%s/%s' % (key, how), True, 'same value graph')
                        continue
                    rng = random.Random(R.seed)
                    bad = None
                    good = 0
                    for t in range(12):
                        x = spec(a, dirs(rng, 'any'))
                        if x is None:
                            break
                        env = {'x%d' % k: (s[1] if isinstance(s, tuple) else s) for k, s in enumerate(x)}
                        g, w = [float(evalx(e, env)) for e in got], [float(evalx(e, env)) for e in want]
                        good += 1
                        if any(abs(p - q) > 1e-6 * max(1, abs(q)) for p, q in zip(g, w)):
                            bad = (env, g, w)
                            break
                    R.check('%s/%s' % (key, how), None if not good or (bad and sym.opaque(*got)) else bad is None, 'conversion %s to %s (%s) differs from its two steps: %s' % (a, b, how, bad), 'sources/core/params.h', fp='wrong')
            except Noret:
                R.check(key, False, 'conversion %s to %s is not defined' % (a, b), 'sources/core/params.h', fp='noret')
            except (Unsupported, sym.EvalError) as e:
                R.undecided(key, str(e))
    # helpers the rest of the library calls directly
    def hcart(x):
        th, ph, td, pd = x
        d = [math.sin(td) * math.cos(pd), math.sin(td) * math.sin(pd), math.cos(td)]
        c, s = math.cos(th), math.sin(th)
        d = [c * d[0] + s * d[2], d[1], -s * d[0] + c * d[2]]
        c, s = math.cos(ph), math.sin(ph)
        d = [c * d[0] - s * d[1], s * d[0] + c * d[1], d[2]]
        h = [math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)]
        k = 2 * dot(d, h)
        return d + [k * b - a for a, b in zip(d, h)]

    def ccart(x):
        tl, pl, tv, pv = x
        s = lambda t, p: [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
        return s(tl, pl) + s(tv, pv)
    for q, f in (('half_to_cartesian', hcart), ('classical_to_cartesian', ccart)):
        c = Ctx()
        o = c.cells([UNDEF] * 6)
        try:
            c.call(PQ + q, xs[:4] + [o])
            R.saw(c)
            got = list(c.S.get(o.o).d)
            if footprint(R, q, c, got, 'sources/core/params.h'):
                compare(R, 'helper/' + q, got, q, f, lambda rng, i: [rng.uniform(-1.5, 1.5), rng.uniform(-3, 3), rng.uniform(-1.5, 1.5), rng.uniform(-3, 3)], n, loc='sources/core/params.h')
        except (Unsupported, AnalysisError) as e:
            R.undecided('helper/' + q, str(e))
    # output values
    outc = lambda x: len(x[1]['p']) == 6
    io, oo = outputs()[0][1], outputs()[3][1]
    for (di, do) in ((1, 1), (3, 3), (1, 3), (3, 1), (2, 1)):
        c = Ctx()
        o = c.cells([UNDEF] * do)
        key = 'output/%d-%d' % (di, do)
        try:
            c.call(PQ + 'convert', [c.cells(xs[:di]), io, di, oo, do, o], pred=outc)
            got = list(c.S.get(o.o).d)
            R.saw(c)
            if footprint(R, key, c, got, 'sources/core/params.h'):
                want = (lambda x: list(x[:di])) if di == do else (lambda x: [x[0]] * do) if di == 1 else (lambda x: [sum(x[:di]) / di])
                compare(R, key, got, key, want, lambda rng, i: [rng.uniform(-3, 3) for _ in range(6)], 20, loc='sources/core/params.h')
        except Unsupported as e:
            R.undecided(key, str(e))
    # hemisphere predicate
    for nme, v, d in reg:
        c = Ctx()
        try:
            r = c.call(PQ + 'is_above_hemisphere', [c.cells(xs[:d]), v])
            R.saw(c)
            r2 = c.call(PQ + 'is_below_hemisphere', [c.cells(xs[:d]), v])
        except (Unsupported, Noret) as e:
            R.undecided('hemisphere/' + nme, str(e))
            continue
        tc, _ = to_cart(v, xs[:d])

        def want(x, tc=tc):
            env = {'x%d' % k: a for k, a in enumerate(x)}
            u = evalx(tc[2], env) >= 0 and evalx(tc[5], env) >= 0
            return [float(u), float(not u)]

        def smp(rng, i, nme=nme):
            x = dirs(rng, 'any')
            for k in (2, 5):
                if rng.random() < 0.3:
                    x[k] = -x[k]
            if nme != 'CARTESIAN' and x[2] + x[5] < 0.1:
                x[2] = abs(x[2])
                x[5] = abs(x[5])
            return [s[1] if isinstance(s, tuple) else s for s in spec(nme, x)]
        compare(R, 'hemisphere/' + nme, [r, r2], nme, want, smp, 30, msg='above/below the hemisphere in ' + nme)
    R.floor('parametrizations', 22)
    R.floor('discharged', 200)
