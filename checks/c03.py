"""Coordinates denote the configuration they came from: unit directions and round trips."""
from conv import *
from c02 import F

# domain of each parametrization, sampled through its documented formula on real direction pairs;
# reduced parametrizations drop information, so the round trip is coords -> Cartesian -> coords


def run(R):
    R.rule('to_cartesian and from_cartesian are composed as value graphs: for coordinates of any pair of directions above the surface, the two directions have unit length, '
           'and converting back gives the same coordinates; full parametrizations also give back the same directions')
    n = 100 if R.tier == 'quick' else 2000
    xs = [var('x%d' % i) for i in range(6)]
    for name, v in inputs():
        d = dimension(v)
        if d <= 0:
            continue
        R.count('parametrizations')
        try:
            tc, c = to_cart(v, xs[:d], R)
            if tc is None:
                R.check('defined/' + name, False, 'no conversion from %s to Cartesian' % name, F, fp='none')
                continue
            back, c2 = from_cart(v, tc, d, R)
            cart, c3 = from_cart(v, xs, d, R)
        except Unsupported as e:
            R.undecided('roundtrip/' + name, str(e))
            continue
        if back is None or any(b is UNDEF for b in tc + back):
            R.check('defined/' + name, False, 'conversion of %s leaves values unset' % name, F, fp='undef')
            continue
        rng = random.Random(R.seed * 31 + 5)
        bad = {}
        good = 0
        full = name in ('RUSIN_TH_PH_TD_PD', 'RUSIN_VH_VD', 'SPHERICAL_TL_PL_TV_PV', 'STEREOGRAPHIC', 'CARTESIAN')
        for i in range(n):
            x = dirs(rng, STYLES[i % len(STYLES)])
            try:
                s = spec(name, x)
            except ZeroDivisionError:
                continue
            if s is None:
                break
            env = {'x%d' % k: (a[1] if isinstance(a, tuple) else a) for k, a in enumerate(s)}
            try:
                m = {}
                o = [float(evalx(e, env, m)) for e in tc]
                b = [float(evalx(e, env, m)) for e in back]
            except sym.EvalError as e:
                continue
            good += 1
            for w, k in (('view', 0), ('light', 3)):
                l = math.sqrt(dot(o[k:k + 3], o[k:k + 3]))
                if not abs(l - 1) < 1e-6:
                    bad.setdefault('unit/' + w, (env, 'length %.6g' % l))
            for k in range(d):
                g, sc = gap(s[k], b[k])
                if not g < 1e-5 * sc:
                    bad.setdefault('roundtrip', (env, 'coordinate %d comes back as %.6g' % (k, b[k])))
            if full:
                for k in range(6):
                    if not abs(o[k] - x[k]) < 1e-5:
                        bad.setdefault('directions', (env, 'component %d is %.6g, was %.6g' % (k, o[k], x[k])))
        R.count('sample points', good)
        obl = ['unit/view', 'unit/light', 'roundtrip'] + (['directions'] if full else [])
        for o in obl:
            if good < 4:
                R.undecided('%s/%s' % (o, name), 'no usable point')
                continue
            b = bad.get(o)
            R.check('%s/%s' % (o, name), None if b and sym.opaque(*tc, *back) else b is None, '%s: %s' % (name, b and 'coordinates %s: %s' % ({k: round(t, 5) for k, t in b[0].items()}, b[1])), F, fp='wrong')
    R.floor('parametrizations', 22)
    R.floor('discharged', 40)
