"""The models compute the formulas they are documented to."""
from models import *
from sym import ite, cmp, and_, fun, mk
import c04

PI = math.pi
sqrt, exp = (lambda a: fun('sqrt', a)), (lambda a: fun('exp', a))


def pw(a, b):
    return fun('pow', a, b)


def vdot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def unit(a):
    n = sqrt(vdot(a, a))
    return [t / n for t in a]


def clamp(a, lo, hi):
    return fun('min', fun('max', a, lo), hi)


class Geo:
    """V: first direction, L: second direction, n = (0, 0, 1)"""

    def __init__(self, x):
        self.V, self.L = x[:3], x[3:6]
        self.H = unit([a + b for a, b in zip(self.V, self.L)])                          # half direction
        self.R = [-self.V[0], -self.V[1], self.V[2]]                                     # V mirrored about the normal
        K = unit([b + a for a, b in zip(self.R, self.L)])
        self.K = K                                                                       # back direction
        self.vz, self.lz = x[2], x[5]


def both(g):
    return cmp('>', g.vz * g.lz, 0.0)


def beckmann(c, ks, a):
    return ks / (4.0 * PI * a * a * c * c * c * c) * exp((c * c - 1.0) / (a * a * c * c))


def abc(x, p):
    h = 1.0 - x[0]
    return ite(and_(cmp('>=', h, 0.0), cmp('<=', h, 1.0)), p[0] / pw(1.0 + p[1] * h, p[2]), 0.0)


def lobe(x, p):
    return ite(cmp('>', x[0], 0.0), p[0] * pw(x[0], p[1]), 0.0)


def m_beckmann(x, p):
    g = Geo(x)
    return ite(and_(cmp('>', g.H[2], 0.0), both(g)), beckmann(g.H[2], p[0], p[1]), 0.0)


def m_ward(x, p):
    g = Geo(x)
    ax, ay, ks = p['ax'], p['ay'], p['ks']
    e = ((g.H[0] / ax) * (g.H[0] / ax) + (g.H[1] / ay) * (g.H[1] / ay)) / (g.H[2] * g.H[2])
    return ite(both(g), ks / (4.0 * PI * ax * ay * sqrt(g.vz * g.lz)) * exp(-e), 0.0)


def m_retrobeckmann(back):
    def f(x, p):
        g = Geo(x)
        d = g.K[2] if back else fun('max', vdot(g.V, g.L), 0.0)
        return ite(cmp('>', d, 0.0), beckmann(d, p[0], p[1]), 0.0)
    return f


def m_lafortune(n):
    def f(x, p):
        r = 0.0
        for k in range(n):
            C = p['C%d' % k]
            d = C[0] * x[0] * x[3] + C[1] * x[1] * x[4] + C[2] * x[2] * x[5]
            r = r + ite(cmp('>', d, 0.0), pw(d, C[3]), 0.0)
        return r + p['kd']
    return f


def m_sg(t):
    def f(x, p):
        g = Geo(x)
        d = {'half': lambda: g.H[2], 'retro': lambda: vdot(g.V, g.L), 'back': lambda: g.K[2], 'mirror': lambda: vdot(g.R, g.L)}[t]()
        return p[0] * exp(p[1] * (d - 1.0))
    return f


def m_schlick(x, p):
    g = Geo(x)
    return p[0] + (1.0 - p[0]) * pw(1.0 - clamp(vdot(g.V, g.H), 0.0, 1.0), 5.0)


def m_nschlick(x, p):
    g = Geo(x)
    return 1.0 + (1.0 / p[0] - 1.0) * pw(1.0 - clamp(vdot(g.V, g.H), 0.0, 1.0), 5.0)


def m_retroschlick(x, p):
    g = Geo(x)
    return p[0] + (1.0 - p[0]) * pw(1.0 - vdot(g.R, g.K), 5.0)


def m_mschlick(x, p):
    G = lambda t: t / (t + p[0] * (1.0 - t))
    return G(x[5]) * G(x[2])


def m_smith(x, p):
    r = x[5] / sqrt(x[3] * x[3] + x[4] * x[4]) / p[0]
    A = exp(-0.5 * r * r) / (r * math.sqrt(2 * PI)) - 0.5 * (1.0 - fun('erf', r / math.sqrt(2)))
    return 1.0 / (1.0 + A)


def m_walter(x, p):
    g = Geo(x)

    def G(c):
        a = 1.0 / (p[0] * sqrt(1.0 - c * c) / c)
        return ite(cmp('>=', a, 1.6), 1.0, (3.535 * a + 2.181 * a * a) / (1.0 + 2.276 * a + 2.577 * a * a))
    vis = and_(cmp('>', vdot(g.V, g.H) / g.vz, 0.0), cmp('>', vdot(g.L, g.H) / g.lz, 0.0))
    return ite(vis, G(g.vz) * G(g.lz), 0.0)


def m_sgd(x, p):
    c, t0, k, lam, q, F0, F1, Kap, rd, rs, al = p
    g = Geo(x)
    vh, nh = vdot(g.L, g.H), g.H[2]
    F = F0 - vh * F1 + (1.0 - F0) * pw(1.0 - vh, 5.0)
    t2 = (1.0 - nh * nh) / (nh * nh)
    ax = al + t2 / al
    D = exp(-ax) / pw(ax, q) * Kap / (PI * nh * nh * nh * nh)
    G = lambda z: 1.0 + lam * (1.0 - exp(c * pw(fun('max', fun('acos', z) - t0, 0.0), k)))
    return ite(cmp('<', x[2], 0.0), 0.0, (rd + rs * D * G(x[2]) * G(x[5]) * F) / PI)


# label -> (formula, parameters of channel i among the vector p for nY channels)
inter = lambda n: (lambda p, i, nY: p[i * n:(i + 1) * n])
SPEC = {
    'nonlinear_function_abc': (abc, inter(3), 'A / (1 + B (1 - t))^C for t = cos(theta_h) in [0, 1]'),
    'nonlinear_function_blinn': (lobe, inter(2), 'k_s t^N for t = cos(theta_h) > 0'),
    'nonlinear_function_retroblinn': (lobe, inter(2), 'k_s t^N'),
    'nonlinear_function_beckmann': (m_beckmann, inter(2), 'Beckmann distribution of the half direction'),
    'nonlinear_function_retrobeckmann/back': (m_retrobeckmann(True), inter(2), 'Beckmann distribution of the back direction'),
    'nonlinear_function_retrobeckmann/retro': (m_retrobeckmann(False), inter(2), 'Beckmann distribution of V.L'),
    'nonlinear_function_ward': (m_ward, lambda p, i, nY: {'ks': p[i * 3], 'ax': p[i * 3 + 1], 'ay': p[i * 3 + 2]}, 'anisotropic Ward lobe'),
    'nonlinear_function_lafortune/lobes=1': (m_lafortune(1), None, 'k_d + sum (V^T M L)^n'),
    'nonlinear_function_lafortune/lobes=2': (m_lafortune(2), None, 'k_d + sum (V^T M L)^n'),
    'nonlinear_function_sgd': (m_sgd, lambda p, i, nY: [p[i + k * nY] for k in range(11)], 'shifted gamma distribution (Bagher et al. 2012)'),
    'nonlinear_fresnel_schlick': (m_schlick, inter(1), 'R + (1 - R)(1 - V.H)^5'),
    'nonlinear_fresnel_normalized_schlick': (m_nschlick, inter(1), '1 + (1/R - 1)(1 - V.H)^5'),
    'nonlinear_fresnel_retroschlick': (m_retroschlick, inter(1), 'R + (1 - R)(1 - R_v.K)^5'),
    'nonlinear_shadowing_schlick': (m_mschlick, inter(1), 'product over both directions of c / (c + w (1 - c))'),
    'nonlinear_shadowing_smith': (m_smith, inter(1), '1 / (1 + Lambda(mu / w))'),
    'nonlinear_shadowing_walter_smith': (m_walter, inter(1), 'rational approximation of the Smith term of Walter et al. 2007'),
}
for _t in ('half', 'retro', 'back', 'mirror'):
    SPEC['nonlinear_function_spherical_gaussian/' + _t] = (m_sg(_t), inter(2), 'k_s exp(n (v.p - 1))')


def channel(label, m, i):
    sp = SPEC[label]
    if label.startswith('nonlinear_function_lafortune'):
        n = int(label[-1])
        p = {'C%d' % k: [m.p[(k * m.nY + i) * 4 + j] for j in range(4)] for k in range(n)}
        p['kd'] = var('kd%d' % i)
        return p
    return sp[1](m.p, i, m.nY)


def run(R):
    R.rule('the value graph of every model (each lobe type, lobe count and channel count) equals an independent statement of its documented formula built over the same parameters and directions; '
           'operator() and the evaluation that also sets the parameters give the same value')
    for label, tu, prep in c04.modes():
        for nY in (1, 3) if R.tier == 'quick' else (1, 2, 3, 4):
            key = '%s/nY=%d' % (label, nY)
            R.count('models')
            with R.guard(key, tu):
                m = Model(tu, nY, prep)
                n = m.setp()
                kd = [k for k in m.c.S.get(m.f.o).d if k.endswith('::_kd')]
                if kd and 'lafortune' in label:
                    for i in range(nY):
                        m.c.S.w(m.c.field(m.f, kd[0]).o).d[i] = var('kd%d' % i)
                if 'diffuse' in label:
                    vals = [var('p%d' % i) for i in range(nY)]
                    m.c.S.w(m.c.field(m.f, kd[0]).o).d[:] = vals
                v = m.value()
                R.saw(m.c)
                base = m.sampler()

                def smp(rng, special=False):
                    env = (base.special if special else base)(rng)
                    for i in range(nY):
                        env['kd%d' % i] = env.setdefault('p%d' % i, rng.uniform(0.15, 1.9)) * 0.7
                    return env
                smp.special = lambda rng: smp(rng, True)
                R.check(key + '/channels', len(v) == nY, '%d values' % len(v), tu, fp=len(v))
                # other evaluation entries
                x = m.x()
                w = m.c.mvals(m.c.mcall(m.f, 'operator()', [m.c.vec(x)]))
                R.check(key + '/operator()', len(w) == len(v) and all(equal(a, b, smp).equal for a, b in zip(v, w)), 'operator() differs from value', tu, fp='differs')
                for i in range(nY):
                    if 'diffuse' in label:
                        want, doc = vals[i], 'constant k_d'
                    elif label in SPEC:
                        want, doc = SPEC[label][0](x, channel(label, m, i)), SPEC[label][2]
                    else:
                        continue
                    R.count('formulas')
                    r = equal(v[i], want, smp, n=24 if R.tier == 'quick' else 200, extra=240 if R.tier == 'quick' else 1000)
                    msg = ''
                    if r.equal is False:
                        msg = 'channel %d is %.6g, the documented %s is %.6g at %s' % (i, r.witness[1], doc, r.witness[2], {k: round(t, 4) for k, t in r.witness[0].items()})
                    R.check('%s/value%d' % (key, i), r.equal, msg or r.how, tu, fp='differs')
                if m.c._method(m.c.P.rec(tu, m.cls), 'value', 2) is None:
                    continue
                # value(x, p): sets the parameters, then evaluates
                q = [var('p%d' % i) for i in range(n)]
                m2 = Model(tu, nY, prep)
                k2 = [k for k in m2.c.S.get(m2.f.o).d if k.endswith('::_kd')]
                if k2 and 'lafortune' in label or 'diffuse' in label:
                    m2.c.S.w(m2.c.field(m2.f, k2[0]).o).d[:] = list(m.c.S.get(m.c.field(m.f, kd[0]).o).d)
                m2.c.mcall(m2.f, 'setParameters', [m2.c.vec([var('q%d' % i) for i in range(n)])])
                w = m2.c.mvals(m2.c.mcall(m2.f, 'value', [m2.c.vec(x), m2.c.vec(q)]))
                for i in range(nY):
                    r = equal(v[i], w[i], smp)
                    R.check('%s/value(x,p)%d' % (key, i), r.equal, r.equal is False and 'evaluation with parameters %.6g differs from setting them first %.6g' % (r.witness[2], r.witness[1]) or r.how, tu, fp='differs')
                got = m2.c.mvals(m2.c.mcall(m2.f, 'parameters', []))
                R.check(key + '/value(x,p) sets', all(a is b for a, b in zip(got, q)), 'the parameters after evaluation are not the given ones', tu, fp='differs')
    R.floor('models', 40)
    R.floor('formulas', 80)
    R.floor('discharged', 170)
