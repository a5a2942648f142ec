"""params conversions on symbolic coordinates, shared by C02 and C03."""
import math, random
from harness import *
import sym
from sym import evalx, equal, var, vars_of
from models import enum

PQ = 'alta::params::'


def inputs():
    return [(n, v) for n, v in sorted(enum('alta::params::input').items(), key=lambda x: x[1]) if n != 'UNKNOWN_INPUT']


def outputs():
    return [(n, v) for n, v in sorted(enum('alta::params::output').items(), key=lambda x: x[1]) if n != 'UNKNOWN_OUTPUT']


def is_input(P):
    return lambda x: 'params::input' in str(P.ty(x[0], x[1]['p'][0]['t']))


def is_output(P):
    return lambda x: 'params::output' in str(P.ty(x[0], x[1]['p'][0]['t']))


def dimension(v, out=False):
    c = Ctx()
    return c.call(PQ + 'dimension', [v], pred=(is_output if out else is_input)(c.P))


class Guarded:
    """cells with `pad` poisoned cells after them: catches writes beyond the end"""


def to_cart(v, xs, R=None):
    """-> (six graphs or None when not defined, ctx)"""
    c = Ctx()
    c.I.strict = False
    i = c.cells(xs)
    o = c.cells([UNDEF] * 6)
    try:
        c.call(PQ + 'to_cartesian', [i, v, o])
    except Noret:
        return None, c
    if R:
        R.saw(c)
    return list(c.S.get(o.o).d), c


def from_cart(v, cart, dim, R=None):
    c = Ctx()
    i = c.cells(cart)
    o = c.cells([UNDEF] * max(dim, 0))
    try:
        c.call(PQ + 'from_cartesian', [i, v, o])
    except Noret:
        return None, c
    if R:
        R.saw(c)
    return list(c.S.get(o.o).d), c


# ---- geometry on plain floats: what the parametrizations are documented to be
def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def nrm(a):
    n = math.sqrt(dot(a, a))
    return [x / n for x in a]


def acos_(x):
    return math.acos(max(-1.0, min(1.0, x)))


def sph(v):
    return acos_(v[2]), math.atan2(v[1], v[0])


def geom(x):
    V, L = x[:3], x[3:]
    g = {'V': V, 'L': L}
    g['H'] = nrm([a + b for a, b in zip(V, L)])
    g['HH'] = [0.5 * (a + b) for a, b in zip(V, L)]
    g['B'] = [0.5 * (b - a) for a, b in zip(V, L)]
    g['R'] = [-V[0], -V[1], V[2]]                   # reflected view
    g['K'] = nrm([a - b for a, b in zip(V, [-L[0], -L[1], L[2]] if False else [L[0], L[1], -L[2]])])
    th, ph = sph(g['H'])
    # difference vector: V in the frame of H
    c, s = math.cos(-ph), math.sin(-ph)
    d = [c * V[0] - s * V[1], s * V[0] + c * V[1], V[2]]
    c, s = math.cos(-th), math.sin(-th)
    g['D'] = [c * d[0] + s * d[2], d[1], -s * d[0] + c * d[2]]
    return g


# documented coordinates; entries ('a', value) are angles compared modulo 2 pi
def spec(name, x):
    g = geom(x)
    V, L, H, D, K, R = g['V'], g['L'], g['H'], g['D'], g['K'], g['R']
    tv, pv = sph(V)
    tl, pl = sph(L)
    th, ph = sph(H)
    td, pd = sph(D)
    tk, pk = sph(K)
    A = lambda a: ('a', a)
    hp, bp = math.hypot(*g['HH'][:2]), math.hypot(*g['B'][:2])
    if name == 'RUSIN_TH_PH_TD_PD':
        return [th, A(ph), td, A(pd)]
    if name == 'RUSIN_TH_PH_TD':
        return [th, A(ph), td]
    if name == 'RUSIN_TH_TD_PD':
        return [th, td, A(pd)]
    if name == 'RUSIN_TH_TD':
        return [th, td]
    if name == 'RUSIN_VH':
        return H
    if name == 'RUSIN_VH_VD':
        return H + D
    if name == 'COS_TH_TD':
        return [math.cos(th), math.cos(td)]
    if name == 'COS_TH':
        return [math.cos(th)]
    if name == 'SCHLICK_VK':
        return [-K[0], -K[1], K[2]]
    if name == 'COS_TK':
        return [K[2]]
    if name == 'SCHLICK_TL_TK_PROJ_DPHI':
        return [tl, tk * math.cos(pk - pl), tk * math.sin(pk - pl)]
    if name == 'RETRO_TL_TVL_PROJ_DPHI':
        tvl = acos_(dot(V, L))
        # spherical angle at L between N and V, signed by phi_L - phi_V
        cp = (math.cos(tv) - math.cos(tl) * math.cos(tvl)) / (math.sin(tl) * math.sin(tvl))
        sp = math.sin(pl - pv) * math.sin(tv) / math.sin(tvl)
        return [tl, tvl * cp, tvl * sp]
    if name == 'STEREOGRAPHIC':
        return [V[0] / (1 + V[2]), V[1] / (1 + V[2]), L[0] / (1 + L[2]), L[1] / (1 + L[2])]
    if name == 'SPHERICAL_TL_PL_TV_PV':
        return [tl, A(pl), tv, A(pv)]
    if name == 'COS_TLV':
        return [dot(V, L)]
    if name == 'COS_TLR':
        return [dot(L, R)]
    if name == 'ISOTROPIC_TV_TL':
        return [tv, tl]
    if name == 'ISOTROPIC_TV_TL_DPHI':
        return [tv, tl, A(pl - pv)]
    if name == 'ISOTROPIC_TV_PROJ_DPHI':
        return [tv * math.cos(pv - pl), tv * math.sin(pv - pl)]
    if name == 'ISOTROPIC_TL_TV_PROJ_DPHI':
        return [tl, tv * math.cos(pv - pl), tv * math.sin(pv - pl)]
    pb, phh = math.atan2(g['B'][1], g['B'][0]), math.atan2(g['HH'][1], g['HH'][0])
    if name == 'STARK_2D':
        return [hp, math.sqrt(dot(g['B'], g['B']))]
    if name == 'STARK_3D':
        return [hp, math.sqrt(dot(g['B'], g['B'])), A(pb - phh)]
    if name == 'NEUMANN_2D':
        return [hp, bp]
    if name == 'NEUMANN_3D':
        return [hp, bp, A(pb - phh)]
    if name == 'CARTESIAN':
        return list(x)
    return None


def gap(s, got):
    """difference of a documented coordinate and a computed one"""
    if isinstance(s, tuple):
        return abs(math.remainder(got - s[1], 2 * math.pi)), 2 * math.pi
    return abs(got - s), max(1.0, abs(s))


def dirs(rng, style):
    """a pair of unit directions above the surface, by style"""
    def one(tmax=1.5):
        t, p = rng.uniform(0.02, tmax), rng.uniform(-math.pi, math.pi)
        return [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
    V, L = one(), one()
    if style == 'grazing':
        t, p = rng.uniform(1.45, 1.565), rng.uniform(-math.pi, math.pi)
        V = [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
    if style == 'back':       # opposite azimuths
        p = math.atan2(L[1], L[0]) + math.pi + rng.uniform(-0.3, 0.3)
        t = rng.uniform(0.3, 1.5)
        V = [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
    if style in ('zenith', 'zeniths'):      # one or both close to the normal
        t, p = math.exp(rng.uniform(-7.5, -2.5)), rng.uniform(-math.pi, math.pi)
        V = [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
        if style == 'zeniths':
            t, p = math.exp(rng.uniform(-7.5, -2.5)), rng.uniform(-math.pi, math.pi)
            L = [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
        elif rng.random() < 0.5:
            V, L = L, V
    if style == 'close':      # nearly the same direction
        t, p = acos_(L[2]) + math.exp(rng.uniform(-7, -3)), math.atan2(L[1], L[0]) + math.exp(rng.uniform(-7, -3))
        V = [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
    if style == 'near':
        t, p = acos_(L[2]) + rng.uniform(-0.01, 0.05), math.atan2(L[1], L[0]) + rng.uniform(-0.05, 0.05)
        t = max(0.01, min(1.56, t))
        V = [math.sin(t) * math.cos(p), math.sin(t) * math.sin(p), math.cos(t)]
    return V + L


STYLES = ['any', 'any', 'any', 'grazing', 'back', 'near', 'zenith', 'zeniths', 'any', 'close']
