"""Analytic model plugins: instantiation and facts shared by several checks."""
import math
from harness import *
from sym import evalx, diff, equal, show, vars_of
import sym

CORE = 'sources/core/function.cpp'
VARIANTS = {}


def enum(name):
    P = program()
    for tu in P.tus.values():
        if name in tu.get('enums', {}):
            return {x['n']: x['v'] for x in tu['enums'][name]}
    raise AnalysisError('no enum ' + name)


def enumname(ename, v):
    for n, x in enum(ename).items():
        if x == v:
            return n
    return str(v)


def plugin_tus(prefixes=('nonlinear_function', 'nonlinear_fresnel', 'nonlinear_shadowing')):
    P = program()
    return [tu for tu in sorted(P.tus) if tu.startswith('sources/plugins/') and tu.split('/')[2].startswith(prefixes) and not tu.split('/')[2].startswith('nonlinear_fitter')]


def plugin_name(tu):
    return tu.split('/')[2]


def mkparams(c, nX, nY, inp='CARTESIAN', out='INV_STERADIAN'):
    i, o = enum('alta::params::input'), enum('alta::params::output')
    t = {'c': 'rec', 'r': 'alta::parameters', 's': 'alta::parameters', 'a': []}
    return c.new(CORE, 'alta::parameters', [nX, nY, i[inp], o[out]])


def provide(c, tu, nY, nX=6, inp='CARTESIAN'):
    """analyse provide_function() of a plugin -> abstract object"""
    P = c.P
    x = [y for y in P.byq.get('provide_function', []) if y[0] == tu]
    if not x:
        raise AnalysisError('%s exports no provide_function' % tu)
    k, v = c.runfn(Fn(*x[0]), None, [mkparams(c, nX, nY, inp)])
    if k == 'noret':
        raise Noret('provide_function', v)
    return v


def dims(c, f):
    p = c.field(f, 'alta::function::_parameters')
    d = lambda n: c.mcall(p, n, [])
    return d('dimX'), d('dimY'), d('input_parametrization'), d('output_parametrization')


def _unit(rng, up):
    while True:
        v = [rng.uniform(-1, 1) for _ in range(3)]
        n = math.sqrt(sum(a * a for a in v))
        if 0.15 < n < 1:
            v = [a / n for a in v]
            v[2] = abs(v[2]) if up else v[2]
            if abs(v[2]) > 0.05:
                return v


def xsample(rng, inp, nX, style=0):
    """a point of the input domain"""
    if inp == 'CARTESIAN':
        up = rng.random() < 0.8
        return _unit(rng, up) + _unit(rng, up)
    return [rng.uniform(0.05, 0.95) if rng.random() < 0.85 else rng.uniform(-0.95, -0.05) for _ in range(nX)]


def xspecial(rng, inp, nX):
    """a point at the border of the input domain, or where two inputs agree"""
    if inp != 'CARTESIAN':
        return [rng.choice([1e-3, 0.999, -1e-3, 0.5, rng.uniform(1, 3), rng.uniform(-1, 1)]) for _ in range(nX)]
    a, b = _unit(rng, True), _unit(rng, True)

    def graze(v):
        z = rng.uniform(0.01, 0.05)
        k = math.sqrt((1 - z * z) / max(1e-9, v[0] ** 2 + v[1] ** 2))
        return [v[0] * k, v[1] * k, z]

    def steep(v):
        k = rng.uniform(0.02, 0.1)
        n = math.sqrt(v[0] ** 2 + v[1] ** 2)
        return [v[0] / n * k, v[1] / n * k, math.sqrt(1 - k * k)]
    w = rng.randrange(10)
    if w == 0:
        a = graze(a)
    elif w == 1:
        b = graze(b)
    elif w == 2:
        a = steep(a)
    elif w == 3:
        b = steep(b)
    elif w == 4:
        a, b = _unit(rng, False), _unit(rng, False)
    elif w == 5:
        b = [-a[0], -a[1], a[2]]
        k = math.sqrt(sum(x * x for x in [b[0] + 0.01, b[1], b[2]]))
        b = [(b[0] + 0.01) / k, b[1] / k, b[2] / k]
    elif w == 6:
        b = [a[0] + 0.01, a[1], a[2]]
        k = math.sqrt(sum(x * x for x in b))
        b = [x / k for x in b]
    elif w == 7:
        a[2], b[2] = abs(a[2]), -abs(b[2])
    elif w == 8:
        a = [0.0, 0.0, 1.0]
    else:
        b = [0.0, 0.0, 1.0]
    return a + b


class Model:
    """abstract instance with symbolic parameters p0.. and input x0.."""

    def __init__(self, tu, nY, prep=None):
        self.tu, self.nY = tu, nY
        self.c = c = Ctx()
        self.f = provide(c, tu, nY)
        if prep:
            prep(self)
        self.nX, self.dY, self.inp, self.out = dims(c, self.f)
        self.inpn = enumname('alta::params::input', self.inp)
        self.cls = c.S.get(self.f.o).x['cn']

    def setp(self, name='p'):
        c = self.c
        self.n = c.mcall(self.f, 'nbParameters', [])
        self.p = [var('%s%d' % (name, i)) for i in range(self.n)]
        c.mcall(self.f, 'setParameters', [c.vec(self.p)])
        return self.n

    def x(self):
        return [var('x%d' % i) for i in range(self.nX)]

    def value(self, x=None):
        c = self.c
        return c.mvals(c.mcall(self.f, 'value', [c.vec(x or self.x())]))

    def jac(self, x=None):
        c = self.c
        return c.mvals(c.mcall(self.f, 'parametersJacobian', [c.vec(x or self.x())]))

    def sampler(self, prange=(0.15, 1.9)):
        n = getattr(self, 'n', 0)

        def s(rng):
            env = {'x%d' % i: v for i, v in enumerate(xsample(rng, self.inpn, self.nX))}
            env.update(('p%d' % i, rng.uniform(*prange)) for i in range(n))
            return env

        def special(rng):
            env = {'x%d' % i: v for i, v in enumerate(xspecial(rng, self.inpn, self.nX))}
            env.update(('p%d' % i, rng.choice([rng.uniform(*prange), rng.uniform(0.02, 0.1), rng.uniform(2, 6)])) for i in range(n))
            return env
        s.special = special
        return s
