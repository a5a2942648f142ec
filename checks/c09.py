"""Sums and products of functions."""
from models import *
import itertools

PL = 'sources/plugins/%s/function.cpp'
SETS = [
    ('blinn+diffuse', ['nonlinear_function_blinn', 'nonlinear_function_diffuse']),
    ('blinn+beckmann', ['nonlinear_function_blinn', 'nonlinear_function_beckmann']),
    ('beckmann+ward', ['nonlinear_function_beckmann', 'nonlinear_function_ward']),
    ('ward+blinn+spherical_gaussian', ['nonlinear_function_ward', 'nonlinear_function_blinn', 'nonlinear_function_spherical_gaussian']),
    ('schlick*ward', ['nonlinear_fresnel_schlick', 'nonlinear_function_ward']),
    ('blinn*schlick', ['nonlinear_function_blinn', 'nonlinear_fresnel_schlick']),
    ('retroschlick*blinn', ['nonlinear_fresnel_retroschlick', 'nonlinear_function_blinn']),
]


class Node:
    """a function object with its own abstract description"""

    def __init__(self, c, L, kids=(), fixed=(), kind=''):
        self.c, self.L, self.kids, self.fixed, self.kind = c, L, kids, fixed, kind

    def n(self):
        return self.c.mcall(self.L, 'nbParameters', [])

    def free(self):
        """leaves' parameter vectors in documented order"""
        if not self.kids:
            return self.c.mvals(self.c.mcall(self.L, 'parameters', []))
        return [p for k, f in zip(self.kids, self.fixed) if not f for p in k.free()]

    def leaves(self):
        return [self] if not self.kids else [l for k in self.kids for l in k.leaves()]

    def lo(self, name):
        if not self.kids:
            return [var('%s%d_%d' % (name[-3:], self.index, j)) for j in range(self.n())]
        return [p for k, f in zip(self.kids, self.fixed) if not f for p in k.lo(name)]


def conv_to(c, x, frm, to, d):
    src = c.cells(x)
    dst = c.cells([0.0] * max(d, 6))
    c.call('alta::params::convert', [src, frm, to, dst], nargs=4)
    return [c.I.load(c.S, Loc(dst.o, i)) for i in range(d)]


def expected(c, node, x, inp):
    """value by definition: sum or product of the parts, each in its own coordinates"""
    if not node.kids:
        nX, nY, i, o = dims(c, node.L)
        xs = conv_to(c, x, inp, i, nX)
        return c.mvals(c.mcall(node.L, 'value', [c.vec(xs)]))
    vs = [expected(c, k, x, inp) for k in node.kids]
    out = vs[0]
    for v in vs[1:]:
        out = [sym.add(a, b) if node.kind == 'sum' else sym.mul(a, b) for a, b in zip(out, v)]
    return out


def build(c, names, kind, fixed, nY):
    ks = [Node(c, provide(c, PL % n, nY)) for n in names]
    if kind == 'sum':
        return Node(c, mkcompound(c, [k.L for k in ks], fixed), ks, fixed, 'sum')
    return Node(c, mkproduct(c, ks[0].L, ks[1].L, fixed), ks, fixed, 'product')


def cases(R):
    for label, names in SETS:
        kind = 'product' if '*' in label else 'sum'
        k = len(names)
        fx = [(0,) * k] + [tuple(int(i == j) for i in range(k)) for j in range(k)]
        for f in fx:
            for nY in ((1, 3) if R.tier == 'quick' else (1, 2, 3, 4)):
                yield '%s/fixed=%s/nY=%d' % (label, ''.join(map(str, f)), nY), names, kind, f, nY, False
    for f in ((0, 0), (1, 0), (0, 1)):
        yield 'nested diffuse+(schlick*beckmann)/fixed=%d%d' % f, ['nonlinear_fresnel_schlick', 'nonlinear_function_beckmann'], 'product', f, 2, True


def run(R):
    R.rule('for sums and products of the analytic models (distinct input coordinates, parts held fixed, nesting): the value graph equals the sum/product of the parts evaluated at the converted input; '
           'the free parameters are those of the non-fixed parts in order, set and read back through the composite; bounds concatenate likewise; the Jacobian of the composite is the derivative of its value '
           'with respect to its free parameters')
    F = 'sources/core/function.cpp'
    for label, names, kind, fixed, nY, nest in cases(R):
        R.count('composites')
        with R.guard(label, F):
            c = Ctx()
            node = build(c, names, kind, fixed, nY)
            if nest:
                d = Node(c, provide(c, PL % 'nonlinear_function_diffuse', nY))
                b = Node(c, provide(c, PL % 'nonlinear_function_ward', nY))
                node = Node(c, mkcompound(c, [d.L, node.L, b.L], [0, 0, 0]), [d, node, b], (0, 0, 0), 'sum')
            # the fixed parts keep their own (symbolic) parameters
            for i, l in enumerate(node.leaves()):
                k = c.mcall(l.L, 'nbParameters', [])
                if k:
                    c.mcall(l.L, 'setParameters', [c.vec([var('q%d_%d' % (i, j)) for j in range(k)])])
            n = node.n()
            want_n = len(node.free()) if n else 0
            R.check(label + '/count', n == want_n, '%d free parameters, its free parts have %d' % (n, want_n), F, fp=n)
            p = [var('p%d' % i) for i in range(n)]
            c.mcall(node.L, 'setParameters', [c.vec(p)])
            got = c.mvals(c.mcall(node.L, 'parameters', []))
            R.check(label + '/parameters', len(got) == n and all(a is b for a, b in zip(got, p)), 'parameters read back are %s' % [show(a)[:20] for a in got][:8], F, fp='differs')
            fr = node.free()
            R.check(label + '/distribution', len(fr) == n and all(a is b for a, b in zip(fr, p)), 'the free parts received %s' % [show(a)[:20] for a in fr][:8], F, fp='differs')
            # bounds: every part is given its own symbolic bounds, only the composition is judged
            leaf = {l.L.o: i for i, l in enumerate(node.leaves())}

            def bounds(I, S, fr, e, f, this, args):
                nm = f['q'].split('::')[-1]
                if nm not in ('getParametersMin', 'getParametersMax') or this.o not in leaf or e.get('qual'):
                    return NotImplemented
                k = node.leaves()[leaf[this.o]].n()
                return I.mkmat(S, [var('%s%d_%d' % (nm[-3:], leaf[this.o], j)) for j in range(k)], k, 1)
            c.I.rechooks.append(bounds)
            for i, l in enumerate(node.leaves()):
                l.index = i
            for nm in ('getParametersMin', 'getParametersMax'):
                a, b = c.mvals(c.mcall(node.L, nm, [])), node.lo(nm)
                R.check(label + '/' + nm, len(a) == len(b) and all(x is y for x, y in zip(a, b)), '%s gives %s, the parts %s' % (nm, [show(x) for x in a], [show(x) for x in b]), F, fp='differs')
            nX, dY, inp, out = dims(c, node.L)
            x = [var('x%d' % i) for i in range(nX)]
            inpn = enumname('alta::params::input', inp)
            v = c.mvals(c.mcall(node.L, 'value', [c.vec(x)]))
            w = expected(c, node, x, inp)
            vs = sorted(vars_of(*v, *w) | {'p%d' % i for i in range(n)})

            def smp(rng, special=False):
                env = {'x%d' % i: t for i, t in enumerate((xspecial if special else xsample)(rng, inpn, nX))}
                env.update((s, rng.uniform(0.15, 1.9)) for s in vs if s[0] != 'x')
                return env
            smp.special = lambda rng: smp(rng, True)
            R.check(label + '/channels', len(v) == nY and len(w) == nY, '%d channels of %d' % (len(v), nY), F, fp=len(v))
            for i in range(min(nY, len(v))):
                r = equal(v[i], w[i], smp)
                R.check('%s/value%d' % (label, i), r.equal, r.equal is False and 'channel %d is %.6g, the parts give %.6g' % (i, r.witness[1], r.witness[2]) or r.how, F, fp='differs')
            j = c.mvals(c.mcall(node.L, 'parametersJacobian', [c.vec(x)]))
            if not R.check(label + '/jacobian size', len(j) == n * nY, '%d derivatives, %d expected' % (len(j), n * nY), F, fp=len(j)):
                continue
            for i in range(nY):
                bad = None
                for k in range(n):
                    R.count('derivatives')
                    r = equal(j[i * n + k], diff(w[i], 'p%d' % k), smp, n=12, extra=60)
                    if r.equal is not True:
                        bad = bad or (r, k)
                R.check('%s/jacobian%d' % (label, i), bad is None or bad[0].equal, bad and bad[0].equal is False and 'derivative %d is %.6g, expected %.6g' % (bad[1], bad[0].witness[1], bad[0].witness[2]) or '', F, fp='differs')
            bad = [e for e in c.I.events if e[0] in ('oob', 'uninit', 'null-deref')]
            R.check(label + '/memory', not bad, '; '.join('%s %s' % (e[0], e[1]) for e in bad[:3]), bad[0][2] if bad else F, fp=sorted({e[0] for e in bad}))
            R.saw(c)
    R.floor('composites', 20)
    R.floor('discharged', 60)
