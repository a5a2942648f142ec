"""Data sets: building, loading and comparing abstract ones."""
from models import *
import bounds

VS = 'sources/core/vertical_segment.cpp'
DS = 'sources/core/data_storage.cpp'
WIDE = bounds.decider(lambda n: (-1e9, 1e9))


def box(lo, hi):
    return bounds.decider(lambda n: (lo, hi))


def fresh(assume=WIDE):
    c = Ctx()
    c.I.env = {}
    c.I.assumef = assume
    return c


def from_file(x):
    return 'istream' not in str([x[0]] + [program().ty(x[0], p['t']) for p in x[1]['p']])


def load(c, text, args='', type='', path='in.dat'):
    """plugins_manager::load_data(file, type, args) -> data object (Loc)"""
    c.I.files[path] = list(text)
    g = c.call('alta::plugins_manager::load_data', [c.string(path), c.string(type), cmd(c, args)], nargs=3, pred=from_file)
    return c.S.get(g.o).d['p']


def size(c, d):
    return c.mcall(d, 'size', [])


def describe(c, d):
    p = c.mcall(d, 'parametrization', [])
    return tuple(c.mcall(p, n, []) for n in ('dimX', 'dimY', 'input_parametrization', 'output_parametrization'))


def row(c, d, i):
    return c.mvals(c.mcall(d, 'get', [i]))


def out_vec(c):
    return c.vec([])


def interval(c, d, i):
    """get(i, x, yl, yu)"""
    x, l, u = out_vec(c), out_vec(c), out_vec(c)
    c.mcall(d, 'get', [i, x, l, u])
    return c.mvals(x), c.mvals(l), c.mvals(u)


def interval2(c, d, i):
    l, u = out_vec(c), out_vec(c)
    c.mcall(d, 'get', [i, l, u])
    return c.mvals(l), c.mvals(u)


def segment(c, nX, nY, inp, out, values, kind):
    """alta::vertical_segment(params, size, storage, kind) over row-major values"""
    p = c.new(CORETU, 'alta::parameters', [nX, nY, inp, out])
    cols = nX + nY * (1 + kind)
    assert len(values) % cols == 0
    return c.new(VS, 'alta::vertical_segment', [p, len(values) // cols, c.sptr(c.cells(values)), kind])


def num(v, prec=15):
    return Num(v, 'double', prec) if isinstance(v, E) else repr(float(v))


def same(a, b, rng=None):
    if a is b or (not isinstance(a, E) and not isinstance(b, E) and a is not UNDEF and b is not UNDEF and a == b):
        return True
    if a is UNDEF or b is UNDEF:
        return False
    return equal(a, b, rng or anyvars(a, b)).equal


def anyvars(*xs):
    names = sorted(set().union(*[vars_of(x) for x in xs if isinstance(x, E)] or [set()]))

    def s(rng):
        return {n: rng.uniform(-3, 3) for n in names}
    s.special = s
    return s


def rangevars(lo, hi, *xs):
    names = sorted(set().union(*[vars_of(x) for x in xs if isinstance(x, E)] or [set()]))

    def s(rng):
        return {n: rng.uniform(lo, hi) for n in names}
    s.special = s
    return s


def compare(R, c, label, got, want, what, loc, rng=None):
    if not R.check(label + '/length', len(got) == len(want), '%s has %d numbers instead of %d' % (what, len(got), len(want)), loc, fp=len(got)):
        return
    bad, und = [], []
    for i, (a, b) in enumerate(zip(got, want)):
        r = same(a, b, rng and rng(a, b))
        if r is None:
            und.append(i)
        elif not r:
            bad.append(i)
    if und and not bad:
        R.undecided(label, 'cannot compare numbers %s' % und)
        return
    R.check(label, not bad, '%s differs at %s: %s instead of %s' % (what, bad[:4], [show(got[i])[:60] if got[i] is not UNDEF else 'unset' for i in bad[:2]], [show(want[i])[:60] for i in bad[:2]]), loc, fp=bad)


def events(R, c, label, loc, kinds=('oob', 'uninit', 'null-deref', 'textbin', 'binsize', 'double-free', 'mismatch', 'shape')):
    ev = [x for x in c.I.events if x[0] in kinds]
    R.check(label + '/defined', not ev, ev and '%s' % ev[0][1], ev[0][2] if ev else loc, fp=ev and ev[0][0])
