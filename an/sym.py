"""Hash-consed value graphs (gated value numbering) over the reals."""
import math, random

_tab = {}


class E:
    __slots__ = ('op', 'args', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(('e', a.id) if isinstance(a, E) else (type(a).__name__, a) for a in args)
    e = _tab.get(key)
    if e is None:
        e = E()
        e.op = op
        e.args = args
        e.id = len(_tab) + 1
        _tab[key] = e
    return e


def var(name):
    return mk('var', name)


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, E)


def show(x, d=0):
    if not isinstance(x, E):
        return repr(x)
    if x.op == 'var':
        return str(x.args[0])
    if d > 7:
        return '...'
    if x.op in ('+', '-', '*', '/', '<', '<=', '==', '!=', 'and', 'or') and len(x.args) == 2:
        return '(%s %s %s)' % (show(x.args[0], d + 1), x.op, show(x.args[1], d + 1))
    if x.op == 'ite':
        return '(%s ? %s : %s)' % tuple(show(a, d + 1) for a in x.args)
    return '%s(%s)' % (x.op, ', '.join(show(a, d + 1) for a in x.args))


def _fdiv(a, b):
    try:
        return a / b
    except ZeroDivisionError:
        if a != a or a == 0:
            return math.nan
        neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
        return -math.inf if neg else math.inf


def _pow(a, b):
    try:
        return math.pow(a, b)
    except (ValueError, OverflowError, ZeroDivisionError):
        return math.nan


def _guard(f):
    def g(*a):
        try:
            return f(*a)
        except (ValueError, OverflowError, ZeroDivisionError):
            return math.nan
    return g


def _fmod(a, b):
    return math.fmod(a, b)


FUN = {
    'sin': _guard(math.sin), 'cos': _guard(math.cos), 'tan': _guard(math.tan), 'acos': _guard(math.acos),
    'asin': _guard(math.asin), 'atan': _guard(math.atan), 'atan2': _guard(math.atan2), 'sqrt': _guard(math.sqrt),
    'exp': _guard(math.exp), 'log': _guard(math.log), 'pow': _pow, 'abs': abs, 'floor': _guard(lambda x: float(math.floor(x))),
    'ceil': _guard(lambda x: float(math.ceil(x))), 'fmod': _guard(_fmod), 'erf': _guard(math.erf), 'erfc': _guard(math.erfc),
    'trunc': lambda x: 0 if x != x or abs(x) == math.inf else int(x), 'round': _guard(lambda x: float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)), 'rint': _guard(lambda x: float(round(x))),
    'max': lambda a, b: (b if a < b else a), 'min': lambda a, b: (b if b < a else a),
    'fmax': lambda a, b: (b if a != a or a < b else a), 'fmin': lambda a, b: (b if a != a or b < a else a),
    'hypot': _guard(math.hypot), 'sinh': _guard(math.sinh), 'cosh': _guard(math.cosh), 'tanh': _guard(math.tanh),
    'log10': _guard(math.log10), 'log2': _guard(math.log2), 'cbrt': _guard(lambda x: math.copysign(abs(x) ** (1 / 3.), x)), 'isnan': lambda x: x != x, 'isfinite': lambda x: math.isfinite(x),
    'ftrunc': _guard(lambda x: float(math.trunc(x))), 'fma': lambda a, b, c: a * b + c,
    'isinf': lambda x: math.isinf(x), 'signbit': lambda x: math.copysign(1, x) < 0, 'copysign': math.copysign,
    'idiv': lambda a, b: 0 if b == 0 else (abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1),
    'imod': lambda a, b: 0 if b == 0 else a - b * ((abs(a) // abs(b)) * (1 if (a >= 0) == (b >= 0) else -1)),
}


def fun(name, *a):
    if all(isnum(x) for x in a):
        try:
            return FUN[name](*a)
        except KeyError:
            return mk(name, *a)
    if name == 'pow' and isnum(a[1]):
        if a[1] == 1:
            return a[0]
        if a[1] == 0:
            return 1.0
        if a[1] == 2:
            return mul(a[0], a[0])
    if name == 'trunc' and isinstance(a[0], E) and a[0].op in ('trunc', 'i2d'):
        return a[0] if a[0].op == 'trunc' else a[0].args[0]
    if name in ('max', 'min') and a[0] is a[1]:
        return a[0]
    return mk(name, *a)


def neg(a):
    if isnum(a):
        return -a
    if isinstance(a, E) and a.op == 'neg':
        return a.args[0]
    return mk('neg', a)


def _key(x):
    return (1, x.id, 0) if isinstance(x, E) else (0, 0, repr(x))


def add(a, b):
    if isnum(a) and isnum(b):
        return a + b
    if isnum(a) and a == 0:
        return b
    if isnum(b) and b == 0:
        return a
    if _key(b) < _key(a):
        a, b = b, a
    return mk('+', a, b)


def sub(a, b):
    if isnum(a) and isnum(b):
        return a - b
    if isnum(b) and b == 0:
        return a
    if a is b:
        return 0.0
    if isnum(a) and a == 0:
        return neg(b)
    return mk('-', a, b)


def mul(a, b):
    if isnum(a) and isnum(b):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isnum(x):
            if x == 0:
                return x
            if x == 1:
                return y
            if x == -1:
                return neg(y)
    if _key(b) < _key(a):
        a, b = b, a
    return mk('*', a, b)


def div(a, b):
    if isnum(a) and isnum(b):
        return _fdiv(float(a), float(b))
    if isnum(b) and b == 1:
        return a
    if isnum(a) and a == 0:
        return a
    return mk('/', a, b)


_CMP = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def cmp(op, a, b):
    if op == '>':
        return cmp('<', b, a)
    if op == '>=':
        return cmp('<=', b, a)
    if isnum(a) and isnum(b):
        return _CMP[op](a, b)
    if a is b and isinstance(a, E):
        return op in ('<=', '==')
    # an ite of constants compared with a constant
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, E) and x.op == 'ite' and not isinstance(y, E) and not isinstance(x.args[1], E) and not isinstance(x.args[2], E):
            f = _CMP[op]
            t1 = f(y, x.args[1]) if sw else f(x.args[1], y)
            t2 = f(y, x.args[2]) if sw else f(x.args[2], y)
            return ite(x.args[0], t1, t2)
    return mk(op, a, b)


def not_(a):
    if isinstance(a, bool):
        return not a
    if not isinstance(a, E):
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk('not', a)


def and_(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    if a is b:
        return a
    return mk('and', a, b)


def or_(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    if a is b:
        return a
    return mk('or', a, b)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, E) or isinstance(b, E):
        return False
    return type(a) == type(b) and (a == b or (a != a and b != b))


def ite(c, a, b):
    if not isinstance(c, E):
        return a if c else b
    if same(a, b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else not_(c)
    if isinstance(a, E) and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if isinstance(b, E) and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if same(a, b):
        return a
    if isnum(a) and isnum(b) and a == b:
        return a
    return mk('ite', c, a, b)


class EvalError(Exception):
    pass


def evalx(x, env, memo=None, hook=None):
    """Random-interpretation evaluation of a value graph at one point."""
    if not isinstance(x, E):
        return x
    if memo is None:
        memo = {}
    st = [x]
    while st:
        n = st[-1]
        if n.id in memo:
            st.pop()
            continue
        if n.op == 'var':
            if n.args[0] in env:
                memo[n.id] = env[n.args[0]]
            else:
                v = hook(n) if hook else None
                if v is None:
                    raise EvalError('free variable ' + str(n.args[0]))
                memo[n.id] = v
            st.pop()
            continue
        if n.op == 'ite':
            c = n.args[0]
            if isinstance(c, E) and c.id not in memo:
                st.append(c)
                continue
            cv = memo[c.id] if isinstance(c, E) else c
            br = n.args[1] if cv else n.args[2]
            if isinstance(br, E) and br.id not in memo:
                st.append(br)
                continue
            memo[n.id] = memo[br.id] if isinstance(br, E) else br
            st.pop()
            continue
        if n.op in ('and', 'or'):
            a, b = n.args
            if isinstance(a, E) and a.id not in memo:
                st.append(a)
                continue
            av = memo[a.id] if isinstance(a, E) else a
            if (n.op == 'and' and not av) or (n.op == 'or' and av):
                memo[n.id] = bool(av)
                st.pop()
                continue
            if isinstance(b, E) and b.id not in memo:
                st.append(b)
                continue
            memo[n.id] = bool(memo[b.id] if isinstance(b, E) else b)
            st.pop()
            continue
        todo = [a for a in n.args if isinstance(a, E) and a.id not in memo]
        if todo:
            st.extend(todo)
            continue
        a = [memo[y.id] if isinstance(y, E) else y for y in n.args]
        st.pop()
        o = n.op
        try:
            if o == '+':
                r = a[0] + a[1]
            elif o == '-':
                r = a[0] - a[1]
            elif o == '*':
                r = a[0] * a[1]
            elif o == '/':
                r = _fdiv(float(a[0]), float(a[1]))
            elif o == 'neg':
                r = -a[0]
            elif o in _CMP:
                r = _CMP[o](a[0], a[1])
            elif o == 'not':
                r = not a[0]
            elif o == 'i2d':
                r = float(a[0])
            elif o == 'f32':
                r = a[0]
            elif o in FUN:
                r = FUN[o](*a)
            else:
                v = hook(n, a) if hook else None
                if v is None:
                    # an uninterpreted operator: a fixed pseudo-random function of its arguments
                    v = uninterp(o, a)
                r = v
        except (OverflowError,):
            r = math.nan
        memo[n.id] = r
    return memo[x.id]


def uninterp(o, a):
    q = tuple(('%.9g' % float(v)) if isinstance(v, (int, float)) and not isinstance(v, bool) else repr(v) for v in a)
    return random.Random(repr((o, q))).uniform(0.1, 0.9)


def vars_of(*xs):
    seen, out, st = set(), set(), [x for x in xs if isinstance(x, E)]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'var':
            out.add(n.args[0])
        else:
            st.extend(a for a in n.args if isinstance(a, E))
    return out


def ops_of(*xs):
    seen, out, st = set(), {}, [x for x in xs if isinstance(x, E)]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        out[n.op] = out.get(n.op, 0) + 1
        if n.op != 'var':
            st.extend(a for a in n.args if isinstance(a, E))
    return out


def opaque(*xs):
    """does a graph depend on a call whose body the analysis does not know?"""
    return any(o.startswith(('call:', 'b:call:')) for o in ops_of(*xs))


def size_of(x):
    return sum(ops_of(x).values())


def subst(x, m, memo=None):
    """Replace variables (name -> value) in a graph."""
    if not isinstance(x, E):
        return x
    if memo is None:
        memo = {}
    if x.id in memo:
        return memo[x.id]
    if x.op == 'var':
        r = m.get(x.args[0], x)
    else:
        r = rebuild(x.op, [subst(a, m, memo) for a in x.args])
    memo[x.id] = r
    return r


def rebuild(op, a):
    if op == '+':
        return add(*a)
    if op == '-':
        return sub(*a)
    if op == '*':
        return mul(*a)
    if op == '/':
        return div(*a)
    if op == 'neg':
        return neg(*a)
    if op in _CMP:
        return cmp(op, *a)
    if op == 'not':
        return not_(*a)
    if op == 'and':
        return and_(*a)
    if op == 'or':
        return or_(*a)
    if op == 'ite':
        return ite(*a)
    if op in FUN:
        return fun(op, *a)
    return mk(op, *a)


class NoDeriv(Exception):
    pass


def diff(x, v, memo=None):
    """Derivative of a value graph with respect to variable v (gates kept)."""
    if not isinstance(x, E):
        return 0.0
    if memo is None:
        memo = {}
    if x.id in memo:
        return memo[x.id]
    o, a = x.op, x.args
    D = lambda y: diff(y, v, memo)
    if o == 'var':
        r = 1.0 if a[0] == v else 0.0
    elif v not in vars_of(x):
        r = 0.0
    elif o == '+':
        r = add(D(a[0]), D(a[1]))
    elif o == '-':
        r = sub(D(a[0]), D(a[1]))
    elif o == '*':
        r = add(mul(D(a[0]), a[1]), mul(a[0], D(a[1])))
    elif o == '/':
        r = div(sub(mul(D(a[0]), a[1]), mul(a[0], D(a[1]))), mul(a[1], a[1]))
    elif o == 'neg':
        r = neg(D(a[0]))
    elif o == 'ite':
        r = ite(a[0], D(a[1]), D(a[2]))
    elif o == 'exp':
        r = mul(x, D(a[0]))
    elif o == 'log':
        r = div(D(a[0]), a[0])
    elif o == 'sqrt':
        r = div(D(a[0]), mul(2.0, x))
    elif o == 'sin':
        r = mul(fun('cos', a[0]), D(a[0]))
    elif o == 'cos':
        r = neg(mul(fun('sin', a[0]), D(a[0])))
    elif o == 'tan':
        r = mul(add(1.0, mul(x, x)), D(a[0]))
    elif o == 'acos':
        r = neg(div(D(a[0]), fun('sqrt', sub(1.0, mul(a[0], a[0])))))
    elif o == 'asin':
        r = div(D(a[0]), fun('sqrt', sub(1.0, mul(a[0], a[0]))))
    elif o == 'atan':
        r = div(D(a[0]), add(1.0, mul(a[0], a[0])))
    elif o == 'erf':
        r = mul(mul(2.0 / math.sqrt(math.pi), fun('exp', neg(mul(a[0], a[0])))), D(a[0]))
    elif o == 'abs':
        r = ite(cmp('<', a[0], 0.0), neg(D(a[0])), D(a[0]))
    elif o in ('max', 'fmax'):
        r = ite(cmp('<', a[0], a[1]), D(a[1]), D(a[0]))
    elif o in ('min', 'fmin'):
        r = ite(cmp('<', a[1], a[0]), D(a[1]), D(a[0]))
    elif o in ('floor', 'ceil', 'trunc', 'round'):
        r = 0.0
    elif o in ('i2d', 'f32'):
        r = D(a[0])
    elif o == 'pow':
        da, db = D(a[0]), D(a[1])
        t = 0.0
        if not (isnum(da) and da == 0):
            t = mul(mul(a[1], fun('pow', a[0], sub(a[1], 1.0))), da)
        if not (isnum(db) and db == 0):
            t = add(t, mul(mul(x, fun('log', a[0])), db))
        r = t
    else:
        raise NoDeriv(o)
    memo[x.id] = r
    return r


class Verdict:
    def __init__(self, equal, how, pts=0, witness=None):
        self.equal, self.how, self.pts, self.witness = equal, how, pts, witness


def gates_of(*xs):
    """conditions a graph branches on"""
    seen, out, st = set(), {}, [x for x in xs if isinstance(x, E)]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == 'ite' and isinstance(n.args[0], E):
            out[n.args[0].id] = set()
        if n.op != 'var':
            st.extend(a for a in n.args if isinstance(a, E))
    return out, len(seen)


def equal(a, b, sampler, n=24, tol=1e-6, assume=None, seed=1, minpts=4, extra=160, skipnan=False):
    """Are the two graphs equal?  Structural identity first, then random
    interpretation.  sampler(rng) -> env.  assume(env)->bool filters.
    Points are added while some gate was only ever seen open or shut."""
    if same(a, b) or (isnum(a) and isnum(b) and a == b):
        return Verdict(True, 'graph', 0)
    rng = random.Random(seed)
    good = 0
    gates, size = gates_of(a, b)
    op = opaque(a, b)
    more = min(extra, max(20, 60000 // max(1, size)))
    special = getattr(sampler, 'special', None)
    for i in range(n * 6 + more):
        if i >= n and good >= n and (i - n >= more or all(len(g) == 2 for g in gates.values())):
            break
        env = special(rng) if special and i >= n and i % 2 else sampler(rng)
        if assume and not assume(env):
            continue
        memo = {}
        x = evalx(a, env, memo)
        y = evalx(b, env, memo)
        for g in gates:
            if g in memo and memo[g] == memo[g]:
                gates[g].add(bool(memo[g]))
        if isinstance(x, bool) or isinstance(y, bool):
            x, y = float(x), float(y)
        if y != y and (skipnan or x != x):
            continue
        if x != x or y != y or abs(x) == math.inf or abs(y) == math.inf:
            if x == y:
                continue
        elif abs(x - y) <= tol * max(1e-3, abs(x), abs(y)):
            good += 1
            continue
        if op:
            return Verdict(None, 'depends on an unknown call', good)
        return Verdict(False, 'random-interpretation', good, (env, x, y))
    if good < minpts:
        return Verdict(None, 'no usable point', good)
    return Verdict(True, 'random-interpretation', good)


# arithmetic on graphs, for specifications written in Python
E.__add__ = lambda a, b: add(a, b)
E.__radd__ = lambda a, b: add(b, a)
E.__sub__ = lambda a, b: sub(a, b)
E.__rsub__ = lambda a, b: sub(b, a)
E.__mul__ = lambda a, b: mul(a, b)
E.__rmul__ = lambda a, b: mul(b, a)
E.__truediv__ = lambda a, b: div(a, b)
E.__rtruediv__ = lambda a, b: div(b, a)
E.__neg__ = lambda a: neg(a)
E.__pow__ = lambda a, b: fun('pow', a, b)
