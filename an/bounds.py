"""Interval evaluation of value graphs: decides the conditions that every value
of the variables in their stated ranges decides the same way."""
import math
import struct
from sym import E, mk

INF = math.inf
TOP = (-INF, INF)


ROUND = {'trunc': math.trunc, 'floor': math.floor, 'ceil': math.ceil, 'round': lambda t: math.floor(abs(t) + 0.5) * (1 if t >= 0 else -1)}


def isint(x):
    """is the value always a whole number?"""
    if not isinstance(x, E):
        return float(x).is_integer()
    if x.op in ROUND or x.op in ('imod', 'idiv'):
        return True
    if x.op in ('+', '-', '*', 'neg', 'min', 'max'):
        return all(isint(a) for a in x.args)
    if x.op == 'ite':
        return isint(x.args[1]) and isint(x.args[2])
    return False


def _m(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


class Decider:
    def __init__(self, rng):
        self.rng, self.memo, self.keep = rng, {}, []
        self.over = {}      # what conditions say about values
        self.depth = 0

    def iv(self, x):
        if not isinstance(x, E):
            return (float(x), float(x)) if isinstance(x, (int, float)) else TOP
        r = self.memo.get(x.id)
        if r is None:
            r = self._iv(x)
            o = self.over.get(x.id)
            if o is not None:
                r = max(r[0], o[0]), min(r[1], o[1])
            self.memo[x.id] = r
        return r

    def under(self, *conds):
        """what is known when the conditions hold; None when they cannot"""
        d = Decider(self.rng)
        d.over = dict(self.over)
        d.depth = self.depth + 1
        for _ in range(2):
            for c in conds:
                if not d.learn(c, True):
                    return None
        return d

    def narrow(self, x, lo, hi):
        """x is in [lo, hi]"""
        if not isinstance(x, E):
            return lo <= x <= hi
        p = self.iv(x)
        lo, hi = max(lo, p[0]), min(hi, p[1])
        if lo > hi:
            return False
        if (lo, hi) == p:
            return True
        self.over[x.id] = (lo, hi)
        self.memo = {}
        a = x.args
        if x.op == 'neg':
            return self.narrow(a[0], -hi, -lo)
        return True

    def learn(self, c, yes):
        """adds condition c; False when it cannot hold"""
        if not isinstance(c, E):
            return bool(c) == yes
        t = self.truth(c)
        if t is not None:
            return t == yes
        op, a = c.op, c.args
        if op == 'not':
            return self.learn(a[0], not yes)
        if op == ('and' if yes else 'or'):
            return self.learn(a[0], yes) and self.learn(a[1], yes)
        if op in ('<', '<='):
            p, q = a
            strict = op == '<'
            if not yes:
                # a comparison that fails orders the numbers the other way (NaN aside)
                p, q, strict = q, p, not strict
            ip, iq = self.iv(p), self.iv(q)
            hi, lo = iq[1], ip[0]
            if strict:
                if isint(p) and isint(q):
                    hi, lo = hi - 1, lo + 1
                else:
                    hi, lo = math.nextafter(hi, -INF), math.nextafter(lo, INF)
            return self.narrow(p, -INF, hi) and self.narrow(q, lo, INF)
        if op in ('==', '!='):
            p, q = a
            ip, iq = self.iv(p), self.iv(q)
            if (op == '==') == yes:
                lo, hi = max(ip[0], iq[0]), min(ip[1], iq[1])
                return lo <= hi and self.narrow(p, lo, hi) and self.narrow(q, lo, hi)
            if isint(p) and iq[0] == iq[1]:
                lo = ip[0] + (ip[0] == iq[0])
                hi = ip[1] - (ip[1] == iq[0])
                return self.narrow(p, lo, hi)
        return True

    def _iv(self, x):
        op, a = x.op, x.args
        if op == 'var':
            # a character of a printed finite number: '+' to '9'
            return (43.0, 57.0) if a[0].startswith('#ch') else self.rng(a[0]) or TOP
        if op == '+':
            p, q = self.iv(a[0]), self.iv(a[1])
            return p[0] + q[0], p[1] + q[1]
        if op == '-':
            p, q = self.iv(a[0]), self.iv(a[1])
            return p[0] - q[1], p[1] - q[0]
        if op == 'neg':
            p = self.iv(a[0])
            return -p[1], -p[0]
        if op == '*':
            p, q = self.iv(a[0]), self.iv(a[1])
            c = [_m(u, v) for u in p for v in q]
            return min(c), max(c)
        if op == '/':
            p, q = self.iv(a[0]), self.iv(a[1])
            if q[0] > 0 or q[1] < 0:
                c = [u / v if abs(v) != INF else 0.0 for u in p for v in q]
                return (min(c), max(c)) if not any(t != t for t in c) else TOP
            return TOP
        if op in ('max', 'min', 'fmax', 'fmin') and len(a) == 2:
            p, q = self.iv(a[0]), self.iv(a[1])
            f = max if 'max' in op else min
            return f(p[0], q[0]), f(p[1], q[1])
        if op == 'abs':
            p = self.iv(a[0])
            lo = 0.0 if p[0] <= 0 <= p[1] else min(abs(p[0]), abs(p[1]))
            return lo, max(abs(p[0]), abs(p[1]))
        if op == 'exp':
            p = self.iv(a[0])
            return (math.exp(min(p[0], 700)) if p[0] > -INF else 0.0), (math.exp(p[1]) if p[1] < 700 else INF)
        if op in ('sin', 'cos'):
            return -1.0, 1.0
        if op == 'strlen':
            return (float(a[1]), 400.0 * a[1]) if len(a) > 1 else (0.0, INF)
        if op == 'acos':
            return 0.0, math.pi
        if op == 'sqrt':
            p = self.iv(a[0])
            return math.sqrt(max(p[0], 0.0)), math.sqrt(p[1]) if p[1] >= 0 else INF
        if op == 'i2d':
            return self.iv(a[0])
        if op in ROUND:
            p = self.iv(a[0])
            return tuple(t if abs(t) == INF or t != t else float(ROUND[op](t)) for t in p)
        if op == 'f32':
            p = self.iv(a[0])
            return tuple(t if abs(t) > 3e38 or t != t else struct.unpack('f', struct.pack('f', t))[0] for t in p)
        if op == 'imod' and not isinstance(a[1], E) and a[1] > 0:
            p = self.iv(a[0])
            if p[0] >= 0:
                if p[1] - p[0] < a[1] and p[0] // a[1] == p[1] // a[1]:
                    return p[0] % a[1], p[1] % a[1]
                return 0.0, min(p[1], a[1] - 1.0)
            return max(p[0], 1.0 - a[1]), min(max(p[1], 0.0), a[1] - 1.0)
        if op == 'idiv' and not isinstance(a[1], E) and a[1] > 0:
            p = self.iv(a[0])
            return tuple(t if abs(t) == INF else float(int(t / a[1])) for t in p)
        if op == 'ite':
            c = self.truth(a[0])
            if c is True:
                return self.iv(a[1])
            if c is False:
                return self.iv(a[2])
            if self.depth < 12:
                y, n = self.under(a[0]), self.under(mk('not', a[0]))
                if y is None and n is not None:
                    return n.iv(a[2])
                if n is None and y is not None:
                    return y.iv(a[1])
                if n is not None and y is not None:
                    p, q = y.iv(a[1]), n.iv(a[2])
                    return min(p[0], q[0]), max(p[1], q[1])
            p, q = self.iv(a[1]), self.iv(a[2])
            return min(p[0], q[0]), max(p[1], q[1])
        return TOP

    def truth(self, c):
        if not isinstance(c, E):
            return bool(c)
        k = ('b', c.id)
        if k in self.memo:
            return self.memo[k]
        r = self.memo[k] = self._truth(c)
        return r

    def _truth(self, c):
        op, a = c.op, c.args
        if op == 'not':
            t = self.truth(a[0])
            return None if t is None else not t
        if op in ('and', 'or'):
            p, q = self.truth(a[0]), self.truth(a[1])
            w = op == 'or'
            if p is w or q is w:
                return w
            return (not w) if p is (not w) and q is (not w) else None
        if op in ('<', '<=', '==', '!='):
            p, q = self.iv(a[0]), self.iv(a[1])
            if op == '<':
                return True if p[1] < q[0] else False if p[0] >= q[1] else None
            if op == '<=':
                return True if p[1] <= q[0] else False if p[0] > q[1] else None
            if p[1] < q[0] or p[0] > q[1]:
                return op == '!='
            if p[0] == p[1] == q[0] == q[1] and abs(p[0]) != INF:
                return op == '=='
            return None
        if op in ('isnan', 'isinf'):
            p = self.iv(a[0])
            return False if -INF < p[0] and p[1] < INF else None
        if op == 'isfinite':
            p = self.iv(a[0])
            return True if -INF < p[0] and p[1] < INF else None
        if op == 'ite':
            t = self.truth(a[0])
            if t is not None:
                return self.truth(a[1] if t else a[2])
            p, q = self.truth(a[1]), self.truth(a[2])
            return p if p is not None and p is q else None
        return None


def decider(rng):
    """rng(name) -> (lo, hi) or None"""
    d = Decider(rng)
    return d.truth
