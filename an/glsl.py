"""A small interpreter of shader text over symbolic numbers.

Text comes as atoms (strings and printed numbers); values are floats or
expressions, vectors are lists.  Anything the language does not allow is a
Malformed error, anything this interpreter does not know is Unsupported.
"""
import math, re
import sym
from sym import E, add, sub, mul, div, fun
from interp import Unsupported, Num


class Malformed(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|(?P<num>(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?f?)|(?P<id>[A-Za-z_]\w*)|(?P<op>\+=|-=|\*=|/=|==|!=|<=|>=|&&|\|\||\+\+|--|[-+*/%<>=!?:;,.(){}\[\]])', re.S)
TYPES = {'float': 1, 'int': 1, 'bool': 1, 'vec2': 2, 'vec3': 3, 'vec4': 4, 'void': 0}
# types and functions of the language this interpreter does not know
OTHER = re.compile(r'(mat\d(x\d)?|[ibud]vec\d|uint|double|sampler\w*|struct)$')
BUILTIN = set('''radians degrees sinh cosh tanh asinh acosh atanh exp2 log2 floor ceil fract mod modf sign trunc round roundEven isnan isinf
smoothstep distance faceforward refract int bool matrixCompMult outerProduct transpose determinant inverse lessThan lessThanEqual greaterThan greaterThanEqual
equal notEqual any all not fma mat2 mat3 mat4 ivec2 ivec3 ivec4 bvec2 bvec3 bvec4 uint double'''.split())
QUAL = {'const', 'in', 'highp', 'mediump', 'lowp', 'uniform'}


def tokens(atoms):
    """(kind, value, line)"""
    out, line, buf = [], 1, ''

    def flush():
        nonlocal buf, line
        p = 0
        while p < len(buf):
            m = TOKEN.match(buf, p)
            if not m and buf[p] == '#':
                raise Unsupported('a directive in a shader')
            if not m:
                raise Malformed('line %d: unexpected character %r' % (line, buf[p]))
            if m.group('num'):
                t = m.group('num')
                isint = re.fullmatch(r'\d+', t) is not None
                v = float(t.rstrip('f'))
                if abs(v - math.pi) < 1e-5:
                    v = math.pi
                out.append(('num', v, line, 'int' if isint else 'float'))
            elif m.group('id'):
                out.append(('id', m.group('id'), line))
            elif m.group('op'):
                out.append(('op', m.group('op'), line))
            line += buf.count('\n', p, m.end())
            p = m.end()
        buf = ''
    for a in atoms:
        if isinstance(a, str):
            buf += a
        elif isinstance(a, Num):
            v = a.v
            if isinstance(v, (int, float)) and not isinstance(v, bool) and not buf[-1:].isalnum():
                buf += ('%d' % v) if isinstance(v, int) else repr(float(v))
                continue
            if buf and (buf[-1].isalnum() or buf[-1] in '._'):
                flush()
                raise Malformed('line %d: a number right after %r' % (line, out[-1][1] if out else ''))
            flush()
            out.append(('num', v, line, 'int' if str(a.ty) in ('int', 'unsigned int') else 'float'))
        else:
            raise Unsupported('text of %s' % type(a).__name__)
    flush()
    out.append(('end', None, line))
    return out


class Parser:
    def __init__(self, toks):
        self.t, self.p, self.globals = toks, 0, []

    def peek(self, v=None, k=0):
        t = self.t[min(self.p + k, len(self.t) - 1)]
        return t if v is None else (t[0] == 'op' or t[0] == 'id') and t[1] == v

    def next(self):
        t = self.t[self.p]
        if t[0] == 'end':
            raise Malformed('line %d: the text ends early' % t[2])
        self.p += 1
        return t

    def eat(self, v):
        t = self.peek()
        if not self.peek(v):
            raise Malformed('line %d: %r where %r is expected' % (t[2], t[1], v))
        self.p += 1

    def name(self):
        t = self.next()
        if t[0] != 'id':
            raise Malformed('line %d: %r where a name is expected' % (t[2], t[1]))
        return t[1]

    def istype(self, ty, line):
        if OTHER.match(ty):
            raise Unsupported('type %s in a shader' % ty)
        if ty not in TYPES:
            raise Malformed('line %d: %r is no type' % (line, ty))

    def unit(self):
        fns = {}
        while self.peek()[0] != 'end':
            if self.peek(';'):
                self.p += 1
                continue
            while self.peek()[1] in QUAL:
                self.p += 1
            l = self.peek()[2]
            ty = self.name()
            self.istype(ty, l)
            n = self.name()
            if not self.peek('('):
                v = None
                if self.peek('='):
                    self.p += 1
                    v = self.expr()
                self.eat(';')
                self.globals.append((ty, n, v))
                continue
            self.eat('(')
            ps = []
            while not self.peek(')'):
                while self.peek()[1] in QUAL:
                    self.p += 1
                pt = self.name()
                self.istype(pt, l)
                ps.append((pt, self.name()))
                if not self.peek(')'):
                    self.eat(',')
            self.eat(')')
            if self.peek(';'):
                self.p += 1
                continue
            if (n, tuple(t for t, _ in ps)) in fns:
                raise Malformed('line %d: %s is defined twice' % (l, n))
            fns[n, tuple(t for t, _ in ps)] = (ty, n, ps, self.block())
        return fns

    def block(self):
        self.eat('{')
        out = []
        while not self.peek('}'):
            out.append(self.statement())
        self.eat('}')
        return ('block', out)

    def statement(self):
        t = self.peek()
        if self.peek('{'):
            return self.block()
        if self.peek(';'):
            self.p += 1
            return ('block', [])
        if self.peek('if'):
            self.p += 1
            self.eat('(')
            c = self.expr()
            self.eat(')')
            a = self.statement()
            b = None
            if self.peek('else'):
                self.p += 1
                b = self.statement()
            return ('if', c, a, b, t[2])
        if self.peek('return'):
            self.p += 1
            v = None if self.peek(';') else self.expr()
            self.eat(';')
            return ('return', v, t[2])
        if t[1] in ('for', 'while', 'do', 'switch'):
            raise Unsupported('shader statement ' + t[1])
        const = False
        while self.peek()[1] in QUAL:
            self.p += 1
            const = True
        if self.peek()[0] == 'id' and OTHER.match(self.peek()[1]) and self.peek(None, 1)[0] == 'id':
            raise Unsupported('type %s in a shader' % self.peek()[1])
        if self.peek()[0] == 'id' and self.peek()[1] in TYPES and self.peek(None, 1)[0] == 'id':
            ty = self.name()
            ds = []
            while True:
                n = self.name()
                v = None
                if self.peek('='):
                    self.p += 1
                    v = self.expr()
                ds.append((ty, n, v))
                if self.peek(','):
                    self.p += 1
                    continue
                break
            self.eat(';')
            return ('decl', ds, t[2])
        if const:
            raise Malformed('line %d: a qualifier without a declaration' % t[2])
        l = self.expr()
        if self.peek()[1] in ('=', '+=', '-=', '*=', '/='):
            op = self.next()[1]
            r = self.expr()
            self.eat(';')
            return ('assign', l, op, r, t[2])
        self.eat(';')
        return ('expr', l, t[2])

    PREC = [['||'], ['&&'], ['==', '!='], ['<', '>', '<=', '>='], ['+', '-'], ['*', '/']]

    def expr(self):
        c = self.binary(0)
        if self.peek('?'):
            l = self.peek()[2]
            self.p += 1
            a = self.expr()
            self.eat(':')
            return ('cond', c, a, self.expr(), l)
        return c

    def binary(self, k):
        if k == len(self.PREC):
            return self.unary()
        a = self.binary(k + 1)
        while self.peek()[0] == 'op' and self.peek()[1] in self.PREC[k]:
            t = self.next()
            a = ('bin', t[1], a, self.binary(k + 1), t[2])
        return a

    def unary(self):
        t = self.peek()
        if t[0] == 'op' and t[1] in '+-!':
            self.p += 1
            return ('un', t[1], self.unary(), t[2])
        e = self.primary()
        while True:
            if self.peek('.'):
                self.p += 1
                e = ('swz', e, self.name(), t[2])
            elif self.peek('['):
                self.p += 1
                i = self.expr()
                self.eat(']')
                e = ('idx', e, i, t[2])
            else:
                return e

    def primary(self):
        t = self.next()
        if t[0] == 'num':
            return ('num', t[1], t[3], t[2])
        if t[0] == 'op' and t[1] == '(':
            e = self.expr()
            self.eat(')')
            return e
        if t[0] == 'id':
            if self.peek('('):
                self.p += 1
                a = []
                while not self.peek(')'):
                    a.append(self.expr())
                    if not self.peek(')'):
                        self.eat(',')
                self.eat(')')
                return ('call', t[1], a, t[2])
            return ('var', t[1], t[2])
        raise Malformed('line %d: unexpected %r' % (t[2], t[1]))


def lift(f, *a):
    """component by component; a number stands for a vector of equals"""
    n = [len(x) for x in a if isinstance(x, list)]
    if not n:
        return f(*a)
    if min(n) != max(n):
        raise Malformed('operands of %s components' % ' and '.join(map(str, n)))
    return [f(*[x[i] if isinstance(x, list) else x for x in a]) for i in range(n[0])]


def num(f, name):
    def g(*a):
        if all(isinstance(x, (int, float)) for x in a):
            try:
                return float(f(*a))
            except (ValueError, ZeroDivisionError, OverflowError):
                return math.nan
        return fun(name, *a)
    return g


def fmin(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return min(a, b)
    return sym.ite(sym.cmp('<', b, a), b, a)


def fmax(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return max(a, b)
    return sym.ite(sym.cmp('<', a, b), b, a)


def fdiv(a, b):
    if isinstance(b, (int, float)) and b == 0:
        return math.nan if not isinstance(a, (int, float)) or a == 0 else math.copysign(math.inf, a)
    return div(a, b)


class Machine:
    """decide(op, a, b) -> bool or None settles comparisons of unknown numbers"""

    def __init__(self, fns, decide, glob=()):
        self.fns, self.decide, self.depth, self.glob = fns, decide, 0, {}
        if glob:
            env = {}
            self.run(('decl', glob, 1), env, 0)
            self.glob = env

    def call(self, n, args, line=0):
        sizes = [len(a) if isinstance(a, list) else 1 for a in args]
        got = [f for (m, ts), f in self.fns.items() if m == n]
        if not got:
            return self.builtin(n, args, line)
        f = [f for f in got if [TYPES[t] for t, _ in f[2]] == sizes]
        if not f:
            raise Malformed('line %d: %s is called with arguments of sizes %s' % (line, n, sizes))
        ty, _, ps, body = f[0]
        self.depth += 1
        if self.depth > 30:
            raise Malformed('%s calls itself' % n)
        env = {p: (list(a) if isinstance(a, list) else a) for p, a in self.glob.items()}
        env.update({p: (list(a) if isinstance(a, list) else a) for (_, p), a in zip(ps, args)})
        try:
            self.run(body, env, TYPES[ty])
        except Return as r:
            self.depth -= 1
            if (len(r.v) if isinstance(r.v, list) else 1) != TYPES[ty]:
                raise Malformed('line %d: %s returns %d components' % (line, n, len(r.v) if isinstance(r.v, list) else 1))
            return r.v
        raise Malformed('%s ends without a value' % n)

    def run(self, s, env, rt):
        k = s[0]
        if k == 'block':
            for x in s[1]:
                self.run(x, env, rt)
        elif k == 'if':
            c = self.ev(s[1], env)
            if not isinstance(c, bool):
                raise Unsupported('line %d: a condition on unknown numbers' % s[4])
            if c:
                self.run(s[2], env, rt)
            elif s[3]:
                self.run(s[3], env, rt)
        elif k == 'return':
            raise Return(self.ev(s[1], env) if s[1] else None)
        elif k == 'decl':
            for ty, n, v in s[1]:
                x = self.ev(v, env) if v else ([None] * TYPES[ty] if TYPES[ty] > 1 else None)
                if (len(x) if isinstance(x, list) else 1) != TYPES[ty]:
                    raise Malformed('line %d: %s %s is set to %d components' % (s[2], ty, n, len(x) if isinstance(x, list) else 1))
                env[n] = list(x) if isinstance(x, list) else x
        elif k == 'assign':
            l, op, r = s[1], s[2], self.ev(s[3], env)
            if op != '=':
                r = self.arith(op[0], self.ev(l, env), r, s[4])
            self.store(l, r, env, s[4])
        elif k == 'expr':
            self.ev(s[1], env)

    def store(self, l, r, env, line):
        if l[0] == 'var':
            if l[1] not in env:
                raise Malformed('line %d: %s is not declared' % (line, l[1]))
            a, b = env[l[1]], r
            if (len(a) if isinstance(a, list) else 1) != (len(b) if isinstance(b, list) else 1):
                raise Malformed('line %d: assignment of another size' % line)
            env[l[1]] = list(r) if isinstance(r, list) else r
            return
        if l[0] in ('swz', 'idx') and l[1][0] == 'var' and isinstance(env.get(l[1][1]), list):
            v = env[l[1][1]]
            ks = [self.index(l[2], env, len(v), line)] if l[0] == 'idx' else self.swizzle(l[2], len(v), line)
            r = r if isinstance(r, list) else [r]
            if len(ks) != len(r):
                raise Malformed('line %d: assignment of another size' % line)
            for k, x in zip(ks, r):
                v[k] = x
            return
        raise Malformed('line %d: assignment to what is no variable' % line)

    def index(self, e, env, n, line):
        i = self.ev(e, env)
        if not isinstance(i, (int, float)) or i != int(i) or not 0 <= i < n:
            raise Malformed('line %d: index %s of %d components' % (line, i, n))
        return int(i)

    def swizzle(self, s, n, line):
        for names in ('xyzw', 'rgba', 'stpq'):
            if all(c in names[:n] for c in s) and len(s) <= 4:
                return [names.index(c) for c in s]
        raise Malformed('line %d: no component %s' % (line, s))

    def arith(self, op, a, b, line):
        for x in (a if isinstance(a, list) else [a]) + (b if isinstance(b, list) else [b]):
            if x is None:
                raise Malformed('line %d: an unset value is used' % line)
            if isinstance(x, bool):
                raise Malformed('line %d: arithmetic on a condition' % line)
        return lift({'+': add, '-': sub, '*': mul, '/': fdiv}[op], a, b)

    def ev(self, e, env):
        k = e[0]
        if k == 'num':
            return e[1]
        if k == 'var':
            if e[1] in ('true', 'false'):
                return e[1] == 'true'
            if e[1] not in env:
                raise Malformed('line %d: %s is not declared' % (e[2], e[1]))
            v = env[e[1]]
            if v is None:
                raise Malformed('line %d: %s is not set' % (e[2], e[1]))
            return v
        if k == 'bin':
            op, a = e[1], self.ev(e[2], env)
            if op in ('&&', '||'):
                if not isinstance(a, bool):
                    raise Unsupported('a condition on unknown numbers')
                return self.ev(e[3], env) if a == (op == '&&') else a
            b = self.ev(e[3], env)
            if op in ('<', '>', '<=', '>=', '==', '!='):
                if isinstance(a, list) or isinstance(b, list):
                    raise Malformed('line %d: comparison of vectors' % e[4])
                if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                    return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
                return self.decide(op, a, b)
            return self.arith(op, a, b, e[4])
        if k == 'un':
            a = self.ev(e[2], env)
            return (not a) if e[1] == '!' else a if e[1] == '+' else lift(lambda x: sub(0.0, x), a)
        if k == 'cond':
            c = self.ev(e[1], env)
            if not isinstance(c, bool):
                raise Unsupported('a condition on unknown numbers')
            return self.ev(e[2] if c else e[3], env)
        if k == 'swz':
            v = self.ev(e[1], env)
            if not isinstance(v, list):
                raise Malformed('line %d: component of a number' % e[3])
            r = [v[i] for i in self.swizzle(e[2], len(v), e[3])]
            return r if len(r) > 1 else r[0]
        if k == 'idx':
            v = self.ev(e[1], env)
            if not isinstance(v, list):
                raise Malformed('line %d: component of a number' % e[3])
            return v[self.index(e[2], env, len(v), e[3])]
        return self.call(e[1], [self.ev(a, env) for a in e[2]], e[3])

    def builtin(self, n, a, line):
        flat = [x for v in a for x in (v if isinstance(v, list) else [v])]
        if any(x is None for x in flat):
            raise Malformed('line %d: an unset value is used' % line)
        if n in ('vec2', 'vec3', 'vec4'):
            m = TYPES[n]
            if len(a) == 1 and not isinstance(a[0], list):
                return [a[0]] * m
            if len(flat) == m or len(a) == 1 and len(flat) > m:
                return flat[:m]
            raise Malformed('line %d: %s of %d components' % (line, n, len(flat)))
        if n == 'float':
            return flat[0]
        one = {'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'acos': math.acos, 'asin': math.asin, 'abs': math.fabs}
        if n in one and len(a) == 1:
            return lift(num(one[n], {'abs': 'fabs'}.get(n, n)), a[0])
        if n == 'atan' and len(a) == 1:
            return lift(num(math.atan, 'atan'), a[0])
        if n == 'atan' and len(a) == 2:
            return lift(num(math.atan2, 'atan2'), *a)
        if n == 'inversesqrt' and len(a) == 1:
            return lift(lambda x: fdiv(1.0, num(math.sqrt, 'sqrt')(x)), a[0])
        if n == 'pow' and len(a) == 2:
            # both operands have the same type; an integer or a number converts
            return lift(num(math.pow, 'pow'), *a)
        if n in ('max', 'min') and len(a) == 2:
            return lift(fmax if n == 'max' else fmin, *a)
        if n == 'clamp' and len(a) == 3:
            return lift(lambda x, l, h: fmin(fmax(x, l), h), *a)
        if n == 'mix' and len(a) == 3:
            return lift(lambda x, y, t: add(mul(x, sub(1.0, t)), mul(y, t)), *a)
        if n == 'step' and len(a) == 2:
            def st(e, x):
                if isinstance(e, (int, float)) and isinstance(x, (int, float)):
                    return 0.0 if x < e else 1.0
                return sym.ite(sym.cmp('<', x, e), 0.0, 1.0)
            return lift(st, *a)
        if n == 'dot' and len(a) == 2 and isinstance(a[0], list) and isinstance(a[1], list):
            r = 0.0
            for x in lift(mul, *a):
                r = add(r, x)
            return r
        if n == 'cross' and len(a) == 2:
            u, v = a
            return [sub(mul(u[i], v[j]), mul(u[j], v[i])) for i, j in ((1, 2), (2, 0), (0, 1))]
        if n in ('length', 'normalize') and len(a) == 1:
            v = a[0]
            r = num(math.sqrt, 'sqrt')(self.builtin('dot', [v, v], line))
            return r if n == 'length' else lift(fdiv, v, r)
        if n == 'reflect' and len(a) == 2:
            i, m = a
            return lift(sub, i, lift(mul, mul(2.0, self.builtin('dot', [i, m], line)), m))
        if n in BUILTIN:
            raise Unsupported('shader function %s' % n)
        raise Malformed('line %d: there is no function %s of %d arguments' % (line, n, len(a)))


def value(atoms, entry, args, limit=10):
    """what a function of the text returns, case by case on unknown comparisons"""
    p = Parser(tokens(atoms))
    fns = p.unit()
    if not any(n == entry for n, _ in fns):
        raise Malformed('%s is not defined' % entry)

    def go(prefix):
        if len(prefix) > limit:
            raise Unsupported('too many cases in a shader')
        seen = []

        def decide(op, a, b):
            c = sym.cmp(op, a, b)
            if not isinstance(c, E):
                return bool(c)
            seen.append(c)
            return prefix[len(seen) - 1] if len(seen) <= len(prefix) else True
        v = Machine(fns, decide, p.globals).call(entry, args)
        if len(seen) <= len(prefix):
            return v
        c = seen[len(prefix)]
        return lift(lambda x, y: sym.ite(c, x, y), go(prefix + [True]), go(prefix + [False]))
    return go([])
