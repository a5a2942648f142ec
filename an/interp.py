"""Abstract interpreter over the dumped AST.

Integers and control structure are tracked by constant propagation, reals are
value graphs (sym.E).  A branch whose condition is not a constant is analysed
on both sides and the two abstract states are joined with a gate (ite) -- no
path is enumerated and no solver is called.  Nothing of the program is run."""
import math
import re
from sym import E, mk, var, ite, add, sub, mul, div, neg, cmp, not_, and_, or_, fun, isnum, same, show

LIMITS = {("double", "digits10"): 15, ("double", "max_digits10"): 17, ("double", "digits"): 53, ("float", "digits10"): 6, ("float", "max_digits10"): 9, ("float", "digits"): 24}
import sym
import race


def libname(path):
    """the plugin whose library file has the given path"""
    m = re.fullmatch(r'(?:.*/)?lib([^/]+)\.so', path)
    return m.group(1) if m else None


class Unsupported(Exception):
    pass


class Thrown(str):
    """where an exception was thrown, and its class"""
    def __new__(cls, loc, type, tu=None):
        x = str.__new__(cls, loc)
        x.type, x.tu = type, tu
        return x


_R, _G = ('std::runtime_error', 'std::exception'), ('std::logic_error', 'std::exception')
EXCEPTIONS = {'std::ios_base::failure': ('std::system_error',) + _R, 'std::system_error': _R, 'std::range_error': _R, 'std::overflow_error': _R, 'std::underflow_error': _R, 'std::runtime_error': _R[1:],
              'std::invalid_argument': _G, 'std::out_of_range': _G, 'std::domain_error': _G, 'std::length_error': _G, 'std::logic_error': _G[1:], 'std::bad_alloc': ('std::exception',), 'std::exception': ()}


class Dead(Exception):
    """The current abstract state became unreachable."""


class Loc:
    __slots__ = ('o', 'k')

    def __init__(self, o, k=None):
        self.o = o
        self.k = k

    def __eq__(self, b):
        return isinstance(b, Loc) and self.o == b.o and self.k == b.k

    def __hash__(self):
        return hash((self.o, self.k))

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.o, self.k)


NULL = Loc(0)
UNDEF = mk('undef')


class Gated:
    """A non-numeric value (pointer, ...) chosen by a condition."""

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Fn:
    def __init__(self, tu, node, ref=None):
        self.tu, self.node, self.ref = tu, node, ref


class Lam:
    def __init__(self, tu, node, env, this):
        self.tu, self.node, self.env, self.this = tu, node, env, this


class Cont:
    __slots__ = ('kind', 'cls', 'd', 'x', 'owner', 'prov')

    def __init__(self, kind, cls, d, x=None, owner=None):
        self.kind, self.cls, self.d, self.x, self.owner, self.prov = kind, cls, d, x or {}, owner, {}

    def clone(self, owner):
        c = Cont(self.kind, self.cls, self.d.copy() if self.d is not None else None, dict(self.x), owner)
        c.prov = dict(self.prov)
        return c

    def __repr__(self):
        return '<%s %s %r %r>' % (self.kind, self.cls, self.d, self.x)


def untemplate(q):
    """qualified name without template arguments"""
    out, n = [], 0
    for i, ch in enumerate(q):
        if ch == '<' and not q[:i].endswith('operator') and not q[:i].endswith('operator<'):
            n += 1
        elif ch == '>' and n and q[i - 1] != '-':
            n -= 1
        elif not n:
            out.append(ch)
    return ''.join(out)


class Num:
    """A number printed to an abstract stream."""
    __slots__ = ('v', 'ty', 'prec')

    def __init__(self, v, ty, prec):
        self.v, self.ty, self.prec = v, ty, prec

    def __repr__(self):
        return 'Num(%r)' % (self.v,)


class Bin:
    """An element written to or read from an abstract stream as raw bytes."""
    __slots__ = ('v', 'size')

    def __init__(self, v, size):
        self.v, self.size = v, size

    def __repr__(self):
        return 'Bin(%r)' % (self.v,)


class State:
    _n = [0]

    def __init__(self, mem=None, pc=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc
        self.dead = False
        self.newtoken()

    def newtoken(self):
        State._n[0] += 1
        self.token = State._n[0]

    def fork(self, c):
        s = State(dict(self.mem), self.pc + (c,))
        self.newtoken()
        return s

    def get(self, o):
        try:
            return self.mem[o]
        except KeyError:
            raise Unsupported('dangling object %r' % (o,))

    def w(self, o):
        c = self.mem.get(o)
        if c is None:
            raise Unsupported('write to dangling object %r' % (o,))
        if c.owner != self.token:
            c = c.clone(self.token)
            self.mem[o] = c
        return c

    def become(self, s):
        self.mem, self.pc, self.dead = s.mem, s.pc, s.dead
        self.token = s.token
        s.newtoken()

    def handoff(self):
        """the state that goes on in place of this one, with what it owns"""
        s = State(self.mem, self.pc)
        s.token = self.token
        self.newtoken()
        return s


def mval(c, a, b):
    if a is b:
        return a
    if isinstance(a, (E, int, float)) and isinstance(b, (E, int, float)):
        return ite(c, a, b)
    if type(a) == type(b):
        try:
            if a == b:
                return a
        except Exception:
            pass
    if isinstance(a, Gated) and isinstance(b, Gated) and a.c is b.c and a.a == b.a and a.b == b.b:
        return a
    return Gated(c, a, b)


def merge(c, A, B, pc):
    with race.Off():
        return _merge(c, A, B, pc)


def _merge(c, A, B, pc):
    """State that is A when c holds, B otherwise."""
    mem = {}
    S = State(mem, pc)
    for o, x in A.mem.items():
        y = B.mem.get(o)
        if y is None or y is x:
            mem[o] = x
            continue
        mem[o] = mcont(c, x, y, S.token)
    for o, y in B.mem.items():
        if o not in A.mem:
            mem[o] = y
    return S


def mcont(c, x, y, tok):
    if x.kind != y.kind:
        return Cont('mixed', x.cls, None, {'why': 'kinds %s/%s' % (x.kind, y.kind), 'c': c, 'a': x, 'b': y}, tok)
    if x.d is None or y.d is None:
        if x.kind == 'mixed':
            return Cont('mixed', x.cls, None, {'c': c, 'a': x, 'b': y}, tok)
        return x
    r = x.clone(tok)
    if isinstance(x.d, list):
        if len(x.d) != len(y.d) or any(x.x.get(k) != y.x.get(k) for k in ('rows', 'cols')):
            if x.kind == 'ostr':
                # join of two output streams: keep the common prefix, gate the rest
                n = 0
                while n < len(x.d) and n < len(y.d) and x.d[n] is y.d[n]:
                    n += 1
                r.d = x.d[:n] + [('gate', c, x.d[n:], y.d[n:])]
                return r
            return Cont('mixed', x.cls, None, {'c': c, 'a': x, 'b': y}, tok)
        if x.kind == 'ostr':
            if all(p is q or p == q for p, q in zip(x.d, y.d)):
                return r
            n = 0
            while n < len(x.d) and n < len(y.d) and (x.d[n] is y.d[n] or x.d[n] == y.d[n]):
                n += 1
            r.d = x.d[:n] + [('gate', c, x.d[n:], y.d[n:])]
            return r
        r.d = [mval(c, a, b) for a, b in zip(x.d, y.d)]
        for k, v in y.prov.items():
            r.prov.setdefault(k, v)
    else:
        d = {}
        for k in x.d:
            if k in y.d:
                d[k] = mval(c, x.d[k], y.d[k])
            else:
                d[k] = mval(c, x.d[k], UNDEF)
        for k in y.d:
            if k not in x.d:
                d[k] = mval(c, UNDEF, y.d[k])
        r.d = d
        for k, v in y.prov.items():
            r.prov.setdefault(k, v)
    for k in set(x.x) | set(y.x):
        if x.x.get(k) != y.x.get(k):
            a, b = x.x.get(k), y.x.get(k)
            if isinstance(a, (bool, int, float, E)) and isinstance(b, (bool, int, float, E)):
                r.x[k] = ite(c, a, b)
            elif k == 'len' or k == 'pos':
                return Cont('mixed', x.cls, None, {'c': c, 'a': x, 'b': y}, tok)
    return r


class Program:
    def __init__(self, tus):
        self.tus = tus
        self.funcs = {}
        self.byq = {}
        order = sorted(tus, key=lambda f: (0 if '/core/' in f else 1, f))
        for f in order:
            tu = tus[f]
            tu['path'] = f
            tu['recn'] = {}
            tu['fieldcache'] = {}
            for u, r in tu['records'].items():
                r['u'] = u
                tu['recn'].setdefault(r['n'], r)
            for u, fn in tu['funcs'].items():
                fn['tu'] = f
                self.funcs.setdefault(u, (f, fn))
                self.byq.setdefault(fn['q'], [])
                if not any(u == x[1]['u'] and fn['l'] == x[1]['l'] for x in self.byq[fn['q']]):
                    self.byq[fn['q']].append((f, fn))
        self.globals = {}
        for f in order:
            for gid, g in tus[f]['globals'].items():
                if 'init' in g or g['n'] not in self.globals:
                    if g.get('ext') and g['n'] in self.globals and 'init' in self.globals[g['n']][1]:
                        continue
                    self.globals[g['n']] = (f, g)

    def plugins(self):
        """{library name: files} of the shared libraries of the build"""
        if not hasattr(self, '_plug'):
            self._plug = {}
            for f, tu in self.tus.items():
                if f.startswith('sources/plugins/'):
                    for t in tu.get('targets', []):
                        self._plug.setdefault(t, []).append(f)
        return self._plug

    def cnames(self):
        """{link name: qualified names} of the functions with C linkage"""
        if not hasattr(self, '_cn'):
            self._cn = {}
            for q, L in self.byq.items():
                if any(x[1].get('C') for x in L):
                    self._cn.setdefault(q.split('::')[-1], []).append(q)
        return self._cn

    def find(self, tu, u):
        fn = self.tus[tu]['funcs'].get(u)
        if fn is not None:
            return Fn(tu, fn)
        x = self.funcs.get(u)
        if x is not None:
            return Fn(x[0], x[1])
        return None

    def rec(self, tu, name):
        r = self.tus[tu]['recn'].get(name)
        if r is not None:
            return tu, r
        for f, t in self.tus.items():
            if '/core/' in f and name in t['recn']:
                return f, t['recn'][name]
        for f, t in self.tus.items():
            if name in t['recn']:
                return f, t['recn'][name]
        return None

    def ty(self, tu, i):
        return self.tus[tu]['types'][i]

    def derived(self, tu, name, base):
        """is class `name` (seen from tu) derived from `base`?"""
        if name == base:
            return True
        r = self.rec(tu, name)
        if not r:
            return False
        return any('n' in b and self.derived(r[0], b['n'], base) for b in r[1]['b'])

    def allfields(self, tu, name):
        r = self.rec(tu, name)
        if not r:
            return []
        out = []
        for b in r[1]['b']:
            if 'n' in b:
                out += self.allfields(r[0], b['n'])
        for f in r[1]['f']:
            out.append((r[0], r[1]['n'], f))
        return out

    def resolve(self, tu, cls, u):
        """Most-derived override of method u for dynamic class cls."""
        r = self.rec(tu, cls)
        if not r:
            return None
        tu2, rec = r
        for m in rec['m']:
            if m['u'] == u or u in self.overridden(tu2, m):
                return tu2, m
        for b in rec['b']:
            if 'n' in b:
                x = self.resolve(tu2, b['n'], u)
                if x:
                    return x
        return None

    def overridden(self, tu, m, seen=None):
        out = set()
        for u in m.get('ov', []):
            out.add(u)
            for t in (self.tus[tu],):
                for r in t['records'].values():
                    for mm in r['m']:
                        if mm['u'] == u:
                            out |= self.overridden(tu, mm)
        return out


class Frame:
    def __init__(self, tu, fn, this=None):
        self.tu, self.fn, self.this = tu, fn, this
        self.env = {}
        self.exits = []


STREAMS_O = ('std::basic_ostream', 'std::basic_ofstream', 'std::basic_ostringstream')
STREAMS_I = ('std::basic_istream', 'std::basic_ifstream', 'std::basic_istringstream')
VIEWS = ('Eigen::Map', 'Eigen::Ref', 'Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Transpose', 'Eigen::ArrayWrapper', 'Eigen::Diagonal')
WS = ' \t\n\r\f\v'


class Pick:
    """the element of an object whose number is cands[k], k not known"""
    __slots__ = ('k', 'cands')

    def __init__(self, k, cands):
        self.k, self.cands = k, cands


class Interp:
    console = False     # keep what is printed on the standard streams
    MAXITER = 4000
    SYMITER = 3

    def __init__(self, prog):
        self.P = prog
        self.events = []      # (kind, message, loc, pc)
        self.nobj = [0]
        self.depth = 0
        self.sarr_min = 300000   # larger arrays are kept as functions of the index
        self.hooks = {}       # qualified name -> python model (overrides the body)
        self.ctorhooks = {}   # class name (without template arguments) -> python model of its constructors
        self.rechooks = []    # list of f(interp, S, fr, node, fref, objloc, args) -> value or NotImplemented
        self.assume = {}      # id of condition graph -> bool
        self.assumef = None
        self.steps = 0
        self.omp = None       # race.Watch: notes the accesses of parallel iterations
        self.curloc = ''
        self.maxsteps = 3000000
        self.analysed = {}    # function l -> q (what was analysed)
        self.globs = {}
        self.unknown_calls = {}
        self.gstate = None
        self.stores = []
        self.trace_undef = True
        self.strict = False
        self.calls = []       # (caller loc, callee qualified, args) when tracing is on
        self.trace_calls = None
        self.env = None       # process environment; None: unknown
        self.dlopened, self.dlsyms, self.dlfail, self.dlgot = [], [], False, []
        self.dl_ok = lambda path: True
        self.dl_lib = libname
        self.stub = None      # model of functions called through pointers
        self.dl_has = lambda path, symbol: True

    # ---------- objects
    def oid(self):
        self.nobj[0] += 1
        return self.nobj[0]

    def alloc(self, S, kind, cls, d, **x):
        o = self.oid()
        S.mem[o] = Cont(kind, cls, d, x, S.token)
        return Loc(o)

    def event(self, kind, msg, loc, S=None):
        self.events.append((kind, msg, loc, S.pc if S is not None else ()))

    def ty(self, fr, i):
        return self.P.ty(fr.tu if isinstance(fr, Frame) else fr, i)

    def mkstr(self, S, s):
        return self.alloc(S, 'str', 'std::string', [s])

    def mkmat(self, S, data, rows, cols, cls='Eigen::Matrix'):
        return self.alloc(S, 'mat', cls, list(data), rows=rows, cols=cols)

    def new_of_type(self, S, tu, ti, init='undef'):
        """Fresh storage of a type.  -> Loc of the storage (cell: key 'v')."""
        t = self.P.ty(tu, ti)
        c = t['c']
        if t.get('ref'):
            c = 'ptr'
        if c in ('int', 'enum', 'bool', 'float', 'ptr', 'fn', 'void', 'other'):
            v = UNDEF if init == 'undef' else self.zero(t)
            o = self.alloc(S, 'cell', t['s'], {'v': v})
            return Loc(o.o, 'v')
        if c == 'arr':
            n = t.get('n')
            if n is None:
                raise Unsupported('array of unknown bound')
            return self.new_array(S, tu, t['p'], n, init)
        if c == 'rec':
            return self.new_rec(S, tu, t, init)
        raise Unsupported('type ' + t['s'])

    def new_array(self, S, tu, et, n, init='undef', **x):
        t = self.P.ty(tu, et)
        if not isinstance(n, int):
            a = self.alloc(S, 'sarr', t['s'], {}, len=n, name='arr%d' % self.nobj[0], init=init, **x)
            return a
        if n > self.sarr_min or n < 0:
            if n < 0:
                raise Unsupported('array of negative size')
            return self.alloc(S, 'sarr', t['s'], {}, len=n, name='arr%d' % self.nobj[0], init=init, **x)
        if t['c'] in ('int', 'enum', 'bool', 'float', 'ptr', 'fn'):
            v = UNDEF if init == 'undef' else self.zero(t)
            return self.alloc(S, 'arr', t['s'], [v] * n, **x)
        els = [self.new_of_type(S, tu, et, init) for _ in range(n)]
        return self.alloc(S, 'arr', t['s'], els, **x)

    def zero(self, t):
        c = t['c']
        if c == 'float':
            return 0.0
        if c == 'bool':
            return False
        if c == 'ptr' or c == 'fn':
            return NULL
        return 0

    def new_rec(self, S, tu, t, init='undef'):
        r = t.get('r', '')
        if r in ('std::vector',):
            return self.alloc(S, 'vector', t['s'], [], tu=tu, et=t['a'][0]['t'])
        if r.startswith('std::basic_string') and 'stream' not in r and r != 'std::basic_stringbuf':
            return self.mkstr(S, '')
        if r in ('std::map', 'std::unordered_map'):
            return self.alloc(S, 'map', t['s'], {}, tu=tu, vt=t['a'][1]['t'], kt=t['a'][0]['t'])
        if r in ('std::set', 'std::list', 'std::deque'):
            return self.alloc(S, 'vector', t['s'], [], tu=tu, et=t['a'][0]['t'])
        if r in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
            return self.alloc(S, 'sptr', t['s'], {'p': NULL})
        if r in ('Eigen::Matrix', 'Eigen::Array'):
            rows, cols = t['a'][1].get('i'), t['a'][2].get('i')
            n = 0
            rr, cc = rows, cols
            if rows == -1:
                rr = 0
            if cols == -1:
                cc = 0
            if cols == 1 and rows == -1:
                cc = 1
            return self.alloc(S, 'mat', t['s'], [UNDEF] * (rr * cc), rows=rr, cols=cc)
        if r in STREAMS_O or r in ('std::basic_stringstream',):
            return self.alloc(S, 'ostr', t['s'], [], name=r, prec=6)
        if r in STREAMS_I:
            return self.alloc(S, 'istr', t['s'], [], pos=(0, 0), fail=False, eof=False)
        if r == 'std::array' and t.get('a') and isinstance(t['a'][1].get('i'), int):
            L = self.new_array(S, tu, t['a'][0]['t'], t['a'][1]['i'], init)
            S.mem[L.o].x['std'] = 'array'
            return L
        if r == 'std::function':
            return self.alloc(S, 'fnobj', t['s'], {'v': None})
        if r == 'std::tuple':
            return self.alloc(S, 'tuple', t['s'], [self.field_init(S, tu, a['t'], init) for a in self.packargs(t['a'])])
        import libmodel
        if r.split("<")[0] in libmodel.stdops():
            return self.alloc(S, 'stdop', t['s'], None, q=r.split('<')[0])
        if r in ('std::pair',):
            a = t['a']
            return self.alloc(S, 'rec', t['s'], {'std::pair::first': self.field_init(S, tu, a[0]['t'], init),
                                                 'std::pair::second': self.field_init(S, tu, a[1]['t'], init)}, cn='std::pair', tu=tu)
        rec = self.P.rec(tu, r)
        if rec is None:
            return self.alloc(S, 'opaque', t['s'], None, r=r)
        d = {}
        for (ftu, owner, f) in self.P.allfields(tu, r):
            d[owner + '::' + f['n']] = self.field_init(S, ftu, f['t'], init)
        return self.alloc(S, 'rec', t['s'], d, cn=r, tu=rec[0])

    def packargs(self, a):
        return [x for y in a for x in (y['p'] if 'p' in y and isinstance(y['p'], list) else [y]) if 't' in x]

    def field_init(self, S, tu, ti, init):
        t = self.P.ty(tu, ti)
        if t.get('ref') or t['c'] in ('int', 'enum', 'bool', 'float', 'ptr', 'fn', 'other', 'void'):
            return UNDEF if init == 'undef' else self.zero(t)
        return self.new_of_type(S, tu, ti, init)

    # ---------- load / store
    def load(self, S, L, loc=None):
        if isinstance(L, Gated):
            return mval(L.c, self.load(S, L.a, loc), self.load(S, L.b, loc))
        if not isinstance(L, Loc):
            raise Unsupported('load through %r' % (L,))
        if L.o == 0:
            self.event('null-deref', 'dereference of a null pointer', loc, S)
            raise Dead()
        c = S.get(L.o)
        if L.k is None:
            if c.kind == 'cell':
                return c.d['v']
            return L
        return self.elem(S, c, L, loc)

    def elem(self, S, c, L, loc):
        k = L.k
        if c.kind == 'mixed':
            a = self.elem(S, c.x['a'], L, loc)
            b = self.elem(S, c.x['b'], L, loc)
            return mval(c.x['c'], a, b)
        if c.kind == 'view':
            base, idxs = c.x['base'], c.x['idx']
            if isinstance(k, int):
                if not 0 <= k < len(idxs):
                    self.event('oob', 'index %d outside a view of %d elements' % (k, len(idxs)), loc, S)
                    return UNDEF
                return self.elem(S, S.get(base), Loc(base, idxs[k]), loc)
            return self.sel([self.elem(S, S.get(base), Loc(base, i), loc) for i in idxs], k, loc, S)
        if c.kind == 'sarr':
            return self.sarr_load(S, c, k, loc)
        if isinstance(k, Pick):
            return self.sel([self.elem(S, c, Loc(L.o, i), loc) for i in k.cands], k.k, loc, S)
        if isinstance(c.d, list):
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if not 0 <= k < len(c.d):
                    self.event('oob', 'read at index %d of %d elements' % (k, len(c.d)), loc, S)
                    return UNDEF
                return c.d[k]
            return self.sel(c.d, k, loc, S)
        if k in c.d:
            return c.d[k]
        if k == 0 and 'v' in c.d:
            return c.d['v']
        raise Unsupported('no element %r in %s %s' % (k, c.kind, c.cls))

    def sel(self, vals, k, loc, S):
        if not isinstance(k, E):
            raise Unsupported('index %r' % (k,))
        if len(vals) > 128:
            raise Unsupported('symbolic index in a large array')
        self.event('symindex', (k, len(vals)), loc, S)
        if not vals:
            return UNDEF
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = mval(cmp('==', k, i), vals[i], r)
        return r

    def sarr_load(self, S, c, k, loc):
        if c.x.get('len') is not None:
            self.event('symindex', (k, c.x['len']), loc, S)
        return self.sarr_at(S, c.x, k, len(c.x.get('writes', ())))

    def sarr_at(self, S, x, k, n):
        """element k of a large array as its first n writes leave it"""
        ws = x.get('writes', ())
        while n:
            n -= 1
            w = ws[n]
            if isinstance(w[0], str):        # elements [lo, hi) are those of another array, shifted
                _, lo, hi, src, sh = w
                c = self.decide(and_(cmp('<=', lo, k), cmp('<', k, hi)), S)
                if c is False:
                    continue
                v = src(self, S, self.addint(k, sh))
            else:
                kk, v = w
                if same(kk, k):
                    return v
                if isnum(kk) and isnum(k):
                    continue
                c = self.decide(cmp('==', kk, k), S)
                if c is False:
                    continue
            if c is True:
                return v
            return mval(c, v, self.sarr_at(S, x, k, n))
        if x.get('init') == 'zero':
            return 0.0
        if x.get('init') == 'undef':
            return UNDEF
        if x.get('init') == 'fill':
            return x['fill']
        return mk('sel', x['name'], k)

    @staticmethod
    def addint(k, d):
        return k if isnum(d) and d == 0 else (k + d if isnum(k) and isnum(d) else sym.add(k, d))

    def sarr_block(self, x):
        """the present content of a large array, as a function of the index"""
        x = dict(x)
        n = len(x.get('writes', ()))
        return lambda I, S, k: I.sarr_at(S, x, k, n)

    def store_char(self, S, at, v, loc):
        o, i = at
        c = S.get(o)
        if c.kind != 'str':
            return
        t = c.d[0]
        if not isinstance(t, str) or not isinstance(v, int) or not 0 <= i < len(t):
            raise Unsupported('character of a text')
        S.w(o).d[0] = t[:i] + chr(v & 255) + t[i + 1:]

    def store(self, S, L, v, loc=None):
        if isinstance(L, Gated):
            a = self.load(S, L.a)
            b = self.load(S, L.b)
            self.store(S, L.a, mval(L.c, v, a), loc)
            self.store(S, L.b, mval(L.c, b, v), loc)
            return
        if not isinstance(L, Loc):
            raise Unsupported('store through %r' % (L,))
        if L.o == 0:
            self.event('null-deref', 'store through a null pointer', loc, S)
            raise Dead()
        c = S.w(L.o)
        k = L.k
        if c.kind == 'cell' and 'strel' in c.x:
            self.store_char(S, c.x['strel'], v, loc)
        if k is None:
            if c.kind == 'cell':
                c.d['v'] = v
                c.prov['v'] = loc
                return
            raise Unsupported('whole-object store to ' + c.kind)
        if c.kind == 'view':
            base, idxs = c.x['base'], c.x['idx']
            if isinstance(k, int):
                if not 0 <= k < len(idxs):
                    self.event('oob', 'write at index %d of a view of %d elements' % (k, len(idxs)), loc, S)
                    return
                return self.store(S, Loc(base, idxs[k]), v, loc)
            for i, b in enumerate(idxs):
                old = self.load(S, Loc(base, b))
                self.store(S, Loc(base, b), mval(cmp('==', k, i), v, old), loc)
            return
        if c.kind == 'sarr':
            if c.x.get('len') is not None:
                self.event('symindex', (k, c.x['len']), loc, S)
            c.x['writes'] = tuple(c.x.get('writes', ())) + ((k, v),)
            return
        if isinstance(k, Pick):
            self.event('symindex', (k.k, len(k.cands)), loc, S)
            for i, b in enumerate(k.cands):
                self.store(S, Loc(L.o, b), mval(cmp('==', k.k, i), v, self.elem(S, S.get(L.o), Loc(L.o, b), loc)), loc)
            return
        if isinstance(c.d, list):
            if isinstance(k, bool):
                k = int(k)
            if isinstance(k, int):
                if not 0 <= k < len(c.d):
                    self.event('oob', 'write at index %d of %d elements' % (k, len(c.d)), loc, S)
                    return
                c.d[k] = v
                c.prov[k] = loc
                return
            if isinstance(k, E):
                if len(c.d) > 128:
                    raise Unsupported('symbolic store index in a large array')
                self.event('symindex', (k, len(c.d)), loc, S)
                for i in range(len(c.d)):
                    c.d[i] = mval(cmp('==', k, i), v, c.d[i])
                    c.prov[i] = loc
                return
            raise Unsupported('store key %r' % (k,))
        if k == 0 and 'v' in c.d and 0 not in c.d:
            k = 'v'
        c.d[k] = v
        c.prov[k] = loc

    def copy_obj(self, S, L, loc=None, ref=False):
        """Deep copy of an object; -> Loc of the copy."""
        if isinstance(L, Gated):
            A = self.copy_obj(S, L.a)
            B = self.copy_obj(S, L.b)
            o = self.oid()
            S.mem[o] = mcont(L.c, S.get(A.o), S.get(B.o), S.token)
            return Loc(o)
        if L.o == 0:
            self.event('null-deref', 'copy through a null pointer', loc, S)
            raise Dead()
        if L.k is not None:
            v = self.load(S, L, loc)
            if isinstance(v, Loc) and v.k is None and v.o:
                return self.copy_obj(S, v)
            raise Unsupported('copy of a non-object %r %s at %s' % (v, S.get(L.o).kind, loc))
        c = S.get(L.o)
        if c.kind == 'view':
            if ref:
                o = self.oid()
                S.mem[o] = c.clone(S.token)
                return Loc(o)
            vals = [self.load(S, Loc(c.x['base'], i)) for i in c.x['idx']]
            return self.mkmat(S, vals, c.x['rows'], c.x['cols'])
        n = c.clone(S.token)
        o = self.oid()
        S.mem[o] = n
        if c.kind in ('rec', 'arr', 'vector', 'map'):
            it = list(n.d.items()) if isinstance(n.d, dict) else list(enumerate(n.d))
            for k, v in it:
                if isinstance(v, Loc) and v.k is None and v.o and self.owned(S, c, k, v):
                    n.d[k] = self.copy_obj(S, v)
        return Loc(o)

    def owned(self, S, c, k, v):
        """Is the Loc stored in this slot a sub-object (not a pointer)?"""
        if c.kind == 'rec':
            t = self.fieldtype(c, k)
            return t is not None and t['c'] in ('rec', 'arr') and not t.get('ref')
        if c.kind == 'vector':
            t = self.P.ty(c.x['tu'], c.x['et'])
            return t['c'] == 'rec'
        if c.kind == 'map':
            t = self.P.ty(c.x['tu'], c.x['vt'])
            return t['c'] == 'rec'
        if c.kind == 'arr':
            return '*' not in c.cls
        return False

    def fieldtype(self, c, key):
        if c.x.get('cn') == 'std::pair':
            v = c.d.get(key)
            return {'c': 'rec'} if isinstance(v, Loc) and v.k is None else None
        tu = c.x.get('tu')
        cache = self.P.tus[tu]['fieldcache']
        if c.x['cn'] not in cache:
            cache[c.x['cn']] = {o + '::' + f['n']: self.P.ty(ftu, f['t']) for ftu, o, f in self.P.allfields(tu, c.x['cn'])}
        return cache[c.x['cn']].get(key)

    def assign_obj(self, S, D, src, loc=None):
        if isinstance(src, Gated):
            src = self.copy_obj(S, src)
        if D.k is not None:
            v = self.load(S, D, loc)
            if isinstance(v, Loc) and v.k is None and v.o:
                D = v
            else:
                raise Unsupported('assignment to a non-object')
        if src.k is not None:
            src = self.load(S, src, loc)
        if D.o == src.o:
            return
        cs = S.get(src.o)
        cd = S.get(D.o)
        if cd.kind == 'view':
            vals = self.matvals(S, src)
            if len(vals) != len(cd.x['idx']):
                self.event('shape', 'assignment of %d values to a view of %d' % (len(vals), len(cd.x['idx'])), loc, S)
            for i, v in zip(range(len(cd.x['idx'])), vals):
                self.store(S, Loc(D.o, i), v, loc)
            return
        if cs.kind == 'view':
            vals = self.matvals(S, src)
            c = S.w(D.o)
            c.kind, c.d = 'mat', vals
            c.x['rows'], c.x['cols'] = cs.x['rows'], cs.x['cols']
            c.prov = {i: loc for i in range(len(vals))}
            return
        if cd.kind == 'rec' and cs.kind == 'rec':
            c = S.w(D.o)
            for k, v in list(cs.d.items()):
                if k not in c.d:
                    continue
                if isinstance(v, Loc) and v.k is None and v.o and self.owned(S, cs, k, v):
                    if isinstance(c.d[k], Loc) and c.d[k].o:
                        self.assign_obj(S, c.d[k], v, loc)
                        c = S.w(D.o)
                    else:
                        c.d[k] = self.copy_obj(S, v)
                else:
                    c.d[k] = v
                    c.prov[k] = loc
            return
        cp = self.copy_obj(S, src)
        n = S.mem[cp.o].clone(S.token)
        if n.kind == 'mat' and loc:
            n.prov = {i: n.prov.get(i, loc) for i in range(len(n.d))}
        n.x = dict(n.x)
        S.mem[D.o] = n

    # ---------- strings
    def sval(self, S, L):
        """Python string held by a std::string object or char pointer."""
        if isinstance(L, str):
            return L
        if isinstance(L, Gated):
            return Gated(L.c, self.sval(S, L.a), self.sval(S, L.b))
        if isinstance(L, Loc):
            if L.o == 0:
                raise Unsupported('null string')
            if L.k is not None and S.get(L.o).kind not in ('str', 'lit'):
                c = S.get(L.o)
                if isinstance(c.d, list) and isinstance(L.k, int) and c.kind == 'arr' and not isinstance(c.d[L.k], (Loc, Gated)):
                    s = ''
                    for v in c.d[L.k:]:
                        if isinstance(v, int):
                            if v == 0:
                                break
                            s += chr(v & 255)
                        else:
                            raise Unsupported('symbolic char array')
                    return s
                v = self.load(S, L)
                if isinstance(v, (Loc, Gated)) and v is not L:
                    return self.sval(S, v)
                raise Unsupported('string value %r %s %r' % (L, c.kind, v))
            c = S.get(L.o)
            if c.kind in ('str', 'lit'):
                v = c.d[0]
                if L.k and isinstance(v, str):
                    v = v[L.k:]
                return v
            if c.kind == 'mixed':
                return Gated(c.x['c'], c.x['a'].d[0], c.x['b'].d[0])
            if c.kind == 'cell' and isinstance(c.d['v'], Loc):
                return self.sval(S, c.d['v'])
        raise Unsupported('string value of %r' % (L,))

    # ---------- matrices
    def matvals(self, S, L):
        c = self.matc(S, L)
        if c.kind == 'view':
            return [self.load(S, Loc(c.x['base'], i)) for i in c.x['idx']]
        return list(c.d)

    def matc(self, S, L):
        if isinstance(L, Loc) and L.k is not None:
            L = self.load(S, L)
        if not isinstance(L, Loc) or L.o == 0:
            raise Unsupported('matrix value %r' % (L,))
        c = S.get(L.o)
        if c.kind not in ('mat', 'view'):
            raise Unsupported('not a matrix: ' + c.kind + ' ' + str(c.cls))
        return c

    # ---------- running functions
    def run(self, fn, this, args, S, loc=None, tu=None):
        """Analyse a function body on abstract arguments.  args are values:
        scalars, or Loc for references / class objects.  -> return value."""
        node = fn.node
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Unsupported('call depth at ' + node['q'])
        self.analysed[node['l']] = node['q']
        fr = Frame(fn.tu, node, this)
        if isinstance(getattr(fn, 'lam', None), Lam):
            fr.env.update(fn.lam.env)
        try:
            args = list(args)
            for p in node['p'][len(args):]:
                if 'dv' not in p:
                    raise Unsupported('missing argument %s of %s' % (p['n'], node['q']))
                args.append(self.ev(p['dv'], S, fr))
            for p, a in zip(node['p'], args):
                t = self.ty(fr, p['t'])
                if t.get('ref'):
                    if not isinstance(a, (Loc, Gated)):
                        cl = self.alloc(S, 'cell', t['s'], {'v': a})
                        a = Loc(cl.o, 'v')
                    fr.env[p['d']] = a
                elif t['c'] in ('rec',):
                    fr.env[p['d']] = a
                else:
                    cl = self.alloc(S, 'cell', t['s'], {'v': a})
                    fr.env[p['d']] = Loc(cl.o, 'v')
            pc0 = S.pc
            try:
                if node.get('ctor'):
                    self.run_inits(S, fr, node)
                alive = self.ex(node['b'], S, fr)
            except Dead:
                alive = False
            rets = [(s, v) for k, s, v in fr.exits if k == 'ret']
            throws = [(k, s, v) for k, s, v in fr.exits if k in ('throw', 'abort')]
            if alive:
                last = State(S.mem, S.pc)
                rt = self.ty(fr, node['rt'])
                v = None
                if rt['c'] != 'void' and not node.get('ctor') and not node.get('dtor') and node['n'] != 'main':
                    self.event('noreturn', 'control reaches the end of %s without a value' % node['q'], node['le'], S)
                    v = UNDEF
                rets.append((last, v))
            self.pending_throws = throws
            if not rets:
                S.dead = True
                return ('noret', throws)
            acc, val = rets[-1]
            for s, v in reversed(rets[:-1]):
                c = True
                for x in s.pc[len(pc0):]:
                    c = and_(c, x)
                if c is True:
                    acc, val = s, v
                    continue
                if c is False:
                    continue
                acc = merge(c, s, acc, pc0)
                val = self.mret(c, v, val, acc)
            S.become(acc)
            S.pc = pc0
            return ('ret', val, throws)
        finally:
            self.depth -= 1

    def mret(self, c, a, b, S):
        if isinstance(a, Loc) and isinstance(b, Loc) and a.k is None and b.k is None and a.o in S.mem and b.o in S.mem and a.o != b.o:
            ca, cb = S.mem[a.o], S.mem[b.o]
            if ca.kind in ('mat', 'str', 'vector', 'rec', 'view', 'mixed') and ca.x.get('tmp') and cb.x.get('tmp'):
                if ca.kind == 'rec':
                    return Gated(c, a, b)
                o = self.oid()
                S.mem[o] = mcont(c, ca, cb, S.token)
                S.mem[o].x['tmp'] = True
                return Loc(o)
        return mval(c, a, b)

    def run_inits(self, S, fr, node):
        for i in node.get('inits', []):
            loc = i.get('l') or node['l']
            if 'deleg' in i:
                self.ctor_into(S, fr, i['e'], fr.this)
            elif 'base' in i:
                e = i['e']
                if e and e['k'] == 'ctor':
                    self.ctor_into(S, fr, e, fr.this)
            else:
                this = S.get(fr.this.o)
                owner = node['r']
                key = owner + '::' + i['field']
                if key not in this.d:
                    continue
                t = self.fieldtype(this, key)
                if t is None:
                    continue
                if t.get('ref'):
                    v = self.ev(i['e'], S, fr)
                    S.w(fr.this.o).d[key] = v
                elif t['c'] in ('rec', 'arr'):
                    sub_ = this.d[key]
                    self.init_into(S, fr, i['e'], sub_, loc)
                else:
                    v = self.ev(i['e'], S, fr)
                    c = S.w(fr.this.o)
                    c.d[key] = v
                    c.prov[key] = loc

    def init_into(self, S, fr, e, L, loc=None):
        """Initialise the class/array storage L from expression e."""
        if e is None:
            return
        k = e['k']
        if k == 'ctor' and not (e['f'].get('copy') and not self.user_ctor(fr, e)):
            self.ctor_into(S, fr, e, L)
            return
        if k == 'zero':
            return
        if k == 'list':
            c = S.get(L.o)
            if c.kind == 'arr' and c.x.get('std') and len(e['a']) == 1 and e['a'][0]['k'] == 'list':
                return self.init_into(S, fr, e['a'][0], L, loc)
            if c.kind == 'arr':
                et = None
                for i, a in enumerate(e['a']):
                    old = S.get(L.o).d[i]
                    if isinstance(old, Loc) and old.k is None and old.o:
                        self.init_into(S, fr, a, old, loc)
                    else:
                        self.store(S, Loc(L.o, i), self.ev(a, S, fr), loc)
                if 'fill' in e and e['fill']:
                    for i in range(len(e['a']), len(S.get(L.o).d)):
                        old = S.get(L.o).d[i]
                        if not (isinstance(old, Loc) and old.k is None and old.o):
                            self.store(S, Loc(L.o, i), self.ev(e['fill'], S, fr), loc)
                return
            if c.kind == 'rec':
                keys = list(c.d)
                for key, a in zip(keys, e['a']):
                    old = S.get(L.o).d[key]
                    if isinstance(old, Loc) and old.k is None and old.o:
                        self.init_into(S, fr, a, old, loc)
                    else:
                        S.w(L.o).d[key] = self.ev(a, S, fr)
                return
            if len(e['a']) == 1:
                return self.init_into(S, fr, e['a'][0], L, loc)
        if k == 'str' and S.get(L.o).kind == 'arr':
            s = e['v']
            c = S.w(L.o)
            for i in range(len(c.d)):
                c.d[i] = ord(s[i]) if i < len(s) else 0
            return
        v = self.ev(e, S, fr)
        if isinstance(v, (Loc, Gated)):
            self.assign_obj(S, L, v, loc or e.get('l'))
            return
        if isinstance(v, tuple):
            S.mem[L.o] = Cont('cell', 'pos', {'v': v}, {}, S.token)
            return
        raise Unsupported('initialiser %s at %s' % (k, e.get('l')))

    def user_ctor(self, fr, e):
        f = e['f']
        if not f.get('in'):
            return None
        fn = self.P.find(fr.tu, f['u'])
        if fn is None or fn.node.get('def') or fn.node.get('impl'):
            return None
        return fn

    def ctor_into(self, S, fr, e, L):
        f = e['f']
        cls = f['q']
        t = self.ty(fr, e['t']) if 't' in e else {}
        if t.get('c') == 'arr' and L.k is None and S.get(L.o).kind == 'arr':
            # an array of objects: each is constructed
            for x in list(S.get(L.o).d):
                if isinstance(x, Loc) and x.o:
                    self.ctor_into(S, fr, dict(e, t=t['p']), x)
            return
        if f.get('in'):
            fn = self.P.find(fr.tu, f['u'])
            if f.get('copy') and (fn is None or fn.node.get('def') or fn.node.get('impl')):
                src = self.ev(e['a'][0], S, fr)
                self.assign_obj(S, L, src, e['l'])
                return
            if fn is None:
                if e.get('zi') or f.get('dflt'):
                    self.default_fields(S, L, zero=e.get('zi'))
                    return
                raise Unsupported('constructor without a body: ' + f['q'])
            if e.get('zi'):
                self.default_fields(S, L, zero=True)
            args = self.evargs(e['a'], f, S, fr)
            r = self.run(fn, L, args, S, e['l'])
            self.after(S, fr, r)
            return
        self.lib_ctor(S, fr, e, L)

    def default_fields(self, S, L, zero=False):
        c = S.w(L.o)
        if c.kind != 'rec' or not c.x.get('tu'):
            return
        for (ftu, owner, f) in self.P.allfields(c.x['tu'], c.x['cn']):
            k = owner + '::' + f['n']
            v = c.d.get(k)
            if 'init' in f:
                fr = Frame(ftu, {'q': owner, 'l': f['l'], 'n': ''}, L)
                t = self.P.ty(ftu, f['t'])
                if t['c'] in ('rec', 'arr'):
                    self.init_into(S, fr, f['init'], v)
                else:
                    S.w(L.o).d[k] = self.ev(f['init'], S, fr)
            elif zero and not (isinstance(v, Loc) and v.k is None and v.o):
                S.w(L.o).d[k] = self.zero(self.P.ty(ftu, f['t']))

    def after(self, S, fr, r):
        """Handle the outcome of a call in the caller's frame."""
        throws = r[-1]
        for k, s, v in throws:
            fr.exits.append((k, s, v))
        if r[0] == 'noret':
            raise Dead()
        return r[1]

    def evargs(self, nodes, f, S, fr):
        out = []
        for i, a in enumerate(nodes):
            pt = None
            if i < len(f.get('p', ())):
                pt = self.ty(fr, f['p'][i])
            out.append(self.evarg(a, pt, S, fr))
        return out

    def evarg(self, a, pt, S, fr):
        v = self.ev(a, S, fr)
        at = self.ty(fr, a['t']) if 't' in a and a['t'] >= 0 else {'c': ''}
        if pt is not None and not pt.get('ref') and pt['c'] == 'rec' and isinstance(v, (Loc, Gated)) and a['k'] not in ('ctor', 'call', 'mat'):
            return self.copy_obj(S, v)
        return v

    # ---------- statements
    def ex(self, s, S, fr):
        """-> True if control falls through (S updated in place)."""
        if s is None:
            return True
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('analysis budget exhausted')
        if self.omp is not None and 'l' in s:
            self.curloc = s['l']
        try:
            return getattr(self, 'x_' + s['k'])(s, S, fr)
        except Dead:
            S.dead = True
            return False

    def x_expr(self, s, S, fr):
        self.ev(s['e'], S, fr)
        return True

    def x_null(self, s, S, fr):
        return True

    def x_block(self, s, S, fr):
        for c in s['s']:
            if not self.ex(c, S, fr):
                return False
        return True

    def x_decl(self, s, S, fr):
        for v in s['v']:
            self.declare(v, S, fr)
        return True

    def declare(self, v, S, fr):
        t = self.ty(fr, v['t'])
        if v.get('static') or v.get('glob'):
            fr.env[v['d']] = self.global_loc(S, fr, v['d'])
            return
        init = v.get('init')
        if t.get('ref'):
            x = self.ev(init, S, fr)
            if not isinstance(x, (Loc, Gated)):
                cl = self.alloc(S, 'cell', t['s'], {'v': x})
                x = Loc(cl.o, 'v')
            fr.env[v['d']] = x
            return
        if t['c'] == 'arr' and 'n' not in t:
            if v.get('vla'):
                n = self.ev(v['vla'], S, fr)
                fr.env[v['d']] = self.new_array(S, fr.tu, t['p'], n)
                return
        if t['c'] in ('rec', 'arr'):
            while init is not None and init['k'] == 'ctor' and init.get('el'):
                init = init['a'][0]
            if init is not None and init['k'] == 'lambda':
                fr.env[v['d']] = self.ev(init, S, fr)
                return
            if init is not None and init['k'] in ('call', 'mat', 'cond', 'lambda') and t['c'] == 'rec':
                x = self.ev(init, S, fr)
                if isinstance(x, Gated):
                    x = self.copy_obj(S, x)
                if isinstance(x, Loc) and x.k is None and x.o:
                    if init.get('lv'):
                        x = self.copy_obj(S, x, ref=t.get('r') in VIEWS)
                    fr.env[v['d']] = x
                    S.w(x.o).x.pop('tmp', None)
                    return
                fr.env[v['d']] = x
                return
            L = self.new_of_type(S, fr.tu, v['t'])
            fr.env[v['d']] = L
            if init is not None:
                self.init_into(S, fr, init, L, v['l'])
            return
        L = self.new_of_type(S, fr.tu, v['t'])
        fr.env[v['d']] = L
        if init is not None:
            x = self.ev(init, S, fr)
            self.store(S, L, x, v['l'])

    def truth(self, v):
        if isinstance(v, (bool, int, float)):
            return bool(v)
        if isinstance(v, Loc):
            return v.o != 0
        if isinstance(v, E):
            if v.op == 'undef':
                return mk('undefb')
            if v.op in ('<', '<=', '==', '!=', 'not', 'and', 'or', 'var', 'ite', 'sel', 'undefb', 'isnan', 'isfinite', 'isinf') or v.op.startswith('b:'):
                return v
            return cmp('!=', v, 0)
        if isinstance(v, Gated):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, (Fn, Lam)):
            return True
        raise Unsupported('truth value of %r' % (v,))

    def cond(self, e, S, fr):
        c = self.truth(self.ev(e, S, fr))
        return self.decide(c, S)

    def decide(self, c, S):
        if not isinstance(c, E):
            return c
        if self.assumef is not None:
            r = self.assumef(c)
            if r is not None:
                return r
        for p in S.pc:
            if p is c:
                return True
            if isinstance(p, E) and p is not_(c):
                return False
        return c

    def x_if(self, s, S, fr):
        if s.get('init'):
            if not self.ex(s['init'], S, fr):
                return False
        if s.get('cv'):
            self.declare(s['cv'], S, fr)
        c = self.cond(s['c'], S, fr)
        if not isinstance(c, E):
            return self.ex(s['a'] if c else s.get('b'), S, fr)
        return self.branch(c, S, fr, lambda T: self.ex(s['a'], T, fr), lambda T: self.ex(s.get('b'), T, fr))

    def branch(self, c, S, fr, fa, fb):
        pc = S.pc
        A = S.fork(c)
        B = S.fork(not_(c))
        a = fa(A)
        b = fb(B)
        if a and b:
            S.become(merge(c, A, B, pc))
            return True
        if a:
            S.become(A)
            return True
        if b:
            S.become(B)
            return True
        S.dead = True
        return False

    def x_for(self, s, S, fr):
        if s.get('init') and not self.ex(s['init'], S, fr):
            return False
        return self.loop(S, fr, lambda T: self.cond(s['c'], T, fr) if s.get('c') else True, s['b'],
                         (lambda T: self.ev(s['inc'], T, fr)) if s.get('inc') else None, False, s['l'], s)

    def x_while(self, s, S, fr):
        return self.loop(S, fr, lambda T: self.cond(s['c'], T, fr), s['b'], None, False, s['l'])

    def x_do(self, s, S, fr):
        return self.loop(S, fr, lambda T: self.cond(s['c'], T, fr), s['b'], None, True, s['l'])

    def loop(self, S, fr, fcond, body, finc, postcond, loc, node=None):
        brks = []
        n = nsym = 0
        first = True
        while True:
            n += 1
            if n > self.MAXITER:
                raise Unsupported('loop bound at ' + loc)
            exit_state = None
            if not (postcond and first):
                try:
                    c = fcond(S)
                except Dead:
                    S.dead = True
                    c = None
                if c is None:
                    break
                if isinstance(c, E):
                    nsym += 1
                    if nsym > self.SYMITER:
                        raise Unsupported('loop with an unbounded symbolic condition at ' + loc)
                    ex_ = S.fork(not_(c))
                    brks.append(ex_)
                    S.pc = S.pc + (c,)
                elif not c:
                    brks.append(State(S.mem, S.pc))
                    S.dead = True
                    break
            first = False
            mark = len(fr.exits)
            if self.omp is not None:
                self.omp.iteration(node, S)
            alive = self.ex(body, S, fr)
            if self.omp is not None:
                self.omp.between(node, S)
            new = fr.exits[mark:]
            keep, conts = [], []
            for k, st, v in new:
                if k == 'brk':
                    brks.append(st)
                elif k == 'cont':
                    conts.append(st)
                else:
                    keep.append((k, st, v))
            fr.exits[mark:] = keep
            if conts:
                sts = conts + ([State(S.mem, S.pc)] if alive else [])
                S.become(self.joinall(sts))
                S.dead = False
                alive = True
            if not alive:
                S.dead = True
                break
            if finc:
                try:
                    finc(S)
                except Dead:
                    S.dead = True
                    break
        if not brks:
            S.dead = True
            return False
        S.become(self.joinall(brks))
        S.dead = False
        return True

    def joinall(self, sts):
        """Join states in chronological order; an earlier exit wins under its
        own path condition."""
        # common prefix of all path conditions
        n = min(len(s.pc) for s in sts)
        k = 0
        while k < n and all(s.pc[k] is sts[0].pc[k] for s in sts):
            k += 1
        pc = sts[0].pc[:k]
        acc = sts[-1]
        for s in reversed(sts[:-1]):
            c = True
            for x in s.pc[k:]:
                c = and_(c, x)
            if c is True:
                acc = s
            elif c is not False:
                acc = merge(c, s, acc, pc)
        r = acc.handoff()
        r.pc = pc
        return r

    def x_rfor(self, s, S, fr):
        r = self.ev(s['range'], S, fr)
        if isinstance(r, Loc) and r.k is not None:
            c0 = S.get(r.o)
            if c0.kind in ('arr', 'cell') and isinstance(r.k, int):
                r = Loc(r.o)
            else:
                r = self.load(S, r)
        c = S.get(r.o)
        if c.kind in ('vector', 'arr', 'mat'):
            keys = [Loc(r.o, i) for i in range(len(c.d))]
        elif c.kind == 'list':
            keys = [Loc(r.o, i) for i in range(len(c.d))]
        elif c.kind == 'map':
            keys = []
            for k in sorted(c.d):
                keys.append(self.map_pair(S, r, k))
        elif c.kind in ('str', 'lit') and isinstance(c.d[0], str):
            keys = []
            for i, ch in enumerate(c.d[0]):
                keys.append(Loc(self.alloc(S, 'cell', 'char', {'v': ord(ch)}, strel=(r.o, i)).o, 'v'))
            if c.kind == 'lit':
                keys.append(Loc(self.alloc(S, 'cell', 'char', {'v': 0}).o, 'v'))
        else:
            raise Unsupported('range-for over ' + c.kind)
        it = iter(keys)
        v = s['v']
        t = self.ty(fr, v['t'])

        def fcond(T):
            try:
                L = next(it)
            except StopIteration:
                return False
            val = self.load(T, L)
            if t.get('ref') or t['c'] == 'rec':
                if isinstance(val, Loc) and val.k is None and val.o and T.get(val.o).kind != 'cell':
                    fr.env[v['d']] = val if t.get('ref') else self.copy_obj(T, val)
                else:
                    fr.env[v['d']] = L
            else:
                cl = self.alloc(T, 'cell', t['s'], {'v': val})
                fr.env[v['d']] = Loc(cl.o, 'v')
            return True
        return self.loop(S, fr, fcond, s['b'], None, False, s['l'])

    def map_pair(self, S, m, k):
        c = S.get(m.o)
        key = self.mkstr(S, k) if isinstance(k, str) else k
        return self.alloc(S, 'rec', 'std::pair', {'std::pair::first': key, 'std::pair::second': c.d[k]}, cn='std::pair', tu=None, mapof=(m.o, k))

    def flat_cases(self, b):
        """switch body -> list of (labels, stmt)"""
        out = []

        def add_(st):
            labels = []
            while st is not None and st['k'] in ('case', 'default'):
                labels.append(None if st['k'] == 'default' else (st['v'], st.get('v2', st['v'])))
                st = st['s']
            out.append((labels, st))
        for st in (b['s'] if b['k'] == 'block' else [b]):
            add_(st)
        return out

    def x_switch(self, s, S, fr):
        if s.get('cv'):
            self.declare(s['cv'], S, fr)
        v = self.ev(s['c'], S, fr)
        items = self.flat_cases(s['b'])

        def run_from(i, T):
            for labels, st in items[i:]:
                if not self.ex(st, T, fr):
                    return False
            return True

        def finish(mark, alive, T):
            new = fr.exits[mark:]
            brks = [st for k, st, v_ in new if k == 'brk']
            fr.exits[mark:] = [x for x in new if x[0] != 'brk']
            if brks:
                sts = brks + ([State(T.mem, T.pc)] if alive else [])
                T.become(self.joinall(sts))
                T.dead = False
                return True
            return alive
        if isinstance(v, bool):
            v = int(v)
        dflt = next((i for i, (ls, st) in enumerate(items) if None in ls), None)
        if isinstance(v, int):
            at = next((i for i, (ls, st) in enumerate(items) if any(l is not None and l[0] <= v <= l[1] for l in ls)), dflt)
            if at is None:
                return True
            mark = len(fr.exits)
            alive = run_from(at, S)
            return finish(mark, alive, S)
        if isinstance(v, E):
            # one gate per label
            arms = [(l, i) for i, (ls, st) in enumerate(items) for l in ls if l is not None]

            def go(j, T):
                if j == len(arms):
                    if dflt is None:
                        return True
                    mark = len(fr.exits)
                    return finish(mark, run_from(dflt, T), T)
                l, i = arms[j]
                c = self.decide(cmp('==', v, l[0]), T)

                def hit(U):
                    mark = len(fr.exits)
                    return finish(mark, run_from(i, U), U)
                if not isinstance(c, E):
                    return hit(T) if c else go(j + 1, T)
                return self.branch(c, T, fr, hit, lambda U: go(j + 1, U))
            return go(0, S)
        raise Unsupported('switch value %r' % (v,))

    def x_case(self, s, S, fr):
        return self.ex(s['s'], S, fr)

    x_default = x_case

    def x_break(self, s, S, fr):
        fr.exits.append(('brk', S.handoff(), None))
        return False

    def x_continue(self, s, S, fr):
        fr.exits.append(('cont', S.handoff(), None))
        return False

    def x_return(self, s, S, fr):
        v = None
        if s.get('e'):
            e = s['e']
            rt = self.ty(fr, fr.fn['rt']) if 'rt' in fr.fn else {'c': ''}
            v = self.ev(e, S, fr)
            if not rt.get('ref') and rt['c'] == 'rec' and isinstance(v, (Loc, Gated)):
                if e.get('lv') or e['k'] in ('ref', 'mem'):
                    v = self.copy_obj(S, v, ref=rt.get('r') in VIEWS)
                if isinstance(v, Loc) and v.k is None and v.o in S.mem:
                    S.w(v.o).x['tmp'] = True
        fr.exits.append(('ret', State(S.mem, S.pc), v))
        S.newtoken()
        return False

    def x_try(self, s, S, fr):
        mark = len(fr.exits)
        alive = self.ex(s['b'], S, fr)
        new = fr.exits[mark:]
        thr = [x for x in new if x[0] == 'throw']
        if not thr:
            return alive
        fr.exits[mark:] = [x for x in new if x[0] != 'throw']
        # each thrown state goes to the first handler of its type
        falls = []
        for k, st, v in thr:
            h = [h for h in s['h'] if self.catches(fr, h, v)]
            if not h:
                fr.exits.append((k, st, v))
                continue
            h = h[0]
            T = State(st.mem, st.pc)
            if 'v' in h:
                L = self.alloc(T, 'opaque', 'exception', None, r='exception')
                fr.env[h['v']['d']] = L
            if not hasattr(self, 'handling'):
                self.handling = []
            self.handling.append(v)
            try:
                if self.ex(h['b'], T, fr):
                    falls.append(T)
            finally:
                self.handling.pop()
        sts = falls + ([State(S.mem, S.pc)] if alive else [])
        if not sts:
            S.dead = True
            return False
        S.become(self.joinall(sts))
        S.dead = False
        return True

    def catches(self, fr, h, v):
        """whether handler h takes exception v (any handler takes one of unknown type)"""
        if 'v' not in h or not isinstance(v, Thrown) or not v.type:
            return True
        t = self.ty(fr, h['v']['t'])
        n = t.get('r') or t.get('s')
        if n == v.type or n in EXCEPTIONS.get(v.type, ()):
            return True
        try:
            return v.type not in EXCEPTIONS and bool(self.P.derived(v.tu, v.type, n))
        except Exception:
            return v.type not in EXCEPTIONS

    def x_omp(self, s, S, fr):
        if self.omp is not None:
            return self.omp.stmt(s, S, fr)
        return self.ex(s.get('b'), S, fr)

    def x_label(self, s, S, fr):
        return self.ex(s['s'], S, fr)

    def x_goto(self, s, S, fr):
        raise Unsupported('goto')

    def x_unkstmt(self, s, S, fr):
        raise Unsupported('statement ' + s.get('cls', '?') + ' at ' + s['l'])

    # ---------- expressions
    def ev(self, e, S, fr):
        self.steps += 1
        return getattr(self, 'e_' + e['k'])(e, S, fr)

    def e_int(self, e, S, fr):
        return int(e['v'])

    def e_bool(self, e, S, fr):
        return bool(e['v'])

    def e_flt(self, e, S, fr):
        return float(e['v'])

    def e_str(self, e, S, fr):
        return self.alloc(S, 'lit', 'char[]', [e['v']])

    def e_null(self, e, S, fr):
        return NULL

    def e_zero(self, e, S, fr):
        t = self.ty(fr, e['t'])
        if t['c'] in ('rec', 'arr'):
            return self.new_of_type(S, fr.tu, e['t'], 'zero')
        return self.zero(t)

    def e_enumc(self, e, S, fr):
        return e['v']

    def e_fn(self, e, S, fr):
        fn = self.P.find(fr.tu, e['f']['u'])
        if fn is None:
            return Fn(fr.tu, None, e['f'])
        fn.ref = e['f']
        return fn

    def e_ref(self, e, S, fr):
        d = e['d']
        if d in fr.env:
            return fr.env[d]
        if 'g' in e:
            return self.global_loc(S, fr, d, e)
        raise Unsupported('unbound variable %s at %s' % (e['n'], e['l']))

    def global_loc(self, S, fr, d, e=None):
        tu = self.P.tus[fr.tu]
        g = tu['globals'].get(str(d))
        name = None
        if g is None and e is not None:
            name = e.get('g')
            if name in ('std::cout', 'std::cerr', 'std::clog'):
                key = name
                if key not in self.globs:
                    self.globs[key] = self.oid()
                o = self.globs[key]
                if o not in S.mem:
                    if self.console:
                        S.mem[o] = Cont('ostr', 'std::basic_ostringstream', [], {'name': name, 'prec': 6, 'open': True, 'fail': False}, S.token)
                    else:
                        S.mem[o] = Cont('sink', name, None, {}, S.token)
                return Loc(o)
            x = self.P.globals.get(name)
            if x is None:
                if name and name.endswith('basic_string<char>::npos'):
                    return self.alloc(S, 'cell', 'size_t', {'v': (1 << 64) - 1}) and Loc(self.nobj[0], 'v')
                m = re.match(r'std::numeric_limits<([\w ]+)>::(\w+)$', name or '')
                if m and (m.group(1), m.group(2)) in LIMITS:
                    return self.alloc(S, 'cell', 'int', {'v': LIMITS[m.group(1), m.group(2)]}) and Loc(self.nobj[0], 'v')
                if name and name.startswith('std::ios'):
                    return self.alloc(S, 'cell', 'int', {'v': mk('lib:' + name)}) and Loc(self.nobj[0], 'v')
                m = re.match(r'std::placeholders::_(\d+)$', name or '')
                if m:
                    return self.alloc(S, 'ph', name, None, n=int(m.group(1)))
                if e['t'] >= 0:
                    t = self.ty(fr, e['t'])
                    if t['c'] == 'rec':
                        return self.alloc(S, 'opaque', t['s'], None, r=name)
                if str(name) in ('stderr', 'stdout', 'stdin'):
                    return self.alloc(S, 'opaque', str(name), None, r=str(name))
                raise Unsupported('global ' + str(name))
            gtu, g = x
        else:
            gtu = fr.tu
            name = g['n']
            if 'init' not in g and name in self.P.globals:
                gtu, g = self.P.globals[name]
        key = (gtu if g.get('loc') or not g.get('ext') else '', name, g['l'])
        if key in self.globs and self.globs[key].o in S.mem:
            return self.globs[key]
        t = self.P.ty(gtu, g['t'])
        gfr = Frame(gtu, {'q': name, 'l': g['l'], 'n': name})
        L = self.new_of_type(S, gtu, g['t'], 'zero')
        if key in self.globs:
            # first use on this branch: keep one identity for all branches
            S.mem[self.globs[key].o] = S.mem.pop(L.o)
            L = self.globs[key]
        self.globs[key] = L
        init = g.get('init')
        if init is not None:
            if t.get('ref'):
                self.store(S, L, self.ev(init, S, gfr))
            elif t['c'] in ('rec', 'arr'):
                self.init_into(S, gfr, init, L)
            else:
                self.store(S, L, self.ev(init, S, gfr))
        if race.LOG is not None:
            race.LOG.wrap(L.o, S.mem[L.o])
        if t.get('ref'):
            return self.load(S, L)
        return L

    def e_this(self, e, S, fr):
        if fr.this is None:
            raise Unsupported('this outside a method')
        return fr.this

    def e_mat(self, e, S, fr):
        v = self.ev(e['e'], S, fr)
        if isinstance(v, (Loc, Gated)):
            if 't' in e and e['t'] >= 0 and self.ty(fr, e['t'])['c'] == 'ptr':
                cl = self.alloc(S, 'cell', 'tmp', {'v': v})
                return Loc(cl.o, 'v')
            return v
        if isinstance(v, (Fn, Lam)):
            return v
        cl = self.alloc(S, 'cell', 'tmp', {'v': v})
        return Loc(cl.o, 'v')

    def e_defarg(self, e, S, fr):
        return self.ev(e['e'], S, fr)

    def e_ld(self, e, S, fr):
        L = self.ev(e['e'], S, fr)
        if not isinstance(L, (Loc, Gated)):
            return L
        v = self.load(S, L, e['l'])
        if v is UNDEF and self.trace_undef:
            self.event('uninit', 'read of an uninitialised value', e['l'], S)
        return v

    def e_mem(self, e, S, fr):
        if 'f' in e:
            return Fn(fr.tu, None, e['f'])
        if 'g' in e:
            return self.global_loc(S, fr, e['d'], e)
        b = self.ev(e['b'], S, fr)
        return self.member(S, fr, b, e)

    def member(self, S, fr, b, e):
        if isinstance(b, Gated):
            return Gated(b.c, self.member(S, fr, b.a, e), self.member(S, fr, b.b, e))
        if not isinstance(b, Loc):
            raise Unsupported('member of %r' % (b,))
        if b.o == 0:
            self.event('null-deref', 'member access through a null pointer', e['l'], S)
            raise Dead()
        if b.k is not None:
            v = self.load(S, b, e['l'])
            if isinstance(v, (Loc, Gated)):
                b = v
                if isinstance(b, Gated):
                    return self.member(S, fr, b, e)
                if b.o == 0:
                    self.event('null-deref', 'member access through a null pointer', e['l'], S)
                    raise Dead()
            else:
                raise Unsupported('member of scalar')
        c = S.get(b.o)
        key = e['r'] + '::' + e['n']
        if c.kind == 'opaque' and c.x.get('open'):
            if key not in c.d:
                S.w(b.o).d[key] = UNDEF
            v = c.d.get(key)
            if isinstance(v, Loc) and v.k is None and v.o and S.get(v.o).kind == 'arr':
                return v
            return Loc(b.o, key)
        if c.kind == 'rec':
            if key not in c.d:
                raise Unsupported('no field %s in %s at %s' % (key, c.x.get('cn'), e['l']))
            v = c.d[key]
            t = self.fieldtype(c, key) if c.x.get('tu') else None
            if isinstance(v, Loc) and v.k is None and v.o and (self.owned(S, c, key, v) if c.x.get('tu') or c.x.get('cn') == 'std::pair' else S.get(v.o).kind != 'cell'):
                return v
            if t is not None and t.get('ref') and isinstance(v, (Loc, Gated)):
                return v
            if c.x.get('mapof') and e['n'] == 'second':
                return Loc(*c.x['mapof'])
            return Loc(b.o, key)
        if c.kind == 'opaque':
            return self.alloc(S, 'opaque', 'member', None, r=key)
        raise Unsupported('member %s of %s' % (key, c.kind))

    def e_un(self, e, S, fr):
        op = e['op']
        if op in ('++', '--', 'p++', 'p--'):
            L = self.ev(e['e'], S, fr)
            v = self.load(S, L, e['l'])
            one = 1 if op.endswith('++') else -1
            n = self.padd(v, one) if isinstance(v, Loc) else self.wrap(add(v, one), self.ty(fr, e['t']))
            self.store(S, L, n, e['l'])
            return v if op[0] == 'p' else L
        if op == '*':
            v = self.ev(e['e'], S, fr)
            return self.deref(S, v, e)
        if op == '&':
            v = self.ev(e['e'], S, fr)
            if isinstance(v, Loc) and v.o and S.get(v.o).x.get('strel'):
                return Loc(*S.get(v.o).x['strel'])
            return v
        v = self.ev(e['e'], S, fr)
        if op == '-':
            if isinstance(v, (Loc, Gated)):
                raise Unsupported('negation')
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return not_(self.truth(v))
        if op == '~':
            if isinstance(v, int):
                return self.wrap(~v, self.ty(fr, e['t']))
            return mk('bnot', v)
        if op == '__extension__':
            return v
        raise Unsupported('unary ' + op)

    def deref(self, S, v, e):
        if isinstance(v, Loc):
            if v.o == 0:
                self.event('null-deref', 'dereference of a null pointer', e['l'], S)
                raise Dead()
            if v.k is None or isinstance(v.k, int):
                c = S.get(v.o)
                if c.kind in ('lit', 'str') and isinstance(c.d, list) and isinstance(c.d[0], str) and (v.k is not None or c.kind == 'lit'):
                    return self.idx(S, v, 0, e)
            return v
        if isinstance(v, (Gated, Fn, Lam)):
            return v
        raise Unsupported('deref of %r at %s' % (v, e['l']))

    def wrap(self, v, t):
        if isinstance(v, bool):
            return v
        if isinstance(v, int) and t['c'] == 'int':
            w = t['w']
            v &= (1 << w) - 1
            if not t['u'] and v >> (w - 1):
                v -= 1 << w
        return v

    def padd(self, L, n):
        if isinstance(L, Gated):
            return Gated(L.c, self.padd(L.a, n), self.padd(L.b, n))
        k = L.k
        if k is None or k == 'v':
            if isnum(n) and n == 0:
                return L
            if k == 'v':
                return Loc(L.o, ('off', n))
            k = 0
        if isinstance(k, (int, E)):
            r = add(k, n)
            return Loc(L.o, r)
        raise Unsupported('pointer arithmetic')

    def e_bin(self, e, S, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.decide(self.truth(self.ev(e['a'], S, fr)), S)
            if not isinstance(a, E):
                if op == '&&' and not a:
                    return False
                if op == '||' and a:
                    return True
                return self.truth(self.ev(e['b'], S, fr))
            res = [None]

            def rhs(T):
                try:
                    res[0] = self.truth(self.ev(e['b'], T, fr))
                    return True
                except Dead:
                    return False
            if op == '&&':
                ok = self.branch(a, S, fr, rhs, lambda T: True)
                return and_(a, res[0]) if res[0] is not None else False
            ok = self.branch(a, S, fr, lambda T: True, rhs)
            return or_(a, res[0]) if res[0] is not None else True
        if op == ',':
            self.ev(e['a'], S, fr)
            return self.ev(e['b'], S, fr)
        a = self.ev(e['a'], S, fr)
        b = self.ev(e['b'], S, fr)
        return self.binop(op, a, b, self.ty(fr, e['t']), e, S, self.ty(fr, e['a']['t']))

    def binop(self, op, a, b, t, e, S, ta=None):
        if isinstance(a, (Loc, Gated, Fn)) or isinstance(b, (Loc, Gated, Fn)):
            if op in ('==', '!='):
                r = self.peq(a, b)
                return not_(r) if op == '!=' else r
            if isinstance(a, (Loc, Gated)) and isinstance(b, (Loc,)) and op == '-':
                if isinstance(a, Loc) and a.o == b.o:
                    return sub(a.k or 0, b.k or 0)
                raise Unsupported('pointer difference')
            if op in ('<', '<=', '>', '>=') and isinstance(a, Loc) and isinstance(b, Loc) and a.o == b.o:
                return cmp(op, a.k or 0, b.k or 0)
            if op == '+':
                return self.padd(a, b) if isinstance(a, (Loc, Gated)) else self.padd(b, a)
            if op == '-':
                return self.padd(a, neg(b))
            raise Unsupported('pointer operator ' + op)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            return cmp(op, a, b)
        fl = t['c'] == 'float'
        if op == '+':
            return self.wrap(add(a, b), t)
        if op == '-':
            r = sub(a, b)
            if not fl and isinstance(r, float):
                r = int(r)
            return self.wrap(r, t)
        if op == '*':
            return self.wrap(mul(a, b), t)
        if op == '/':
            if fl:
                return div(a, b)
            if isnum(a) and isnum(b):
                if b == 0:
                    self.event('div0', 'integer division by zero', e['l'], S)
                    return UNDEF
                return self.wrap(sym.FUN['idiv'](a, b), t)
            return fun('idiv', a, b) if not (isnum(b) and b == 1) else a
        if op == '%':
            if isnum(a) and isnum(b):
                if b == 0:
                    self.event('div0', 'integer modulo by zero', e['l'], S)
                    return UNDEF
                return self.wrap(sym.FUN['imod'](a, b), t)
            return fun('imod', a, b)
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            a, b = int(a), int(b)
            if op == '<<':
                return self.wrap(a << b, t)
            if op == '>>':
                return a >> b
            if op == '&':
                return a & b
            if op == '|':
                return self.wrap(a | b, t)
            if op == '^':
                return self.wrap(a ^ b, t)
        if op == '&' and (isinstance(a, (bool, E)) and isinstance(b, (bool, E))):
            return mk('band', a, b)
        return mk('b' + op, a, b)

    def peq(self, a, b):
        if isinstance(a, Gated):
            return ite(a.c, self.peq(a.a, b), self.peq(a.b, b))
        if isinstance(b, Gated):
            return ite(b.c, self.peq(a, b.a), self.peq(a, b.b))
        if isinstance(a, int) and not a:
            a = NULL
        if isinstance(b, int) and not b:
            b = NULL
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Loc) or isinstance(b, Loc):
                return False
            return (a.ref or a.node)['u'] == (b.ref or b.node)['u']
        if isinstance(a, Loc) and isinstance(b, Loc):
            ka, kb = a.k, b.k
            return a.o == b.o and (ka == kb or (ka in (None, 0) and kb in (None, 0)))
        return mk('b:peq', repr(a), repr(b))

    def e_asg(self, e, S, fr):
        ta = self.ty(fr, e['a']['t'])
        v = self.ev(e['b'], S, fr)
        L = self.ev(e['a'], S, fr)
        if ta['c'] == 'rec' and isinstance(v, (Loc, Gated)):
            self.assign_obj(S, L, v, e['l'])
            return L
        self.store(S, L, v, e['l'])
        return L

    def e_casg(self, e, S, fr):
        op = e['op'][:-1]
        b = self.ev(e['b'], S, fr)
        L = self.ev(e['a'], S, fr)
        a = self.load(S, L, e['l'])
        if a is UNDEF and self.trace_undef:
            self.event('uninit', 'update of an uninitialised value', e['l'], S)
        ct = self.ty(fr, e['ct'])
        lt = self.ty(fr, e['t'])
        a2 = self.conv(a, lt, ct)
        v = self.binop(op, a2, b, ct, e, S)
        self.store(S, L, self.conv(v, ct, lt), e['l'])
        return L

    def conv(self, v, ft, tt):
        if isinstance(v, (Loc, Gated)):
            return v
        if tt['c'] == 'float' and ft['c'] in ('int', 'bool', 'enum'):
            return float(v) if isnum(v) else v
        if tt['c'] == 'int' and ft['c'] == 'float':
            return self.wrap(fun('trunc', v), tt)
        if tt['c'] == 'int':
            return self.wrap(v, tt)
        return v

    def e_cond(self, e, S, fr):
        c = self.cond(e['c'], S, fr)
        if not isinstance(c, E):
            return self.ev(e['a'] if c else e['b'], S, fr)
        res = [None, None]
        pc = S.pc

        def side(i, n):
            def f(T):
                try:
                    res[i] = self.ev(n, T, fr)
                    return True
                except Dead:
                    return False
            return f
        A = S.fork(c)
        B = S.fork(not_(c))
        a, b = side(0, e['a'])(A), side(1, e['b'])(B)
        if a and b:
            S.become(merge(c, A, B, pc))
            r0, r1 = res
            if isinstance(r0, Loc) and isinstance(r1, Loc) and r0.k is None and r1.k is None and r0.o != r1.o and r0.o and r1.o:
                c0, c1 = S.mem[r0.o], S.mem[r1.o]
                if c0.kind == c1.kind and c0.kind in ('str', 'lit', 'mat') and not e.get('lv'):
                    o = self.oid()
                    S.mem[o] = mcont(c, c0, c1, S.token)
                    return Loc(o)
            return mval(c, r0, r1)
        if a:
            S.become(A)
            return res[0]
        if b:
            S.become(B)
            return res[1]
        raise Dead()

    def e_idx(self, e, S, fr):
        a = self.ev(e['a'], S, fr)
        i = self.ev(e['i'], S, fr)
        if not isinstance(a, (Loc, Gated)) and isinstance(i, (Loc, Gated)):
            a, i = i, a
        return self.idx(S, a, i, e)

    def idx(self, S, a, i, e):
        if isinstance(a, Gated):
            return Gated(a.c, self.idx(S, a.a, i, e), self.idx(S, a.b, i, e))
        if not isinstance(a, Loc):
            raise Unsupported('subscript of %r at %s' % (a, e['l']))
        if a.o == 0:
            self.event('null-deref', 'subscript of a null pointer', e['l'], S)
            raise Dead()
        L = self.padd(a, i)
        c = S.get(L.o)
        k = L.k if L.k is not None else 0
        if c.kind == 'mixed' or not isinstance(c.d, list):
            return Loc(L.o, k)
        if c.kind == 'lit' or c.kind == 'str':
            s = c.d[0]
            if isinstance(s, str) and isinstance(k, int):
                cl = self.alloc(S, 'cell', 'char', {'v': ord(s[k]) if k < len(s) else 0})
                return Loc(cl.o, 'v')
            raise Unsupported('symbolic string subscript')
        if isinstance(k, int) and 0 <= k < len(c.d):
            v = c.d[k]
            if isinstance(v, Loc) and v.k is None and v.o and v.o in S.mem and c.kind == 'arr' and S.get(v.o).kind in ('arr', 'rec', 'str', 'vector', 'mat') and '*' not in c.cls:
                return v
        return Loc(L.o, k)

    def e_cast(self, e, S, fr):
        ck = e['ck']
        v = self.ev(e['e'], S, fr)
        if ck in ('ArrayToPointerDecay',):
            if isinstance(v, Loc) and v.k is None:
                return Loc(v.o, 0)
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'LValueBitCast', 'FunctionToPointerDecay', 'Dependent', 'AtomicToNonAtomic', 'BuiltinFnToFnPtr', 'AddressSpaceConversion'):
            return v
        if ck == 'LValueToRValue':
            return self.load(S, v, e['l'])
        if ck == 'NullToPointer':
            return NULL
        if ck == 'ToVoid':
            return None
        t = self.ty(fr, e['t'])
        if ck == 'IntegralToFloating':
            return float(v) if isnum(v) else v
        if ck == 'FloatingToIntegral':
            if isnum(v):
                if v != v or abs(v) == math.inf:
                    return UNDEF
                return self.wrap(int(v), t)
            return fun('trunc', v)
        if ck == 'FloatingCast':
            if t.get('w') == 32:
                if isnum(v):
                    import struct
                    try:
                        return struct.unpack('f', struct.pack('f', v))[0]
                    except OverflowError:
                        return math.inf
                return v if (isinstance(v, E) and v.op == 'f32') else mk('f32', v)
            return v
        if ck in ('IntegralCast',):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, E) and v.op in ('<', '<=', '==', '!=', 'and', 'or', 'not'):
                return ite(v, 1, 0)
            return self.wrap(v, t)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.truth(v)
        if ck == 'Dynamic':
            return self.dyncast(S, v, fr, t)
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            return v
        if ck == 'MemberPointerToBoolean':
            return True
        raise Unsupported('cast %s at %s' % (ck, e['l']))

    def dyncast(self, S, v, fr, t):
        if isinstance(v, Gated):
            return mval(v.c, self.dyncast(S, v.a, fr, t), self.dyncast(S, v.b, fr, t))
        if not isinstance(v, Loc):
            raise Unsupported('dynamic_cast of %r' % (v,))
        if v.o == 0:
            return NULL
        target = self.ty(fr, t['p'])['r'] if t['c'] == 'ptr' else t['r']
        c = S.get(v.o)
        if c.kind == 'rec':
            return v if self.P.derived(c.x['tu'], c.x['cn'], target) else NULL
        if c.kind == 'opaque':
            return Gated(mk('b:isa', v.o, target), v, NULL)
        raise Unsupported('dynamic_cast')

    def e_list(self, e, S, fr):
        t = self.ty(fr, e['t'])
        if t['c'] == 'arr' or t['c'] == 'rec':
            if t['c'] == 'rec' and len(e['a']) == 1 and e['a'][0]['k'] in ('ctor',):
                return self.ev(e['a'][0], S, fr)
            L = self.new_of_type(S, fr.tu, e['t'])
            self.init_into(S, fr, e, L, e['l'])
            return L
        if not e['a']:
            return self.zero(t)
        return self.ev(e['a'][0], S, fr)

    def e_sil(self, e, S, fr):
        v = self.ev(e['e'], S, fr)
        return v

    def e_ctor(self, e, S, fr):
        t = self.ty(fr, e['t'])
        if t['c'] == 'arr':
            return self.new_of_type(S, fr.tu, e['t'])
        if e['f'].get('copy') and len(e['a']) >= 1 and self.user_ctor(fr, e) is None:
            src = self.ev(e['a'][0], S, fr)
            if isinstance(src, Loc) and e.get('el') and src.k is None and src.o and S.get(src.o).x.get('tmp'):
                return src
            if isinstance(src, (Lam, Fn, tuple)):
                return src
            if isinstance(src, Loc) and src.k is not None and src.o:
                v = self.load(S, src)
                if isinstance(v, tuple):
                    return v
            r = self.copy_obj(S, src, e['l'], t.get('r') in VIEWS)
            S.w(r.o).x['tmp'] = True
            # slicing to the static type is ignored: alta copies values only
            return r
        L = self.new_of_type(S, fr.tu, e['t'])
        r = self.ctor_into(S, fr, e, L)
        if L.o in S.mem and S.mem[L.o].kind != 'cell':
            S.w(L.o).x['tmp'] = True
        return L

    def e_new(self, e, S, fr):
        t = self.ty(fr, e['at'])
        if e.get('arr'):
            n = self.ev(e['n'], S, fr) if e.get('n') else None
            L = self.new_array(S, fr.tu, e['at'], n, 'zero' if e.get('init') and e['init']['k'] in ('zero', 'list') else 'undef', heap='new[]')
            return Loc(L.o, 0)
        L = self.new_of_type(S, fr.tu, e['at'])
        S.w(L.o).x['heap'] = 'new'
        if e.get('init'):
            if t['c'] in ('rec',):
                self.init_into(S, fr, e['init'], L, e['l'])
                if L.o in S.mem:
                    S.w(L.o).x['heap'] = 'new'
            else:
                self.store(S, L, self.ev(e['init'], S, fr))
        elif t['c'] == 'rec' and t.get('r'):
            pass
        return L

    def e_del(self, e, S, fr):
        v = self.ev(e['e'], S, fr)
        if isinstance(v, Loc) and v.o:
            c = S.get(v.o)
            h = c.x.get('heap')
            if h == 'new[]' and not e.get('arr') or h == 'new' and e.get('arr'):
                self.event('mismatch', 'allocated with %s, released with delete%s' % (h, '[]' if e.get('arr') else ''), e['l'], S)
            if c.x.get('freed'):
                self.event('double-free', 'released twice', e['l'], S)
            S.w(v.o).x['freed'] = True
        return None

    def e_lambda(self, e, S, fr):
        env = dict(fr.env)
        for c in e['caps']:
            if 'd' in c and not c.get('byref') and c['d'] in env:
                L = env[c['d']]
                v = self.load(S, L) if isinstance(L, Loc) else L
                if isinstance(v, Loc) and v.k is None and v.o and S.get(v.o).kind != 'cell' and (L.k is None):
                    env[c['d']] = self.copy_obj(S, v)
                elif isinstance(L, Loc):
                    cl = self.alloc(S, 'cell', 'cap', {'v': v})
                    env[c['d']] = Loc(cl.o, 'v')
        return Lam(fr.tu, e['fn'], env, fr.this)

    def e_throw(self, e, S, fr):
        x = None
        if e.get('e'):
            self.ev(e['e'], S, fr)
            t = e['e'].get('t')
            t = self.ty(fr, t) if t is not None else {}
            x = Thrown(e['l'], t.get('r') or t.get('s'), fr.tu)
        elif getattr(self, 'handling', None):
            x = self.handling[-1]
        fr.exits.append(('throw' if x is not None else 'abort', State(S.mem, S.pc), x if x is not None else e['l']))
        S.newtoken()
        raise Dead()

    def e_stmtexpr(self, e, S, fr):
        raise Unsupported('statement expression')

    def e_pdtor(self, e, S, fr):
        return None

    def e_unk(self, e, S, fr):
        raise Unsupported('expression %s at %s' % (e.get('cls'), e['l']))

    # ---------- calls
    def e_call(self, e, S, fr):
        if 'ce' in e:
            c = self.ev(e['ce'], S, fr)
            if isinstance(c, Loc):
                c = self.load(S, c)
            args = [self.ev(a, S, fr) for a in e['a']]
            return self.call_value(S, fr, c, args, e)
        f = e['f']
        q = f['q']
        if self.trace_calls is not None and (self.trace_calls is True or q in self.trace_calls):
            self.calls.append((e['l'], q, fr.fn.get('q')))
        h = self.hooks.get(q) or ('<' in q and self.hooks.get(untemplate(q))) or None
        if h is not None:
            o = self.ev(e['o'], S, fr) if 'o' in e else None
            args = [self.ev(a, S, fr) for a in e['a']]
            return h(self, S, fr, e, o, args)
        if f.get('in') or (f.get('r') and f['q'].find('(anonymous') >= 0):
            return self.call_user(S, fr, e, f)
        if 'o' in e:
            o = self.ev(e['o'], S, fr)
            if isinstance(o, (Lam, Fn)):
                args = [self.ev(a, S, fr) for a in e['a']]
                return self.call_value(S, fr, o, args, e)
            return self.lib_method(S, fr, e, f, o)
        return self.lib_call(S, fr, e, f)

    def call_value(self, S, fr, c, args, e):
        if isinstance(c, Lam):
            fn = Fn(c.tu, c.node)
            fn.lam = c
            return self.after(S, fr, self.run(fn, c.this, args, S, e['l']))
        if isinstance(c, Fn):
            if self.stub is not None:
                v = self.stub(c, args, S)
                if v is not NotImplemented:
                    return v
            if c.node is not None:
                return self.after(S, fr, self.run(c, None, args, S, e['l']))
        import stdlib
        return stdlib.apply(self, S, fr, e, c, args)

    def call_user(self, S, fr, e, f):
        this = None
        if 'o' in e:
            this = self.ev(e['o'], S, fr)
            if isinstance(this, Lam):
                args = [self.ev(a, S, fr) for a in e['a']]
                return self.call_value(S, fr, this, args, e)
            if isinstance(this, Loc) and this.o and this.k is not None:
                v = self.load(S, this, e['l'])
                if isinstance(v, (Loc, Gated)):
                    this = v
        args = self.evargs(e['a'], f, S, fr)
        return self.dispatch(S, fr, e, f, this, args)

    def dispatch(self, S, fr, e, f, this, args):
        if isinstance(this, Gated):
            res = [None, None]

            def side(i, o):
                def g(T):
                    try:
                        res[i] = self.dispatch(T, fr, e, f, o, args)
                        return True
                    except Dead:
                        return False
                return g
            c = self.decide(this.c, S)
            if not isinstance(c, E):
                return self.dispatch(S, fr, e, f, this.a if c else this.b, args)
            pc = S.pc
            A, B = S.fork(c), S.fork(not_(c))
            a, b = side(0, this.a)(A), side(1, this.b)(B)
            if a and b:
                S.become(merge(c, A, B, pc))
                return self.mret(c, res[0], res[1], S)
            if a or b:
                S.become(A if a else B)
                return res[0] if a else res[1]
            raise Dead()
        tu, u = fr.tu, f['u']
        if this is not None and not f.get('st'):
            if isinstance(this, Loc) and this.o == 0:
                self.event('null-deref', 'call of %s through a null pointer' % f['q'], e['l'], S)
                raise Dead()
            c = S.get(this.o)
            for h in self.rechooks:
                r = h(self, S, fr, e, f, this, args)
                if r is not NotImplemented:
                    return r
            if c.kind == 'rec' and f.get('v') and not e.get('qual'):
                m = self.P.resolve(c.x['tu'], c.x['cn'], u)
                if m:
                    tu, u = m[0], m[1]['u']
            if c.kind in ('opaque',):
                return self.unknown(S, fr, e, f, this, args)
        fn = self.P.find(tu, u)
        if fn is None:
            if f.get('op') == '=' and this is not None and args:
                self.assign_obj(S, this, args[0], e['l'])
                return this
            return self.unknown(S, fr, e, f, this, args)
        if fn.node.get('def') and f.get('op') == '=':
            self.assign_obj(S, this, args[0], e['l'])
            return this
        if fn.node.get('dtor'):
            return None
        return self.after(S, fr, self.run(fn, this, args, S, e['l']))

    def unknown(self, S, fr, e, f, this, args):
        self.unknown_calls[f['q']] = e['l']
        rt = self.ty(fr, f['rt'])
        c = rt['c']
        key = []
        for a in args:
            if isinstance(a, (E, int, float)):
                key.append(a)
            elif isinstance(a, Loc) and a.k is not None and a.o:
                try:
                    v = self.load(S, a)
                    key.append(v if isinstance(v, (E, int, float)) else 0)
                except Exception:
                    key.append(0)
        if c == 'void':
            return None
        if c in ('int', 'enum', 'float'):
            return mk('call:' + f['q'], *key) if key else mk('call:' + f['q'])
        if c == 'bool':
            return mk('b:call:' + f['q'], *key)
        if c == 'rec':
            return self.alloc(S, 'opaque', rt['s'], None, r=f['q'])
        raise Unsupported('call of %s at %s' % (f['q'], e['l']))

    # library models live in libmodel.py
    def lib_ctor(self, S, fr, e, L):
        import libmodel
        h = self.ctorhooks.get(untemplate(e['f']['q']).rsplit('::', 1)[0])
        if h is not None:
            return h(self, S, fr, e, L, [self.ev(a, S, fr) for a in e['a'] if a.get('k') != 'defarg'])
        return libmodel.ctor(self, S, fr, e, L)

    def lib_method(self, S, fr, e, f, o):
        import libmodel
        return libmodel.method(self, S, fr, e, f, o)

    def lib_call(self, S, fr, e, f):
        import libmodel
        return libmodel.call(self, S, fr, e, f)
