"""Abstract models of the library types alta uses (C++ library, Eigen)."""
import math
import re as regex
from sym import E, mk, var, ite, add, sub, mul, div, neg, cmp, not_, and_, or_, fun, isnum, same
import sym
from interp import Unsupported, Dead, Thrown, Loc, NULL, UNDEF, Gated, Cont, Num, Bin, State, mval, mcont, Fn, Lam, Pick

MATH = {'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'atan2', 'sqrt', 'exp', 'log', 'pow', 'floor', 'ceil', 'fmod', 'erf', 'erfc',
        'sinh', 'cosh', 'tanh', 'log10', 'log2', 'cbrt', 'hypot', 'isnan', 'isfinite', 'isinf', 'fmax', 'fmin', 'round', 'signbit', 'copysign', 'rint', 'ftrunc', 'fma'}
MATHALIAS = {'fabs': 'abs', 'sqrtf': 'sqrt', 'sinf': 'sin', 'cosf': 'cos', 'powf': 'pow', 'expf': 'exp', 'logf': 'log', 'acosf': 'acos', 'floorf': 'floor', 'fabsf': 'abs',
             '__builtin_isnan': 'isnan', '__builtin_isfinite': 'isfinite', 'lround': 'round', 'nearbyint': 'rint', 'trunc': 'ftrunc', 'lrint': 'rint', 'llround': 'round'}


class It:
    """An iterator value."""
    __slots__ = ('o', 'k', 'kind')

    def __init__(self, o, k, kind):
        self.o, self.k, self.kind = o, k, kind

    def __eq__(self, b):
        return isinstance(b, It) and (self.o, self.k) == (b.o, b.k)

    def __hash__(self):
        return hash((self.o, self.k))


class Rich:
    """A string containing printed symbolic numbers: a tuple of atoms."""
    __slots__ = ('atoms',)

    def __init__(self, atoms):
        self.atoms = tuple(atoms)

    def __eq__(self, b):
        return isinstance(b, Rich) and self.atoms == b.atoms

    def __hash__(self):
        return hash(self.atoms)


def rich(atoms):
    out = []
    for a in atoms:
        if isinstance(a, str):
            if not a:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += a
                continue
        out.append(a)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return Rich(out)


def atoms_of(s):
    if isinstance(s, str):
        return [s] if s else []
    if isinstance(s, Rich):
        return list(s.atoms)
    if isinstance(s, E):
        return [Num(s, 'string', None)]
    raise Unsupported('text of %r' % (s,))


def seq(a, b):
    """string equality"""
    if isinstance(a, Gated):
        return ite(a.c, seq(a.a, b), seq(a.b, b))
    if isinstance(b, Gated):
        return ite(b.c, seq(a, b.a), seq(a, b.b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, E) or isinstance(b, E):
        if a is b:
            return True
        return mk('==', *((a, b) if isinstance(a, E) else (b, a)))
    if isinstance(a, Rich) and isinstance(b, Rich):
        return a == b
    # a text with a number in it never equals a word without one
    r, s = (a, b) if isinstance(a, Rich) else (b, a)
    if isinstance(r.atoms[0], str) and not s.startswith(r.atoms[0]):
        return False
    if not any(ch.isdigit() for ch in s):
        return False
    raise Unsupported('comparison of a text with a printed number')


class Blk:
    """n consecutive numbers of a large array, as bytes in a file"""
    def __init__(self, src, start, n, size):
        self.src, self.start, self.n, self.size = src, start, n, size

    def at(self, I, S, k):
        return self.src(I, S, I.addint(k, self.start))


def write_bytes(I, S, L, p, k, loc):
    """k bytes from p go to the stream L"""
    if not isinstance(k, int) or not isinstance(p, Loc):
        raise Unsupported('write of symbolic size')
    if p.o == 0:
        I.event('null-deref', 'write from a null pointer', loc, S)
        raise Dead()
    pc = S.get(p.o)
    if pc.kind in ('str', 'lit'):
        t = sval(I, S, p)
        emit(I, S, L, t[p.k or 0:][:k] if isinstance(t, str) else rich(atoms_of(t)))
        return
    es = elsize(I, S, p)
    if pc.kind == 'sarr':
        n = k // es
        k0 = p.k or 0
        if isinstance(pc.x['len'], int) and k0 + n > pc.x['len']:
            I.event('oob', '%d elements are written from an array of %d' % (k0 + n, pc.x['len']), loc, S)
        if pc.x.get('init') == 'undef' and not pc.x.get('writes') and I.trace_undef:
            I.event('uninit', 'write of uninitialised values', loc, S)
        emit(I, S, L, Blk(I.sarr_block(pc.x), k0, n, es))
    else:
        for i in range(k // es):
            v = I.load(S, I.padd(p, i), loc)
            if v is UNDEF and I.trace_undef:
                I.event('uninit', 'write of an uninitialised value', loc, S)
            emit(I, S, L, Bin(v, es))
    if k % es:
        I.event('binsize', '%d bytes of %d-byte elements are written' % (k, es), loc, S)


def sval(I, S, v):
    return I.sval(S, v)


def scal(I, S, v, loc=None):
    """the scalar behind a value (references are loaded)"""
    n = 0
    while isinstance(v, (Loc, Gated)):
        if isinstance(v, Gated):
            return mval(v.c, scal(I, S, v.a), scal(I, S, v.b))
        if v.k is None:
            if v.o and S.get(v.o).kind == 'cell':
                v = I.load(S, v, loc)
            else:
                return v
        else:
            w = I.load(S, v, loc)
            if w is UNDEF and I.trace_undef:
                I.event('uninit', 'read of an uninitialised value', loc, S)
            v = w
        n += 1
        if n > 10:
            break
    return v


def obj(I, S, v):
    """Loc (k None) of the object behind a value"""
    n = 0
    while isinstance(v, Loc) and v.k is not None and v.o:
        w = I.load(S, v)
        if not isinstance(w, (Loc, Gated)):
            return v
        v = w
        n += 1
        if n > 10:
            break
    return v


def tmpmat(I, S, data, rows, cols):
    L = I.mkmat(S, data, rows, cols)
    S.mem[L.o].x['tmp'] = True
    return L


def shape(I, S, L):
    c = I.matc(S, L)
    return c.x['rows'], c.x['cols']


def ismat(I, S, v):
    v = obj(I, S, v)
    return isinstance(v, Loc) and v.k is None and v.o and v.o in S.mem and S.get(v.o).kind in ('mat', 'view')


def view(I, S, base, idx, rows, cols, cls='view'):
    """Block view; a view of a view is flattened."""
    base = obj(I, S, base)
    c = S.get(base.o)
    if c.kind == 'view':
        idx = [Pick(i.k, [c.x['idx'][q] for q in i.cands]) if isinstance(i, Pick) else c.x['idx'][i] for i in idx]
        b = c.x['base']
    else:
        b = base.o
    return I.alloc(S, 'view', cls, None, base=b, idx=list(idx), rows=rows, cols=cols)


# ------------------------------------------------------------------ ctor
def ctor(I, S, fr, e, L):
    f = e['f']
    r = f.get('r') or f['q'].rsplit('::', 1)[0]
    args = e['a']
    c = S.mem.get(L.o)
    kind = c.kind if c is not None else None

    def A(i):
        return I.ev(args[i], S, fr)
    nargs = [a for a in args if a.get('k') != 'defarg']
    if kind == 'str':
        if not nargs:
            return
        v = A(0)
        if len(nargs) == 2 and isinstance(v, (int, E)):
            n, ch = v, scal(I, S, A(1))
            if isinstance(n, int) and isinstance(ch, int):
                S.w(L.o).d[0] = chr(ch) * n
                return
            raise Unsupported('string constructor')
        if isinstance(v, Loc) and v.o == 0:
            I.event('null-deref', 'string from a null pointer', e['l'], S)
            raise Dead()
        if len(nargs) == 2 and stdrange(I, S, v) and not (isinstance(v, Loc) and v.k is not None and S.get(v.o).kind in ('lit',) and isinstance(scal(I, S, A(1)), int)):
            w = A(1)
            if stdrange(I, S, w):
                a, b = iterval(I, S, v), iterval(I, S, w)
                t = S.get(a.o).d[0] if S.get(a.o).kind in ('str', 'lit') else None
                if isinstance(a, It) and isinstance(b, It) and a.o == b.o and isinstance(t, str):
                    if not 0 <= a.k <= b.k <= len(t):
                        I.event('oob', 'text from [%d, %d) of %d characters' % (a.k, b.k, len(t)), e['l'], S)
                        raise Dead()
                    S.w(L.o).d[0] = t[a.k:b.k]
                    return
                raise Unsupported('string constructor')
        s = sval(I, S, v)
        if len(nargs) >= 2:
            p = [scal(I, S, A(i)) for i in range(1, len(nargs))]
            if isinstance(s, str) and all(isinstance(x, int) for x in p):
                s = s[:p[0]] if len(p) == 1 and f['p'] and I.ty(fr, f['p'][0])['c'] == 'ptr' else (s[p[0]:] if len(p) == 1 else s[p[0]:p[0] + p[1]])
            elif any(isinstance(x, It) for x in p):
                raise Unsupported('string constructor')
        S.w(L.o).d[0] = s
        return
    if kind == 'vector':
        t = I.P.ty(c.x['tu'], c.x['et'])
        if not nargs:
            return
        v = A(0)
        if len(nargs) == 2 and stdrange(I, S, v) or listval(S, v):
            new = range_elements(I, S, c, [v] if listval(S, v) else [v, A(1)], e['l'])
            S.w(L.o).d = new
            return
        if isinstance(v, Loc) and v.o and S.get(obj(I, S, v).o).kind == 'vector':
            I.assign_obj(S, L, v, e['l'])
            return
        n = scal(I, S, v)
        if isinstance(n, (int, E)):
            if isinstance(n, E):
                raise Unsupported('vector of symbolic size')
            if n > 300000 or n < 0:
                raise Unsupported('vector size')
            fillv = A(1) if len(nargs) > 1 else None
            vec_resize(I, S, L, n, fillv, e['l'])
            return
        raise Unsupported('vector constructor')
    if kind == 'map':
        if not nargs:
            return
        v = A(0)
        v = obj(I, S, v)
        if isinstance(v, Loc) and v.o and S.get(v.o).kind in ('map',):
            I.assign_obj(S, L, v, e['l'])
            return
        if isinstance(v, Loc) and v.o and S.get(v.o).kind in ('list', 'arr', 'vector'):
            for p in list(S.get(v.o).d):
                k, x = pair_parts(I, S, p)
                map_put(I, S, L, k, x, only_new=True)
            return
        raise Unsupported('map constructor')
    if kind == 'sptr':
        if not nargs:
            return
        v = A(0)
        v2 = sptrval(I, S, v)
        if len(nargs) > 1 and isinstance(v2, Loc) and v2.o:
            S.w(v2.o).x['deleter'] = 'custom'
        elif isinstance(v2, Loc) and v2.o and nargs and I.ty(fr, args[0]['t'])['c'] == 'ptr':
            h = S.get(v2.o).x.get('heap')
            if h == 'new[]' and '[]' not in S.get(L.o).cls:
                I.event('mismatch', 'new[] storage owned by a shared_ptr that releases it with delete', e['l'], S)
        S.w(L.o).d['p'] = v2
        return
    if kind == 'rec' and c.x.get('cn') == 'std::pair':
        if not e['a']:
            cc = S.w(L.o)
            for k, z in (('std::pair::first', 0), ('std::pair::second', 1)):
                if cc.d[k] is UNDEF:
                    t = I.P.ty(c.x['tu'], I.P.ty(c.x['tu'], e['t'])['a'][z]['t']) if c.x.get('tu') == fr.tu else None
                    cc.d[k] = I.zero(t) if t else 0
            return
        if len(nargs) == 0:
            return
        if len(nargs) == 1:
            I.assign_obj(S, L, obj(I, S, A(0)), e['l'])
            return
        for i, k in enumerate(('std::pair::first', 'std::pair::second')):
            v = A(i)
            cur = S.get(L.o).d[k]
            if isinstance(cur, Loc) and cur.k is None and cur.o and S.get(cur.o).kind == 'str':
                S.w(cur.o).d[0] = sval(I, S, v)
            elif isinstance(cur, Loc) and cur.k is None and cur.o:
                I.assign_obj(S, cur, v, e['l'])
            else:
                S.w(L.o).d[k] = scal(I, S, v)
        return
    if kind == 'mat':
        t = S.get(L.o)
        cls = t.cls
        vals = [A(i) for i in range(len(nargs))]
        if not vals:
            return
        if len(vals) == 1:
            v = vals[0]
            if ismat(I, S, v):
                v = obj(I, S, v)
                src = I.matc(S, v)
                d = I.matvals(S, v)
                cc = S.w(L.o)
                fixed = len(cc.d) if cc.d and fixed_size(cls) else None
                if fixed is not None and fixed != len(d):
                    I.event('shape', 'initialisation of a %d-vector from %d values' % (fixed, len(d)), e['l'], S)
                cc.d, cc.x['rows'], cc.x['cols'] = d, src.x['rows'], src.x['cols']
                cc.prov = {i: src.prov.get(i, e['l']) if src.kind == 'mat' else e['l'] for i in range(len(d))}
                return
            n = scal(I, S, v)
            if isinstance(n, int) and not fixed_size(cls):
                cc = S.w(L.o)
                cc.d, cc.x['rows'], cc.x['cols'] = [UNDEF] * n, n, 1
                return
            if isinstance(n, E):
                raise Unsupported('vector of symbolic size')
            if isinstance(v, Loc) and v.k is not None:
                # from a raw pointer
                cc = S.w(L.o)
                cc.d = [I.load(S, I.padd(v, i)) for i in range(len(cc.d))]
                return
            raise Unsupported('matrix constructor')
        sc = [scal(I, S, v) for v in vals]
        if len(vals) == 2 and len(t.d) != 2:
            if all(isinstance(x, int) for x in sc):
                cc = S.w(L.o)
                if sc[0] * sc[1] > 300000:
                    raise Unsupported('matrix size')
                cc.d, cc.x['rows'], cc.x['cols'] = [UNDEF] * (sc[0] * sc[1]), sc[0], sc[1]
                return
            raise Unsupported('matrix of symbolic size')
        cc = S.w(L.o)
        if len(sc) != len(cc.d):
            raise Unsupported('matrix constructor')
        cc.d = list(sc)
        cc.prov = {i: e['l'] for i in range(len(sc))}
        return
    if kind in ('ostr', 'istr'):
        return stream_ctor(I, S, fr, e, L, nargs)
    if r in ('Eigen::AngleAxis',):
        ang = scal(I, S, A(0))
        ax = I.matvals(S, obj(I, S, A(1)))
        S.mem[L.o] = Cont('angleaxis', r, None, {'a': ang, 'v': ax}, S.token)
        return
    if r in ('Eigen::OuterStride', 'Eigen::InnerStride', 'Eigen::Stride'):
        S.mem[L.o] = Cont('stride', r, None, {'outer': scal(I, S, A(0)) if nargs else 0}, S.token)
        return
    if r in ('Eigen::Map',):
        return map_ctor(I, S, fr, e, L, nargs)
    if r in ('Eigen::Ref', 'Eigen::Block', 'Eigen::VectorBlock', 'Eigen::Transpose', 'Eigen::ArrayWrapper'):
        v = obj(I, S, A(0))
        if len(nargs) == 1 and ismat(I, S, v):
            cc = I.matc(S, v)
            n = len(cc.x['idx']) if cc.kind == 'view' else len(cc.d)
            V = view(I, S, v, list(range(n)), cc.x['rows'], cc.x['cols'])
            S.mem[L.o] = S.mem[V.o]
            return
        raise Unsupported('Eigen ' + r)
    if r == 'std::array' and kind == 'arr':
        if nargs:
            I.assign_obj(S, L, obj(I, S, A(0)), e['l'])
        return
    if r == 'std::ostream_iterator':
        t = I.ty(fr, e['t'])
        o = obj(I, S, A(0))
        d = sval(I, S, A(1)) if len(nargs) > 1 else ''
        S.mem[L.o] = Cont('iter', r, {'v': It(o.o, (d, fr.tu, (t.get('a') or [{}])[0].get('t')), 'out')}, {}, S.token)
        return
    if r.startswith('std::') and ('iterator' in r):
        v = A(0) if nargs else None
        S.mem[L.o] = Cont('iter', r, {'v': iterval(I, S, v) if v is not None else UNDEF}, {}, S.token)
        return
    if r.startswith('__gnu_cxx::__normal_iterator'):
        v = A(0) if nargs else None
        S.mem[L.o] = Cont('iter', r, {'v': iterval(I, S, v) if v is not None else UNDEF}, {}, S.token)
        return
    if r in ('std::_Setprecision', 'std::_Setw', 'std::allocator', 'std::logic_error', 'std::runtime_error', 'std::initializer_list', 'std::exception',
             'std::invalid_argument', 'std::out_of_range', 'std::domain_error', 'std::length_error', 'std::ios_base::failure', 'std::bad_alloc', 'std::range_error'):
        vals = [A(i) for i in range(len(nargs))]
        if r == 'std::initializer_list' and vals:
            S.mem[L.o] = S.mem[obj(I, S, vals[0]).o]
        return
    if r == 'std::fpos':
        v = A(0) if nargs else 0
        S.mem[L.o] = Cont('cell', r, {'v': scal(I, S, v)}, {}, S.token)
        return
    if r == 'std::function':
        v = A(0) if nargs else None
        if isinstance(v, Loc) and v.k is None and v.o and S.get(v.o).kind == 'fnobj':
            v = S.get(v.o).d['v']
        S.mem[L.o] = Cont('fnobj', r, {'v': v}, {}, S.token)
        return
    if r in ('std::reference_wrapper',):
        raise Unsupported(r)
    if r.split('<')[0] in stdops():
        S.mem[L.o] = Cont('stdop', r, None, {'q': r.split('<')[0]}, S.token)
        return
    if r in ('std::tuple',):
        vals = [A(i) for i in range(len(nargs))]
        if len(vals) == 1 and isinstance(vals[0], Loc) and vals[0].o and S.get(vals[0].o).kind == 'tuple':
            S.mem[L.o] = S.get(vals[0].o).clone(S.token)
        else:
            S.mem[L.o] = Cont('tuple', r, [I.copy_obj(S, a) if isinstance(a, Loc) and a.k is None and a.o else scal(I, S, a) for a in vals], {}, S.token)
        return
    if r in ('timespec', 'tm', 'timeval', 'stat'):
        k = S.w(L.o)
        k.d, k.x['open'] = {}, True
        return
    raise Unsupported('constructor %s at %s' % (f['q'], e['l']))


def stdops():
    import stdlib
    return stdlib.OPS


def fixed_size(cls):
    import re
    m = re.search(r'(?:Matrix|Array)<\w+(?: \w+)?, (-?\d+), (-?\d+)', cls)
    if m:
        return int(m.group(1)) > 0 and int(m.group(2)) > 0
    return False


def map_ctor(I, S, fr, e, L, nargs):
    cls = S.get(L.o).cls
    vals = [I.ev(a, S, fr) for a in nargs]
    V = eigen_map(I, S, cls, vals, e['l'])
    S.mem[L.o] = S.mem[V.o]


def eigen_map(I, S, cls, vals, loc):
    p = vals[0]
    if isinstance(p, Gated):
        raise Unsupported('map of a gated pointer')
    if isinstance(p, Loc) and p.o == 0:
        I.event('null-deref', 'map over a null pointer', loc, S)
        raise Dead()
    dims = [scal(I, S, v) for v in vals[1:] if not (isinstance(obj(I, S, v), Loc) and obj(I, S, v).k is None and S.get(obj(I, S, v).o).kind == 'stride')]
    outer = None
    for v in vals[1:]:
        v = obj(I, S, v)
        if isinstance(v, Loc) and v.k is None and S.get(v.o).kind == 'stride':
            outer = S.get(v.o).x['outer']
    if not all(isinstance(d, int) for d in dims):
        raise Unsupported('map of symbolic size')
    off = p.k or 0
    if not isinstance(off, int) and S.get(p.o).kind == 'view':
        raise Unsupported('map at a symbolic offset of a view')
    at = (lambda i: off + i) if isinstance(off, int) else lambda i: sym.add(off, i) if i else off
    import re
    mt = re.search(r'(?:Matrix|Array)<[\w ]+, (-?\d+), (-?\d+)(?:, (\d+))?', cls)
    R, C, opt = (int(x or 0) for x in mt.groups()) if mt else (-1, 1, 0)
    rowmajor = bool(opt & 1) and R != 1 and C != 1
    if len(dims) == 1:
        rows, cols = (1, dims[0]) if R == 1 else (dims[0], 1) if C == 1 else (R, C)
    elif dims:
        rows, cols = dims
    else:
        rows, cols = R, C
    if rows < 0 or cols < 0 or R >= 0 and rows != R or C >= 0 and cols != C:
        raise Unsupported('map of %s x %s as %s' % (rows, cols, cls))
    if rowmajor:
        o = outer if outer else cols
        if not isinstance(o, int):
            raise Unsupported('stride')
        idx = [at(i * o + j) for j in range(cols) for i in range(rows)]
    else:
        o = outer if outer else rows
        idx = [at(j * o + i) for j in range(cols) for i in range(rows)]
    return view(I, S, Loc(p.o), idx, rows, cols)


# ------------------------------------------------------------------ strings
def strcont(S, L):
    return S.w(L.o)


def pair_parts(I, S, p):
    p = obj(I, S, p)
    c = S.get(p.o)
    k, v = c.d['std::pair::first'], c.d['std::pair::second']
    if isinstance(k, Loc) and k.k is None and k.o:
        if S.get(k.o).kind in ('str', 'lit'):
            k = sval(I, S, k)
    return k, v


def map_put(I, S, L, k, v, only_new=False):
    c = S.w(L.o)
    if isinstance(k, E):
        raise Unsupported('map insertion under a symbolic key')
    if only_new and k in c.d:
        return False
    t = I.P.ty(c.x['tu'], c.x['vt'])
    if t['c'] == 'rec':
        n = I.new_of_type(S, c.x['tu'], c.x['vt'])
        if S.get(n.o).kind == 'str':
            S.w(n.o).d[0] = sval(I, S, v)
        else:
            I.assign_obj(S, n, obj(I, S, v))
        S.w(L.o).d[k] = n
    else:
        c.d[k] = scal(I, S, v)
    return True


def map_keys(c):
    ks = list(c.d)
    try:
        return sorted(ks)
    except TypeError:
        return ks


def keyof(I, S, v):
    v = obj(I, S, v)
    if isinstance(v, Loc) and v.k is None and S.get(v.o).kind in ('str', 'lit', 'mixed'):
        return sval(I, S, v)
    if isinstance(v, Loc) and v.k is not None:
        w = scal(I, S, v)
        if isinstance(w, Loc):
            return sval(I, S, w)
        return w
    return scal(I, S, v)


def iterval(I, S, v):
    if isinstance(v, (It,)):
        return v
    if isinstance(v, Gated):
        return mval(v.c, iterval(I, S, v.a), iterval(I, S, v.b))
    if isinstance(v, Loc):
        if v.k is None:
            c = S.get(v.o)
            if c.kind == 'iter':
                return c.d['v']
        else:
            if v.k == 'v':
                w = I.load(S, v)
                if isinstance(w, (It, Gated)) or isinstance(w, Loc) and w.k is not None and w != v:
                    return iterval(I, S, w)
            if isinstance(S.get(v.o).d, list) or S.get(v.o).kind == 'sarr':
                return It(v.o, v.k, 'seq')
    raise Unsupported('iterator value')


def mkiter(I, S, it):
    L = I.alloc(S, 'iter', 'iterator', {'v': it})
    S.mem[L.o].x['tmp'] = True
    return L


def sptrval(I, S, v):
    if isinstance(v, Gated):
        return mval(v.c, sptrval(I, S, v.a), sptrval(I, S, v.b))
    if isinstance(v, Loc):
        if v.o == 0:
            return NULL
        if v.k is None:
            c = S.get(v.o)
            if c.kind == 'sptr':
                return c.d['p']
            if c.kind == 'opaque':
                return v
            return v
        if v.k == 'p' and S.get(v.o).kind == 'sptr':
            return S.get(v.o).d['p']
        if S.get(v.o).kind == 'arr' and isinstance(v.k, int) and not 0 <= v.k < len(S.get(v.o).d):
            return v
        w = I.load(S, v)
        if isinstance(w, (Loc, Gated)) and S.get(v.o).kind not in ('arr',):
            return sptrval(I, S, w)
        if isinstance(w, Loc) and w.k is None and w.o and S.get(w.o).kind == 'sptr':
            return S.get(w.o).d['p']
        return v
    if isinstance(v, int) and v == 0:
        return NULL
    raise Unsupported('shared_ptr value')


def mksptr(I, S, p):
    L = I.alloc(S, 'sptr', 'std::shared_ptr', {'p': p})
    S.mem[L.o].x['tmp'] = True
    return L


def vec_resize(I, S, L, n, fillv, loc):
    c = S.w(L.o)
    if not isinstance(n, int):
        raise Unsupported('resize to a symbolic size')
    if n < 0 or n > 400000:
        raise Unsupported('resize to %d' % n)
    t = I.P.ty(c.x['tu'], c.x['et'])
    if n <= len(c.d):
        c.d = c.d[:n]
        return
    add_ = n - len(c.d)
    new = []
    if t['c'] == 'rec':
        for i in range(add_):
            if fillv is not None:
                new.append(I.copy_obj(S, obj(I, S, fillv)))
            else:
                o = I.new_of_type(S, c.x['tu'], c.x['et'])
                dctor = default_ctor(I, S, c.x['tu'], t, o)
                new.append(o)
    else:
        v = scal(I, S, fillv) if fillv is not None else I.zero(t)
        new = [v] * add_
    c = S.w(L.o)
    c.d = list(c.d) + new


def default_ctor(I, S, tu, t, o):
    """run the default constructor of a repository class on fresh storage"""
    r = I.P.rec(tu, t.get('r', ''))
    if not r:
        return
    for m in r[1]['m']:
        if m.get('ctor') and m.get('dflt'):
            fn = I.P.find(r[0], m['u'])
            if fn is not None and not fn.node.get('def') and not fn.node.get('impl'):
                res = I.run(fn, o, [], S)
                if res[0] == 'noret':
                    raise Dead()
                return
    I.default_fields(S, o, zero=True)


# ------------------------------------------------------------------ streams
def stream_ctor(I, S, fr, e, L, nargs):
    c = S.w(L.o)
    r = e['f'].get('r', '')
    vals = [I.ev(a, S, fr) for a in nargs]
    if 'fstream' in r:
        if vals:
            open_file(I, S, fr, L, vals[0], e['l'])
        else:
            c.x['open'] = False
        return
    # string streams
    if vals:
        v = obj(I, S, vals[0])
        if isinstance(v, Loc) and S.get(v.o).kind in ('str', 'lit', 'mixed'):
            s = sval(I, S, v)
            if isinstance(s, Gated):
                raise Unsupported('stream over a gated string')
            c = S.w(L.o)
            c.kind = 'istr'
            c.d = atoms_of(s)
            c.x.update(pos=(0, 0), fail=False, eof=False)


def open_file(I, S, fr, L, name, loc):
    c = S.w(L.o)
    nm = None
    try:
        nm = sval(I, S, name)
    except Unsupported:
        pass
    c.x['path'] = nm if isinstance(nm, (str, E)) else None
    ok = I.file_ok(c, nm) if hasattr(I, 'file_ok') else True
    c.x['open'] = ok
    c.x['fail'] = not_(ok) if isinstance(ok, E) else (not ok)
    I.opened.append((c.x['path'], c.kind, loc)) if hasattr(I, 'opened') else None
    if c.kind == 'istr':
        txt = I.files.get(nm) if hasattr(I, 'files') and isinstance(nm, str) else None
        if txt is not None:
            c.d = list(txt)
            c.x['unknown'] = False
        else:
            c.x['unknown'] = True
    return


def fmtnum(v, prec):
    if isinstance(v, bool):
        return '1' if v else '0'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        if v != v:
            return 'nan'
        if abs(v) == math.inf:
            return 'inf' if v > 0 else '-inf'
        return '%.*g' % (prec or 6, v)
    raise Unsupported('number format')


def emit(I, S, L, atom):
    c = S.get(L.o)
    if c.kind == 'sink':
        return
    if c.kind == 'mixed':
        raise Unsupported('output to a gated stream')
    if c.kind not in ('ostr',):
        raise Unsupported('output to ' + c.kind)
    c = S.w(L.o)
    if isinstance(atom, str) and c.d and isinstance(c.d[-1], str):
        c.d = c.d[:-1] + [c.d[-1] + atom]
    else:
        c.d = c.d + [atom]


def put(I, S, L, v, ty, loc):
    """out << v"""
    if isinstance(v, (Loc, Gated)) and not (isinstance(v, Loc) and v.o == 0):
        v = obj(I, S, v) if isinstance(v, Loc) else v
        if isinstance(v, Gated):
            s = I.sval(S, v)
            c = S.get(L.o)
            if c.kind == 'sink':
                return
            emit(I, S, L, ('gate', s.c, atoms_of(s.a), atoms_of(s.b)))
            return
        if isinstance(v, Loc) and (v.k is None or ty is None or ty.get('c') != 'int') and S.get(v.o).kind in ('str', 'lit', 'mixed'):
            s = sval(I, S, v)
            if isinstance(s, Gated):
                if S.get(L.o).kind != 'sink':
                    emit(I, S, L, ('gate', s.c, atoms_of(s.a), atoms_of(s.b)))
                return
            if S.get(L.o).kind == 'sink':
                return
            for a in atoms_of(s):
                emit(I, S, L, a)
            return
        w = scal(I, S, v, loc)
        if isinstance(w, (Loc, Gated)):
            if S.get(L.o).kind == 'sink':
                return
            if ismat(I, S, w):
                vals = I.matvals(S, w)
                r, cc = shape(I, S, w)
                for i in range(r):
                    if i:
                        emit(I, S, L, '\n')
                    for j in range(cc):
                        if j:
                            emit(I, S, L, ' ')
                        put(I, S, L, vals[j * r + i], None, loc)
                return
            raise Unsupported('output of %r' % (w,))
        v = w
    if S.get(L.o).kind == 'sink':
        return
    if v is UNDEF and I.trace_undef:
        pass
    if ty is not None and ty.get('c') == 'int' and ty.get('w') == 8 and isinstance(v, int):
        emit(I, S, L, chr(v & 255))
        return
    if isinstance(v, (bool, int, float)):
        emit(I, S, L, fmtnum(v, S.get(L.o).x.get('prec', 6)))
        return
    emit(I, S, L, Num(v, (ty or {}).get('s', 'double'), S.get(L.o).x.get('prec', 6)))


class Reader:
    """cursor over an abstract input text"""

    def __init__(self, I, S, L):
        self.I, self.S, self.L = I, S, L
        self.c = S.w(L.o)
        if self.c.kind != 'istr':
            raise Unsupported('input from ' + self.c.kind)
        if self.c.x.get('unknown'):
            raise Unsupported('input from a file whose content is not modelled')
        self.d = self.c.d
        self.i, self.j = self.c.x['pos']
        self.norm()

    def norm(self):
        while self.i < len(self.d) and isinstance(self.d[self.i], str) and self.j >= len(self.d[self.i]):
            self.i += 1
            self.j = 0
        if self.i < len(self.d) and isinstance(self.d[self.i], tuple):
            raise Unsupported('input text that depends on a condition')

    def end(self):
        return self.i >= len(self.d)

    def cur(self):
        a = self.d[self.i]
        return a[self.j] if isinstance(a, str) else a

    def adv(self):
        if isinstance(self.d[self.i], str):
            self.j += 1
        else:
            self.i += 1
            self.j = 0
        self.norm()

    def put_back(self, atom):
        self.c.d = self.d = self.d[:self.i] + [atom] + self.d[self.i + 1:]

    def commit(self):
        self.c.x['pos'] = (self.i, self.j)

    def skipws(self):
        while not self.end():
            ch = self.cur()
            if isinstance(ch, str) and ch in ' \t\n\r\f\v':
                self.adv()
            else:
                break

    def token(self):
        out = []
        while not self.end():
            ch = self.cur()
            if isinstance(ch, str) and ch in ' \t\n\r\f\v':
                break
            if isinstance(ch, Bin):
                textbin(self.I, self.S, None)
            out.append(ch)
            self.adv()
        return out


def read_word(I, S, L, loc):
    c = S.get(L.o)
    if failed(c):
        return None
    R = Reader(I, S, L)
    R.skipws()
    if R.end():
        R.commit()
        R.c.x['eof'] = True
        R.c.x['fail'] = True
        return None
    t = R.token()
    R.commit()
    if R.end():
        R.c.x['eof'] = True
    return rich(t)


def failed(c):
    f = c.x.get('fail')
    if isinstance(f, E):
        raise Unsupported('stream state depends on a condition')
    return bool(f)


def read_num(I, S, L, t, loc):
    """-> value, or None on failure"""
    c = S.get(L.o)
    if failed(c):
        return None
    R = Reader(I, S, L)
    R.skipws()
    if R.end():
        R.commit()
        R.c.x['eof'] = R.c.x['fail'] = True
        return None
    ch = R.cur()
    if isinstance(ch, Bin):
        textbin(I, S, loc)
    if isinstance(ch, Num):
        R.adv()
        R.commit()
        if R.end():
            R.c.x['eof'] = True
        elif isinstance(R.cur(), Num) or R.cur() not in ' \t\n\r\f\v)]},;#':
            if isinstance(R.cur(), Num) or R.cur() in '.0123456789eE+-':
                raise Unsupported('two printed numbers without a separator')
        v = ch.v
        if ch.ty == 'string':
            raise Unsupported('number read from a symbolic word')
        if t['c'] == 'int' and isinstance(v, E) and ch.ty in ('double', 'float'):
            v = fun('trunc', v)
            R.c.x['partial'] = True
        if t['c'] == 'float' and t.get('w') == 32 and isinstance(v, E):
            v = mk('f32', v)
        return v
    # literal number
    chars = ''
    if t['c'] == 'float':
        allowed = '+-0123456789.eE'
    else:
        allowed = '+-0123456789'
    while not R.end() and isinstance(R.cur(), str) and R.cur() in allowed:
        chars += R.cur()
        R.adv()
    while chars and t['c'] == 'float':
        try:
            float(chars)
            break
        except ValueError:
            break
    try:
        v = float(chars) if t['c'] == 'float' else int(chars)
    except ValueError:
        R.commit()
        R.c.x['fail'] = True
        if R.end():
            R.c.x['eof'] = True
        return None
    R.commit()
    if R.end():
        R.c.x['eof'] = True
    if t['c'] == 'bool':
        v = bool(v)
    return v


def read_line(I, S, L, delim='\n', drop=True):
    c = S.get(L.o)
    if failed(c):
        return None
    R = Reader(I, S, L)
    if R.end():
        R.c.x['eof'] = R.c.x['fail'] = True
        R.commit()
        return None
    out = []
    while True:
        if R.end():
            R.c.x['eof'] = True
            break
        ch = R.cur()
        if isinstance(ch, Bin):
            textbin(I, S, loc=None)
        R.adv()
        if ch == delim:
            break
        out.append(ch)
    R.commit()
    return rich(out)


def extract(I, S, fr, L, dst, t, loc):
    """in >> dst"""
    c = S.get(L.o)
    if c.kind == 'ostr':
        # stringstream written then read
        conv_to_istr(S, L)
        c = S.get(L.o)
    if t.get('c') == 'rec' or (isinstance(dst, Loc) and dst.k is None and S.get(dst.o).kind == 'str'):
        w = read_word(I, S, L, loc)
        d = obj(I, S, dst)
        if w is None:
            S.w(d.o).d[0] = '' if not _was_failed(S, L) else S.get(d.o).d[0]
        else:
            S.w(d.o).d[0] = w
        return
    if t.get('c') == 'int' and t.get('w') == 8:
        R = Reader(I, S, L)
        R.skipws()
        if R.end():
            R.c.x['eof'] = R.c.x['fail'] = True
            R.commit()
            return
        ch = R.cur()
        R.adv()
        R.commit()
        I.store(S, dst, ord(ch) if isinstance(ch, str) else UNDEF, loc)
        return
    was = failed(c)
    v = read_num(I, S, L, t, loc)
    if v is None:
        if not was:
            I.store(S, dst, 0.0 if t['c'] == 'float' else 0, loc)
        return
    I.store(S, dst, v, loc)


def _was_failed(S, L):
    return False


def conv_to_istr(S, L):
    c = S.w(L.o)
    c.kind = 'istr'
    c.x.setdefault('pos', (0, 0))
    c.x.setdefault('fail', False)
    c.x.setdefault('eof', False)


def good(c):
    f, e = c.x.get('fail', False), c.x.get('eof', False)
    if isinstance(f, E) or isinstance(e, E):
        return and_(not_(f), not_(e))
    return not f and not e


def stream_method(I, S, fr, e, f, L, c):
    n = f['n']
    op = f.get('op')
    args = e['a']

    def A(i):
        return I.ev(args[i], S, fr)
    if op == '<<':
        v = A(0)
        if isinstance(v, Fn):
            nm = (v.ref or v.node)['n']
            if nm == 'endl':
                emit(I, S, L, '\n')
            elif nm == 'ends':
                emit(I, S, L, '\0')
            elif nm in ('flush', 'scientific', 'fixed', 'defaultfloat', 'left', 'right', 'dec'):
                pass
            elif nm in ('hex', 'oct', 'boolalpha'):
                raise Unsupported('manipulator ' + nm)
            return L
        put(I, S, L, v, I.ty(fr, args[0]['t']), e['l'])
        return L
    if op == '>>':
        a = args[0]
        v = A(0)
        if isinstance(v, Fn):
            nm = (v.ref or v.node)['n']
            if nm == 'ws':
                if not failed(c):
                    R = Reader(I, S, L)
                    R.skipws()
                    R.commit()
            return L
        t = I.ty(fr, a['t'])
        extract(I, S, fr, L, v, t, e['l'])
        raise_if_failed(I, S, fr, L, e['l'])
        return L
    if n in ('precision',):
        if args:
            p = scal(I, S, A(0))
            if c.kind == 'ostr':
                S.w(L.o).x['prec'] = p
            return 6
        return c.x.get('prec', 6)
    if n in ('flush', 'flags', 'setf', 'unsetf', 'exceptions', 'width', 'fill', 'imbue', 'sync', 'sync_with_stdio'):
        for a in args:
            I.ev(a, S, fr)
        if n == 'exceptions':
            m = sym.show(scal(I, S, A(0))) if args else None
            if m is not None:
                S.w(L.o).x['exc'] = 'failbit' in m
                S.w(L.o).x['exceof'] = 'eofbit' in m
                raise_if_failed(I, S, fr, L, e['l'])
        return L if n == 'flush' else 0
    if n == 'open':
        open_file(I, S, fr, L, A(0), e['l'])
        raise_if_failed(I, S, fr, L, e['l'])
        return None
    if n == 'close':
        return None
    if n == 'is_open':
        return c.x.get('open', False)
    if n in ('rdbuf', 'tie'):
        return NULL
    if n == 'str':
        if args:
            s = sval(I, S, A(0))
            conv_to_istr(S, L)
            cc = S.w(L.o)
            cc.d, cc.x['pos'] = atoms_of(s), (0, 0)
            return None
        M = I.mkstr(S, rich(flat_check(c.d)))
        S.mem[M.o].x['tmp'] = True
        return M
    if c.kind == 'sink':
        if n in ('good', 'operator bool'):
            return True
        if n in ('fail', 'bad', 'eof', 'operator!'):
            return False
        if n in ('put', 'write'):
            for a in args:
                I.ev(a, S, fr)
            return L
    if c.kind == 'ostr':
        if n in ('good', 'operator bool'):
            return not_(c.x.get('fail', False))
        if n in ('fail', 'bad', 'operator!'):
            return c.x.get('fail', False)
        if n == 'eof':
            return False
        if n == 'clear':
            return None
        if n == 'put':
            v = scal(I, S, A(0))
            emit(I, S, L, chr(v) if isinstance(v, int) else Num(v, 'char', None))
            return L
        if n == 'write':
            write_bytes(I, S, L, A(0), scal(I, S, A(1)), e['l'])
            return L
        if n in ('tellp',):
            return 0
    if c.kind == 'istr':
        if c.x.get('unknown') and n not in ('clear', 'tellg'):
            if n in ('good', 'operator bool', 'fail', 'eof', 'operator!', 'bad') and isinstance(c.x.get('fail'), bool) and c.x['fail']:
                return n in ('fail', 'bad', 'operator!')
            raise Unsupported('input from a file whose content is not modelled')
        if n in ('good',):
            return good(c)
        if n in ('operator bool',):
            return not_(c.x.get('fail', False))
        if n in ('fail', 'operator!'):
            return c.x.get('fail', False)
        if n == 'bad':
            return False
        if n == 'eof':
            return c.x.get('eof', False)
        if n == 'clear':
            cc = S.w(L.o)
            cc.x['fail'] = cc.x['eof'] = False
            return None
        if n == 'peek':
            if not good(c):
                return -1
            R = Reader(I, S, L)
            R.commit()
            if R.end():
                R.c.x['eof'] = True
                return -1
            ch = R.cur()
            if isinstance(ch, Bin):
                # any byte
                return fun('trunc', var('byte@%s' % e['l']))
            return ord(ch) if isinstance(ch, str) else ord('7')
        if n == 'get' and len(args) >= 2:
            # up to size-1 characters, the delimiter stays in the stream
            buf, size = A(0), scal(I, S, A(1))
            delim = chr(scal(I, S, A(2)) & 255) if len(args) > 2 and args[2]['k'] != 'defarg' else '\n'
            got = ''
            if not failed(c):
                R = Reader(I, S, L)
                while len(got) < size - 1 and not R.end() and R.cur() != delim:
                    if not isinstance(R.cur(), str):
                        raise Unsupported('get(buffer) of a number')
                    got += R.cur()
                    R.adv()
                R.c.x['eof'] = R.c.x.get('eof') or (R.end() and len(got) < size - 1)
                R.c.x['fail'] = R.c.x.get('fail') or not got
                R.commit()
            for i, ch in enumerate(got + '\0'):
                I.store(S, I.padd(buf, i), ord(ch), e['l'])
            return L
        if n == 'get':
            if failed(c):
                return -1
            R = Reader(I, S, L)
            if R.end():
                R.c.x['eof'] = R.c.x['fail'] = True
                R.commit()
                return -1
            ch = R.cur()
            if isinstance(ch, Bin):
                textbin(I, S, e['l'])
            R.adv()
            R.commit()
            if args:
                raise Unsupported('get(buffer)')
            return ord(ch) if isinstance(ch, str) else ord('7')
        if n == 'unget' or n == 'putback':
            raise Unsupported(n)
        if n == 'ignore':
            k = scal(I, S, A(0)) if args and args[0]['k'] != 'defarg' else 1
            delim = scal(I, S, A(1)) if len(args) > 1 and args[1]['k'] != 'defarg' else None
            R = Reader(I, S, L)
            i = 0
            if failed(c):
                return L
            while i < k and not R.end():
                ch = R.cur()
                R.adv()
                i += 1
                if delim is not None and isinstance(ch, str) and ord(ch) == delim:
                    break
            R.commit()
            if R.end() and i < k:
                R.c.x['eof'] = True
            return L
        if n == 'getline':
            buf = A(0)
            size = scal(I, S, A(1))
            delim = chr(scal(I, S, A(2)) & 255) if len(args) > 2 and args[2]['k'] != 'defarg' else '\n'
            was = failed(c)
            s = read_line(I, S, L, delim)
            if isinstance(buf, Loc) and buf.o:
                bc = S.w(buf.o)
                txt = s if s is not None else ''
                if isinstance(txt, Rich):
                    bc.kind, bc.d = 'lit', [txt]
                    bc.x['wasarr'] = True
                elif bc.kind == 'arr':
                    if len(txt) + 1 > (size if isinstance(size, int) else 1 << 30):
                        S.w(L.o).x['fail'] = True
                        txt = txt[:size - 1]
                    for i in range(len(txt)):
                        if i < len(bc.d):
                            bc.d[i] = ord(txt[i])
                    if len(txt) < len(bc.d):
                        bc.d[len(txt)] = 0
                    for i in range(len(txt) + 1, len(bc.d)):
                        bc.d[i] = 0
                elif bc.kind == 'lit':
                    bc.d = [txt]
            return L
        if n == 'tellg':
            return ('pos', c.x['pos']) if not failed(c) else ('pos', None)
        if n == 'seekg':
            p = scal(I, S, A(0))
            cc = S.w(L.o)
            cc.x['eof'] = False
            if isinstance(p, tuple) and p[0] == 'pos' and p[1] is not None and not failed(c):
                cc.x['pos'] = p[1]
                return L
            if failed(c):
                return L
            if isinstance(p, int) and p == 0:
                cc.x['pos'] = (0, 0)
                return L
            raise Unsupported('seekg')
        if n == 'gcount':
            return c.x.get('gcount', 0)
        if n == 'read':
            p, k = A(0), scal(I, S, A(1))
            if not isinstance(k, int):
                raise Unsupported('read of symbolic size')
            if isinstance(p, Loc) and p.k is None and p.o and S.get(p.o).kind in ('arr', 'sarr'):
                p = Loc(p.o, 0)
            if failed(c):
                S.w(L.o).x['gcount'] = 0
                return L
            R = Reader(I, S, L)
            es = elsize(I, S, p)
            done = i = 0
            while done < k and not R.end():
                ch = R.cur()
                if isinstance(ch, Blk) and ch.size == es and done % es == 0:
                    m = min(ch.n, k // es - done // es)
                    at = (p.k or 0) + done // es
                    pc = S.w(p.o)
                    if pc.kind == 'sarr':
                        if isinstance(pc.x['len'], int) and at + m > pc.x['len']:
                            I.event('oob', '%d elements are read into an array of %d' % (at + m, pc.x['len']), e['l'], S)
                        pc.x['writes'] = tuple(pc.x.get('writes', ())) + (('blk', at, at + m, ch.at, -at),)
                    else:
                        for j in range(m):
                            I.store(S, I.padd(p, done // es + j), ch.at(I, S, j), e['l'])
                    done += m * es
                    if m < ch.n:
                        R.put_back(Blk(ch.src, ch.start + m, ch.n - m, es))
                        continue
                elif isinstance(ch, Bin) and ch.size == es and done % es == 0:
                    I.store(S, I.padd(p, done // es), ch.v, e['l'])
                    done += es
                elif isinstance(ch, Bin) and es == 1:
                    I.store(S, I.padd(p, done), UNDEF, e['l'])
                    done += ch.size
                elif isinstance(ch, str):
                    if es == 1:
                        I.store(S, I.padd(p, done), ord(ch), e['l'])
                        done += 1
                    else:
                        I.event('textbin', 'text is read as binary numbers', e['l'], S)
                        I.store(S, I.padd(p, done // es), UNDEF, e['l'])
                        done += 1
                else:
                    I.event('textbin', 'binary numbers are read across their boundaries', e['l'], S)
                    raise Dead()
                R.adv()
            R.commit()
            R.c.x['gcount'] = done
            if done < k:
                R.c.x['eof'] = R.c.x['fail'] = True
                raise_if_failed(I, S, fr, L, e['l'])
            return L
    raise Unsupported('stream method %s on %s at %s' % (n, c.kind, e['l']))


def textbin(I, S, loc):
    I.event('textbin', 'binary data is read as text', loc, S)
    raise Dead()


def raise_if_failed(I, S, fr, L, loc):
    """a stream that was asked to throws when it fails"""
    c = S.get(L.o)
    if c.kind not in ('istr', 'ostr') or not (c.x.get('exc') or c.x.get('exceof')):
        return
    f = c.x.get('fail', False) if c.x.get('exc') else False
    if c.x.get('exceof'):
        f = or_(f, c.x.get('eof', False))
    f = I.decide(f, S)
    if isinstance(f, E):
        T = S.fork(f)
        fr.exits.append(('throw', T, Thrown(loc, 'std::ios_base::failure')))
        c = S.w(L.o)
        S.pc = S.pc + (not_(f),)
        if isinstance(c.x.get('fail'), E):
            c.x['fail'] = False
            if isinstance(c.x.get('open'), E):
                c.x['open'] = True
        return
    if f:
        I.event('throw', 'the stream throws', loc, S)
        return abortexit(I, S, fr, 'throw', Thrown(loc, 'std::ios_base::failure'))


def flat_check(d):
    for a in d:
        if isinstance(a, tuple):
            raise Unsupported('text that depends on a condition')
    return d


# ------------------------------------------------------------------ methods
def method(I, S, fr, e, f, o):
    n, op, q = f['n'], f.get('op'), f['q']
    args = e['a']

    def A(i):
        return I.ev(args[i], S, fr)
    if isinstance(o, Gated):
        c = I.decide(o.c, S)
        if not isinstance(c, E):
            return method(I, S, fr, e, f, o.a if c else o.b)
        # evaluate on both alternatives
        res = [None, None]

        def side(i, x):
            def g(T):
                try:
                    res[i] = method(I, T, fr, e, f, x)
                    return True
                except Dead:
                    return False
            return g
        from interp import merge
        pc = S.pc
        P, Q = S.fork(c), S.fork(not_(c))
        a, b = side(0, o.a)(P), side(1, o.b)(Q)
        if a and b:
            S.become(merge(c, P, Q, pc))
            return I.mret(c, res[0], res[1], S)
        if a or b:
            S.become(P if a else Q)
            return res[0] if a else res[1]
        raise Dead()
    if isinstance(o, It):
        o = mkiter(I, S, o)
    if not isinstance(o, Loc):
        raise Unsupported('method %s on %r' % (q, o))
    raw = o
    if f.get('r') == 'std::_Bit_reference':
        if n == 'operator bool':
            return I.truth(scal(I, S, o, e['l']))
        if op == '=':
            I.store(S, o, I.truth(scal(I, S, A(0))), e['l'])
            return o
    if o.k is not None and o.o:
        o2 = obj(I, S, o)
        if isinstance(o2, Gated):
            return method(I, S, fr, e, f, o2)
        if isinstance(o2, Loc) and o2.k is None:
            o = o2
        elif o2.k is not None:
            v = I.load(S, o2)
            if isinstance(v, It):
                pass
    if o.o == 0:
        I.event('null-deref', 'call of %s through a null pointer' % q, e['l'], S)
        raise Dead()
    c = S.get(o.o)
    kind = c.kind
    if kind == 'mixed':
        a, b = c.x['a'], c.x['b']
        cond = c.x['c']
        raise Unsupported('method %s on an object of two shapes at %s' % (q, e['l']))
    if kind == 'sptr':
        return sptr_method(I, S, fr, e, f, o, c)
    if kind == 'vector':
        return vector_method(I, S, fr, e, f, o, c)
    if kind in ('str', 'lit'):
        return string_method(I, S, fr, e, f, o, c)
    if kind == 'map':
        return mapm(I, S, fr, e, f, o, c)
    if kind == 'iter':
        return iter_method(I, S, fr, e, f, o, c)
    if kind == 'inserter' and op == '=':
        import stdlib
        stdlib.push(I, S, c.d['v'], A(0), e['l'])
        return o
    if kind == 'arr' and f.get('r') == 'std::array':
        import stdlib
        return stdlib.array_method(I, S, fr, e, f, o, c)
    if kind == 'tuple':
        import stdlib
        return stdlib.tuple_method(I, S, fr, e, f, o, c)
    if kind in ('fnobj', 'stdop', 'bind') and (op == '()' or n == 'operator()'):
        import stdlib
        return stdlib.apply(I, S, fr, e, o, [A(i) for i in range(len(args))])
    if kind == 'fnobj':
        if n == 'operator bool':
            v = c.d['v']
            return not (v is None or v == NULL)
        if op == '=':
            v = A(0)
            setobj(I, S, o, v)
            return o
    if f.get('r') == 'std::reference_wrapper' or q.startswith('std::reference_wrapper'):
        if n == 'get' or n.startswith('operator '):
            return raw
    if kind in ('mat', 'view'):
        return mat_method(I, S, fr, e, f, o, c)
    if kind in ('ostr', 'istr', 'sink'):
        return stream_method(I, S, fr, e, f, o, c)
    if kind == 'comma':
        return comma_method(I, S, fr, e, f, o, c)
    if kind == 'angleaxis' and op == '*':
        v = I.matvals(S, obj(I, S, A(0)))
        return rodrigues(I, S, c.x['a'], c.x['v'], v)
    if kind == 'vw':
        return vectorwise(I, S, fr, e, f, o, c)
    if kind == 'rec' and c.x.get('cn') == 'std::pair':
        if op == '=':
            I.assign_obj(S, o, obj(I, S, A(0)), e['l'])
            return o
    if kind == 'cell':
        if op == '=':
            S.w(o.o).d['v'] = scal(I, S, A(0))
            return o
        if n.startswith('operator '):
            return c.d['v']
    if kind == 'opaque':
        for a in args:
            I.ev(a, S, fr)
        return I.unknown(S, fr, e, f, o, [])
    raise Unsupported('method %s on %s at %s' % (q, kind, e['l']))


def sptr_method(I, S, fr, e, f, o, c):
    n, op = f['n'], f.get('op')
    p = c.d['p']
    if op == '->' or n == 'get':
        return p
    if op == '*':
        if isinstance(p, Loc) and p.o == 0:
            I.event('null-deref', 'dereference of an empty shared_ptr', e['l'], S)
            raise Dead()
        return p
    if n == 'operator bool':
        return I.truth(p)
    if op == '=':
        v = I.ev(e['a'][0], S, fr)
        cc = S.w(o.o)
        cc.d['p'] = sptrval(I, S, v)
        cc.prov['p'] = e['l']
        return o
    if n == 'reset':
        v = sptrval(I, S, I.ev(e['a'][0], S, fr)) if e['a'] else NULL
        if e['a'] and isinstance(v, Loc) and v.o and S.get(v.o).x.get('heap') == 'new[]' and len(e['a']) == 1 and '[]' not in c.cls:
            I.event('mismatch', 'new[] storage owned by a shared_ptr that releases it with delete', e['l'], S)
        S.w(o.o).d['p'] = v
        return None
    if op == '[]':
        return I.idx(S, p, scal(I, S, I.ev(e['a'][0], S, fr)), e)
    if n == 'release':
        S.w(o.o).d['p'] = NULL
        return p
    if n == 'use_count':
        return 1
    raise Unsupported('shared_ptr::' + n)


def vector_method(I, S, fr, e, f, o, c):
    n, op = f['n'], f.get('op')
    args = e['a']

    def A(i):
        return I.ev(args[i], S, fr)
    if n in ('size', 'capacity', 'max_size'):
        return len(c.d)
    if n == 'empty':
        return len(c.d) == 0
    if op == '[]' or n == 'at':
        i = scal(I, S, A(0))
        c = S.get(o.o)
        if isinstance(i, int) and not 0 <= i < len(c.d):
            I.event('oob', 'index %d of a vector of %d' % (i, len(c.d)), e['l'], S)
            if n == 'at':
                fr.exits.append(('throw', State(S.mem, S.pc), Thrown(e['l'], 'std::out_of_range')))
                S.newtoken()
                raise Dead()
            cl = I.alloc(S, 'cell', 'oob', {'v': UNDEF})
            return Loc(cl.o, 'v')
        if c.cls.startswith('std::vector<bool') and isinstance(i, int) and I.P.ty(fr.tu, e['t'])['c'] == 'bool':
            return c.d[i]
        return elref(I, S, o, i)
    if n in ('front', 'back'):
        if not c.d:
            I.event('oob', n + '() of an empty vector', e['l'], S)
            raise Dead()
        return elref(I, S, o, 0 if n == 'front' else len(c.d) - 1)
    if n in ('push_back', 'emplace_back'):
        t = I.P.ty(c.x['tu'], c.x['et'])
        v = A(0) if len(args) == 1 else None
        if n == 'emplace_back' and t['c'] == 'rec' and (len(args) > 1 or v is not None and t.get('r') and t['r'] != S.get(obj(I, S, v).o).x.get('cn') if isinstance(v, Loc) and v.o or v is None else len(args) > 1):
            x = construct(I, S, fr, c, t, [v] if v is not None else [A(i) for i in range(len(args))], args, e['l'])
        elif t['c'] == 'rec':
            x = I.new_of_type(S, c.x['tu'], c.x['et'])
            if S.get(x.o).kind == 'str':
                S.w(x.o).d[0] = sval(I, S, v)
            elif S.get(x.o).kind == 'sptr':
                S.w(x.o).d['p'] = sptrval(I, S, v)
            else:
                x = I.copy_obj(S, obj(I, S, v))
        else:
            x = scal(I, S, v) if t['c'] != 'ptr' else ptrval(I, S, v)
        cc = S.w(o.o)
        cc.d = cc.d + [x]
        return elref(I, S, o, len(cc.d) - 1) if n == 'emplace_back' else None
    if n == 'pop_back':
        cc = S.w(o.o)
        cc.d = cc.d[:-1]
        return None
    if n == 'clear':
        S.w(o.o).d = []
        return None
    if n == 'reserve' or n == 'shrink_to_fit':
        return None
    if n == 'resize':
        k = scal(I, S, A(0))
        vec_resize(I, S, o, k, A(1) if len(args) > 1 and args[1]['k'] != 'defarg' else None, e['l'])
        return None
    if n == 'assign':
        v = [A(i) for i in range(len(args))]
        if len(v) == 2 and not stdrange(I, S, v[0]):
            k = scal(I, S, v[0])
            if isinstance(k, int):
                S.w(o.o).d = []
                vec_resize(I, S, o, k, v[1], e['l'])
                return None
        else:
            new = range_elements(I, S, c, v, e['l'])
            S.w(o.o).d = new
            return None
    if n in ('rbegin', 'crbegin'):
        return mkiter(I, S, It(o.o, len(c.d), 'rev'))
    if n in ('rend', 'crend'):
        return mkiter(I, S, It(o.o, 0, 'rev'))
    if c.cls.startswith(('std::set<', 'std::unordered_set<', 'const std::set<')) and n in ('insert', 'emplace', 'count', 'find', 'erase') and len(args) == 1:
        import stdlib
        v = A(0)
        if not (n == 'erase' and stdrange(I, S, v)):
            pos, hit = 0, None
            for i in range(len(c.d)):
                r = stdlib.same(I, S, elref(I, S, o, i), v, e['l'])
                if stdlib.decided(I, S, r, e['l']):
                    hit = i
                elif stdlib.order(I, S, fr, e, None, elref(I, S, o, i), v):
                    pos = i + 1
            if n == 'count':
                return int(hit is not None)
            if n == 'find':
                return mkiter(I, S, It(o.o, len(c.d) if hit is None else hit, 'seq'))
            if n == 'erase':
                if hit is not None:
                    cc = S.w(o.o)
                    cc.d = cc.d[:hit] + cc.d[hit + 1:]
                return int(hit is not None)
            if hit is None:
                x = element(I, S, c, v)
                cc = S.w(o.o)
                cc.d = cc.d[:pos] + [x] + cc.d[pos:]
            L = I.alloc(S, 'rec', 'std::pair', {'std::pair::first': It(o.o, pos if hit is None else hit, 'seq'), 'std::pair::second': hit is None}, cn='std::pair', tu=fr.tu)
            S.w(L.o).d['std::pair::first'] = mkiter(I, S, It(o.o, pos if hit is None else hit, 'seq'))
            return L
    if n == 'data':
        return Loc(o.o, 0)
    if n in ('begin', 'cbegin'):
        return mkiter(I, S, It(o.o, 0, 'seq'))
    if n in ('end', 'cend'):
        return mkiter(I, S, It(o.o, len(c.d), 'seq'))
    if op == '=':
        v = obj(I, S, A(0))
        if isinstance(v, Loc) and S.get(v.o).kind == 'vector':
            I.assign_obj(S, o, v, e['l'])
            return o
    if n == 'swap':
        v = obj(I, S, A(0))
        a, b = S.w(o.o), S.w(v.o)
        a.d, b.d = b.d, a.d
        return None
    if n in ('erase', 'insert', 'pop_front', 'push_front'):
        # elements are addressed by position: iterators other than the one returned are not followed
        n0 = len(S.get(o.o).d)
        if n == 'pop_front':
            if not n0:
                I.event('oob', 'pop_front() of an empty list', e['l'], S)
                raise Dead()
            S.w(o.o).d = S.w(o.o).d[1:]
            return None
        its = [A(i) for i in range(len(args))]
        pos = iterval(I, S, its[0]) if n != 'push_front' else It(o.o, 0, 'seq')
        if not isinstance(pos, It) or pos.o != o.o or not isinstance(pos.k, int):
            if pos is UNDEF:
                I.event('uninit', '%s at an uninitialised iterator' % n, e['l'], S)
                raise Dead()
            raise Unsupported('vector::%s at an unknown place at %s' % (n, e['l']))
        if n == 'erase':
            b = iterval(I, S, its[1]).k if len(its) > 1 else pos.k + 1
            if not 0 <= pos.k <= b <= n0:
                I.event('oob', 'erase of [%d,%d) of %d elements' % (pos.k, b, n0), e['l'], S)
                raise Dead()
            cc = S.w(o.o)
            cc.d = cc.d[:pos.k] + cc.d[b:]
            return mkiter(I, S, It(o.o, pos.k, 'seq'))
        if not 0 <= pos.k <= n0:
            I.event('oob', 'insert at %d of %d elements' % (pos.k, n0), e['l'], S)
            raise Dead()
        if n == 'push_front' or len(its) == 2 and not listval(S, its[1]):
            new = [element(I, S, c, its[-1])]
        elif len(its) == 3 and not stdrange(I, S, its[1]):
            k = scal(I, S, its[1])
            if not isinstance(k, int) or not 0 <= k <= 300000:
                raise Unsupported('vector::insert of an unknown number at %s' % e['l'])
            new = [element(I, S, c, its[2]) for _ in range(k)]
        else:
            new = range_elements(I, S, c, its[1:], e['l'])
        cc = S.w(o.o)
        cc.d = cc.d[:pos.k] + new + cc.d[pos.k:]
        return mkiter(I, S, It(o.o, pos.k, 'seq')) if n == 'insert' else None
    raise Unsupported('vector::%s at %s' % (n, e['l']))


def stdrange(I, S, v):
    """is v an iterator or a pointer (and no number)?"""
    if isinstance(v, It):
        return True
    if isinstance(v, Loc) and v.o:
        c = S.get(v.o)
        if c.kind == 'iter':
            return True
        if v.k is not None:
            if c.kind == 'cell' and v.k == 'v':
                return isinstance(c.d['v'], (Loc, It))
            return isinstance(v.k, int) and c.kind != 'cell'
    return False


def listval(S, v):
    return isinstance(v, Loc) and v.k is None and v.o and S.get(v.o).kind in ('arr', 'list')


def range_elements(I, S, c, v, loc):
    """the elements of a range or a list, as elements of c"""
    import stdlib
    if len(v) == 1:
        o = obj(I, S, v[0])
        its = [It(o.o, i, 'seq') for i in range(len(S.get(o.o).d))]
    else:
        its = stdlib.places(I, S, v[0], v[1], loc)
    return [element(I, S, c, stdlib.place(I, S, it, loc)) for it in its]


def ptrval(I, S, v):
    if isinstance(v, Loc) and v.k is not None and v.o and S.get(v.o).kind == 'cell':
        w = I.load(S, v)
        if isinstance(w, (Loc, Gated)):
            return w
    return v


def elref(I, S, o, i):
    c = S.get(o.o)
    if isinstance(i, int) and 0 <= i < len(c.d):
        v = c.d[i]
        if isinstance(v, Loc) and v.k is None and v.o and I.owned(S, c, i, v):
            return v
    return Loc(o.o, i)


NUMCHARS = set('0123456789+-.eEinfaINFAxX')


def rich_string_method(I, S, fr, e, n, op, args, A, s, setv, tmp, o):
    """strings that hold numbers: a number counts as one character, which is
    neither a blank nor punctuation"""
    hold, flat = [], []
    for a in s.atoms:
        if isinstance(a, str):
            flat.append(a)
        elif isinstance(a, Num):
            flat.append(chr(0xE000 + len(hold)))
            hold.append(a)
        else:
            raise Unsupported('method %s on a text with bytes' % n)
    flat = ''.join(flat)

    def back(t):
        out = []
        for ch in t:
            if 0xE000 <= ord(ch) < 0xE000 + len(hold):
                out.append(hold[ord(ch) - 0xE000])
            elif out and isinstance(out[-1], str):
                out[-1] += ch
            else:
                out.append(ch)
        return rich(tuple(out)) if out else ''
    NP = (1 << 64) - 1

    def pos(x):
        """positions counted from the start or, with size(), from the end"""
        if isinstance(x, E) and x.op == 'strlen':
            return len(flat)
        if isinstance(x, E) and x.op in ('+', '-'):
            p, q = pos(x.args[0]), pos(x.args[1])
            if isinstance(p, int) and isinstance(q, int):
                return p + q if x.op == '+' else p - q
        return int(x) if isinstance(x, float) and x == int(x) else x
    if op == '[]' or n in ('at', 'front', 'back'):
        i = len(flat) - 1 if n == 'back' else pos(scal(I, S, A(0))) if args else 0
        if isinstance(i, int) and 0 <= i < len(flat):
            ch = ord(flat[i])
            cl = I.alloc(S, 'cell', 'char', {'v': ch if ch < 0xE000 else var('#ch%d' % (ch - 0xE000))}, strel=(o.o, i))
            return Loc(cl.o, 'v')
    if n in ('begin', 'cbegin'):
        return mkiter(I, S, It(o.o, 0, 'str'))
    if n in ('end', 'cend'):
        return mkiter(I, S, It(o.o, len(flat), 'str'))
    if n in ('find', 'rfind', 'find_last_of', 'find_first_of', 'find_first_not_of', 'find_last_not_of'):
        v = A(0)
        t = chr(v & 255) if isinstance(v, int) else sval(I, S, v)
        p = scal(I, S, A(1)) if len(args) > 1 else None
        if not isinstance(t, str) or set(t) & NUMCHARS or not (p is None or isinstance(p, int)):
            raise Unsupported('%s on a text with numbers' % n)
        if n == 'find':
            r = flat.find(t, p or 0)
        elif n == 'rfind':
            r = flat.rfind(t) if p is None or p >= len(flat) else flat.rfind(t, 0, p + len(t))
        else:
            r = -1
            for i in range(len(flat)) if 'first' in n else range(len(flat) - 1, -1, -1):
                if p is not None and (i < p if 'first' in n else i > p):
                    continue
                if (flat[i] in t) == ('not' not in n):
                    r = i
                    break
        return r if r >= 0 else NP
    if n == 'substr':
        p = pos(scal(I, S, A(0))) if args else 0
        k = pos(scal(I, S, A(1))) if len(args) > 1 else None
        if isinstance(p, int) and p <= len(flat) and (k is None or isinstance(k, int)):
            return tmp(back(flat[p:] if k is None or k < 0 or k == NP else flat[p:p + k]))
    if n == 'erase':
        p = scal(I, S, A(0)) if args else 0
        k = scal(I, S, A(1)) if len(args) > 1 else len(flat)
        if isinstance(p, int) and isinstance(k, int) and args:
            setv(back(flat[:p] + flat[p + k:]))
            return o
    if n == 'pop_back' and isinstance(s.atoms[-1], str):
        setv(back(flat[:-1]))
        return None
    raise Unsupported('method %s on a text with numbers' % n)


def string_method(I, S, fr, e, f, o, c):
    n, op = f['n'], f.get('op')
    args = [a for a in e['a'] if a['k'] != 'defarg']

    def A(i):
        return I.ev(args[i], S, fr)

    def setv(v):
        S.w(o.o).d[0] = v
    s = c.d[0]

    def tmp(v):
        L = I.mkstr(S, v)
        S.mem[L.o].x['tmp'] = True
        return L
    if op == '=':
        v = A(0)
        if isinstance(v, int):
            setv(chr(v))
        else:
            setv(sval(I, S, v))
        return o
    if op == '+=' or n in ('append', 'push_back'):
        v = A(0)
        if isinstance(v, int) and len(args) == 1:
            t = chr(v & 255)
        elif isinstance(v, int):
            ch = scal(I, S, A(1))
            t = chr(ch) * v
        elif isinstance(v, Loc) and v.k is not None and isinstance(scal(I, S, v), int):
            t = chr(scal(I, S, v) & 255)
        else:
            t = sval(I, S, v)
        s = S.get(o.o).d[0]
        if isinstance(s, Gated) or isinstance(t, Gated):
            raise Unsupported('append to a gated string')
        setv(rich(atoms_of(s) + atoms_of(t)))
        return o if n != 'push_back' else None
    if n == 'c_str' or n == 'data':
        return Loc(o.o, 0)
    if isinstance(s, Gated):
        if n in ('empty', 'size', 'length'):
            g = lambda x: len(x) if n != 'empty' else len(x) == 0
            if isinstance(s.a, str) and isinstance(s.b, str):
                return ite(s.c, g(s.a), g(s.b))
        if n == 'compare' and len(args) == 1:
            t = sval(I, S, A(0))
            return ite(seq(s, t), 0, 1)
        raise Unsupported('method %s on a gated string' % n)
    if n == 'empty':
        if isinstance(s, E):
            return mk('==', s, '')
        return isinstance(s, str) and s == ''
    if n in ('size', 'length'):
        if isinstance(s, str):
            return len(s)
        return mk('strlen', s) if isinstance(s, E) else mk('strlen', repr(s), sum(len(a) if isinstance(a, str) else 1 for a in s.atoms))
    if n == 'compare':
        if len(args) == 1:
            t = sval(I, S, A(0))
            if isinstance(s, str) and isinstance(t, str):
                return (s > t) - (s < t)
            return ite(seq(s, t), 0, 1)
        p, k = scal(I, S, A(0)), scal(I, S, A(1))
        t = sval(I, S, A(2))
        if isinstance(s, str) and isinstance(t, str) and isinstance(p, int) and isinstance(k, int):
            u = s[p:p + k]
            return (u > t) - (u < t)
        if isinstance(s, Rich) and isinstance(p, int) and p == 0 and isinstance(s.atoms[0], str) and isinstance(k, int) and k <= len(s.atoms[0]):
            u = s.atoms[0][:k]
            return (u > t) - (u < t)
        if isinstance(s, Rich) and isinstance(t, str) and p == 0 and isinstance(k, int) and t:
            # decided at the first character, which no printed number shares
            if isinstance(s.atoms[0], str):
                u = s.atoms[0][:len(t)]
                if u != t[:len(u)]:
                    return (u > t) - (u < t)
            else:
                u = ''
            rest = t[len(u):]
            if rest and len(u) < len(s.atoms[0] if isinstance(s.atoms[0], str) else 'x') + 1 and (isinstance(s.atoms[0], Num) or len(s.atoms) > 1 and isinstance(s.atoms[1], Num)):
                if rest.startswith('--') or rest[0] not in NUMCHARS:
                    return -1 if rest[0] > '9' else 1
        raise Unsupported('string compare')
    if n == 'clear':
        setv('')
        return None
    if isinstance(s, Rich):
        if n == 'substr' and args:
            p = scal(I, S, A(0))
            if isinstance(p, int) and len(args) == 1 and isinstance(s.atoms[0], str) and p <= len(s.atoms[0]):
                return tmp(rich((s.atoms[0][p:],) + s.atoms[1:]))
        if op == '[]' or n in ('at', 'front'):
            i = scal(I, S, A(0)) if args else 0
            if isinstance(s.atoms[0], str) and isinstance(i, int) and i < len(s.atoms[0]):
                cl = I.alloc(S, 'cell', 'char', {'v': ord(s.atoms[0][i])}, strel=(o.o, i))
                return Loc(cl.o, 'v')
        return rich_string_method(I, S, fr, e, n, op, args, A, s, setv, tmp, o)
    if isinstance(s, E):
        raise Unsupported('method %s on a symbolic string' % n)
    if n == 'substr':
        p = scal(I, S, A(0)) if args else 0
        k = scal(I, S, A(1)) if len(args) > 1 else None
        if not isinstance(p, int) or not (k is None or isinstance(k, int)):
            raise Unsupported('substr')
        if p > len(s):
            I.event('throw', 'substr() past the end of the string', e['l'], S)
            fr.exits.append(('throw', State(S.mem, S.pc), Thrown(e['l'], 'std::out_of_range')))
            S.newtoken()
            raise Dead()
        if k is not None and k < 0:
            k = None
        return tmp(s[p:] if k is None else s[p:p + k])
    if op == '[]' or n in ('at', 'front', 'back'):
        if n == 'front':
            i = 0
        elif n == 'back':
            i = len(s) - 1
        else:
            i = scal(I, S, A(0))
        if isinstance(i, int):
            if i > len(s) or i < 0 or (n in ('front', 'back') and not s):
                I.event('oob', 'index %d of a string of %d' % (i, len(s)), e['l'], S)
                raise Dead()
            cl = I.alloc(S, 'cell', 'char', {'v': ord(s[i]) if i < len(s) else 0}, strel=(o.o, i))
            return Loc(cl.o, 'v')
        raise Unsupported('symbolic string subscript')
    if n in ('find', 'rfind', 'find_last_of', 'find_first_of', 'find_first_not_of', 'find_last_not_of'):
        v = A(0)
        t = chr(v & 255) if isinstance(v, int) else sval(I, S, v)
        p = scal(I, S, A(1)) if len(args) > 1 else None
        if not isinstance(t, str):
            raise Unsupported(n)
        if n == 'find':
            r = s.find(t, p or 0)
        elif n == 'rfind':
            r = s.rfind(t) if p is None or p >= len(s) else s.rfind(t, 0, p + len(t))
        else:
            rng = range(len(s)) if 'first' in n else range(len(s) - 1, -1, -1)
            r = -1
            for i in rng:
                if 'first' in n and p is not None and i < p:
                    continue
                if (s[i] in t) == ('not' not in n):
                    r = i
                    break
        return r if r >= 0 else (1 << 64) - 1
    if n in ('begin', 'cbegin'):
        return mkiter(I, S, It(o.o, 0, 'str'))
    if n in ('end', 'cend'):
        return mkiter(I, S, It(o.o, len(s), 'str'))
    if n == 'erase':
        v = [A(i) for i in range(len(args))]
        if v and isinstance(v[0], Loc) and v[0].k is None:
            a = iterval(I, S, v[0]).k
            b = iterval(I, S, v[1]).k if len(v) > 1 else a + 1
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Unsupported('erasing an unknown part of a text')
            setv(s[:a] + s[b:])
            return mkiter(I, S, It(o.o, a, 'str'))
        p = scal(I, S, v[0]) if args else 0
        k = scal(I, S, v[1]) if len(args) > 1 else len(s)
        setv(s[:p] + s[p + k:])
        return o
    if n == 'insert':
        v = [A(i) for i in range(len(args))]
        if isinstance(v[0], Loc) and v[0].k is None:
            p = iterval(I, S, v[0]).k
            if len(v) == 2 and isinstance(p, int):
                x = scal(I, S, v[1])
                if isinstance(x, int):
                    setv(s[:p] + chr(x & 255) + s[p:])
                    return mkiter(I, S, It(o.o, p, 'str'))
        else:
            p = scal(I, S, v[0])
            if isinstance(p, int) and p > len(s):
                I.event('throw', 'insertion beyond the end of a text', e['l'], S)
                return abortexit(I, S, fr, 'throw', Thrown(e['l'], 'std::out_of_range'))
            if isinstance(p, int) and len(v) == 3 and not isinstance(v[1], Loc):
                k, x = scal(I, S, v[1]), scal(I, S, v[2])
                if isinstance(k, int) and isinstance(x, int):
                    setv(s[:p] + chr(x & 255) * k + s[p:])
                    return o
            t = sval(I, S, v[1]) if isinstance(p, int) and len(v) in (2, 3) else None
            if isinstance(t, str):
                if len(v) == 3:
                    t = t[:scal(I, S, v[2])]
                setv(s[:p] + t + s[p:])
                return o
        raise Unsupported('insertion into a text at ' + e['l'])
    if n == 'replace':
        v = [A(i) for i in range(len(args))]
        if len(v) == 3 and all(isinstance(scal(I, S, x), int) for x in v[:2]) and not (isinstance(v[0], Loc) and v[0].k is None):
            p, k, t = scal(I, S, v[0]), scal(I, S, v[1]), sval(I, S, v[2])
            if isinstance(t, str) and p <= len(s):
                setv(s[:p] + t + s[p + k:])
                return o
        raise Unsupported('replacement in a text at ' + e['l'])
    if n == 'copy' or n == 'swap':
        if n == 'swap':
            b = obj(I, S, A(0))
            t = S.get(b.o).d[0]
            S.w(b.o).d[0] = s
            setv(t)
            return None
        raise Unsupported('string::copy')
    if n == 'resize':
        k = scal(I, S, A(0))
        setv(s[:k] + '\0' * (k - len(s)))
        return None
    if n == 'reserve':
        return None
    if n == 'pop_back':
        setv(s[:-1])
        return None
    raise Unsupported('string::%s at %s' % (n, e['l']))


def mapm(I, S, fr, e, f, o, c):
    n, op = f['n'], f.get('op')
    args = e['a']

    def A(i):
        return I.ev(args[i], S, fr)
    if n == 'size':
        return len(c.d)
    if n == 'empty':
        return len(c.d) == 0
    if n == 'clear':
        S.w(o.o).d = {}
        return None
    if n in ('begin', 'cbegin'):
        ks = map_keys(c)
        return mkiter(I, S, It(o.o, ks[0] if ks else None, 'map'))
    if n in ('end', 'cend'):
        return mkiter(I, S, It(o.o, None, 'map'))
    if n == 'count':
        k = keyof(I, S, A(0))
        return symlookup(c, k, lambda x: 1, 0)
    if n == 'find':
        k = keyof(I, S, A(0))
        c = S.get(o.o)
        r = symlookup(c, k, lambda x: It(o.o, x, 'map'), It(o.o, None, 'map'))
        return mkiter(I, S, r)
    if op == '[]' or n == 'at':
        k = keyof(I, S, A(0))
        c = S.get(o.o)
        if isinstance(k, (E, Gated)):
            raise Unsupported('map lookup under a symbolic key')
        if k not in c.d:
            if n == 'at':
                I.event('throw', 'map::at() of a missing key', e['l'], S)
                fr.exits.append(('throw', State(S.mem, S.pc), Thrown(e['l'], 'std::out_of_range')))
                S.newtoken()
                raise Dead()
            t = I.P.ty(c.x['tu'], c.x['vt'])
            if t['c'] == 'rec':
                x = I.new_of_type(S, c.x['tu'], c.x['vt'])
                default_ctor(I, S, c.x['tu'], t, x)
            else:
                x = I.zero(t)
            S.w(o.o).d[k] = x
        v = S.get(o.o).d[k]
        if isinstance(v, Loc) and v.k is None and v.o:
            return v
        return Loc(o.o, k)
    if n in ('insert', 'emplace'):
        if len(args) == 2:
            k, v = keyof(I, S, A(0)), A(1)
        else:
            k, v = pair_parts(I, S, A(0))
        map_put(I, S, o, k, v, only_new=True)
        return mkiter(I, S, It(o.o, k, 'map'))
    if n == 'erase':
        k = keyof(I, S, A(0))
        S.w(o.o).d.pop(k, None)
        return 1
    if op == '=':
        v = obj(I, S, A(0))
        I.assign_obj(S, o, v, e['l'])
        return o
    raise Unsupported('map::' + n)


def symlookup(c, k, hit, miss):
    if isinstance(k, Gated):
        return mval(k.c, symlookup(c, k.a, hit, miss), symlookup(c, k.b, hit, miss))
    if not isinstance(k, E):
        return hit(k) if k in c.d else miss
    r = miss
    for x in reversed(map_keys(c)):
        r = mval(mk('==', k, x) if isinstance(x, str) else cmp('==', k, x), hit(x), r)
    return r


def iter_deref(I, S, it, loc):
    if isinstance(it, Gated):
        return Gated(it.c, iter_deref(I, S, it.a, loc), iter_deref(I, S, it.b, loc))
    if it is UNDEF:
        I.event('uninit', 'dereference of an uninitialised iterator', loc, S)
        raise Dead()
    if it.kind == 'map':
        if it.k is None:
            I.event('oob', 'dereference of end()', loc, S)
            return NULL
        return I.map_pair(S, Loc(it.o), it.k)
    c = S.get(it.o)
    if it.kind in ('back', 'front', 'ins', 'out'):
        return Loc(I.alloc(S, 'inserter', 'inserter', {'v': it}).o)
    k = it.k
    if it.kind == 'rev':
        k -= 1
        if c.kind in ('str', 'lit'):
            it = It(it.o, k, 'str')
    if c.kind == 'sarr':
        return Loc(it.o, k)
    if it.kind == 'str':
        s = c.d[0]
        if not 0 <= it.k < len(s):
            I.event('oob', 'dereference of end()', loc, S)
            raise Dead()
        cl = I.alloc(S, 'cell', 'char', {'v': ord(s[it.k])}, strel=(it.o, it.k))
        return Loc(cl.o, 'v')
    n = len(c.x['idx']) if c.kind == 'view' else len(c.d)
    if not 0 <= k < n:
        I.event('oob', 'dereference of end()', loc, S)
        raise Dead()
    return elref(I, S, Loc(it.o), k) if c.kind != 'view' else Loc(it.o, k)


def iter_step(S, it, n):
    if it.kind == 'out':
        return it
    if it.kind == 'map':
        ks = map_keys(S.get(it.o))
        p = ks.index(it.k) if it.k is not None else len(ks)
        p += n
        return It(it.o, ks[p] if p < len(ks) else None, 'map')
    return It(it.o, it.k + (-n if it.kind == 'rev' else n), it.kind)


def setiter(I, S, v, it):
    """let the iterator (or pointer) variable v be it"""
    if isinstance(v, Loc) and v.k is None and S.get(v.o).kind == 'iter':
        S.w(v.o).d['v'] = it
    else:
        I.store(S, v, Loc(it.o, it.k) if isinstance(it, It) else it)


def setobj(I, S, p, v):
    """let the object p (a text, a pointer, a record) be v"""
    k = S.get(p.o).kind
    if k == 'str':
        S.w(p.o).d[0] = sval(I, S, v)
    elif k == 'sptr':
        S.w(p.o).d['p'] = sptrval(I, S, v)
    elif k == 'iter':
        S.w(p.o).d['v'] = iterval(I, S, v)
    elif k == 'fnobj':
        S.w(p.o).d['v'] = S.get(v.o).d['v'] if isinstance(v, Loc) and S.get(v.o).kind == 'fnobj' else v
    else:
        I.assign_obj(S, p, v)


def element(I, S, c, v):
    """v as an element of the container c: a value, or a fresh object"""
    t = I.P.ty(c.x['tu'], c.x['et'])
    if t['c'] != 'rec':
        if isinstance(v, Loc) and v.k is None and v.o and t['c'] == 'ptr':
            return v
        return scal(I, S, v) if t['c'] != 'ptr' else ptrval(I, S, v)
    x = I.new_of_type(S, c.x['tu'], c.x['et'])
    if S.get(x.o).kind in ('str', 'sptr', 'iter', 'fnobj'):
        setobj(I, S, x, v)
        return x
    return I.copy_obj(S, obj(I, S, v))


def iter_eq(I, a, b):
    if isinstance(a, Gated):
        return ite(a.c, iter_eq(I, a.a, b), iter_eq(I, a.b, b))
    if isinstance(b, Gated):
        return ite(b.c, iter_eq(I, a, b.a), iter_eq(I, a, b.b))
    if a.kind != b.kind and 'rev' in (a.kind, b.kind):
        raise Unsupported('comparison of iterators of two kinds')
    return a == b


def iter_diff(a, b):
    if isinstance(a, Gated):
        return ite(a.c, iter_diff(a.a, b), iter_diff(a.b, b))
    if isinstance(b, Gated):
        return ite(b.c, iter_diff(a, b.a), iter_diff(a, b.b))
    return sub(b.k, a.k) if a.kind == 'rev' else sub(a.k, b.k)


def iter_method(I, S, fr, e, f, o, c):
    n, op = f['n'], f.get('op')
    it = c.d['v']
    args = e['a']
    if op in ('*', '->') and not args:
        return iter_deref(I, S, it, e['l'])
    if isinstance(it, It) and it.kind in ('back', 'front', 'ins', 'out') and op in ('++', '='):
        # *it = v, it++
        if op == '=' and not (f['p'] and I.ty(fr, f['p'][0]).get('r', '').find('iterator') >= 0):
            import stdlib
            stdlib.push(I, S, it, I.ev(args[0], S, fr), e['l'])
        return o
    if op == '++' or op == '--':
        if isinstance(it, Gated):
            raise Unsupported('step of a gated iterator')
        new = iter_step(S, it, 1 if op == '++' else -1)
        S.w(o.o).d['v'] = new
        return mkiter(I, S, it) if args else o
    if op == '=':
        S.w(o.o).d['v'] = iterval(I, S, I.ev(args[0], S, fr))
        return o
    if op in ('+', '-'):
        v = I.ev(args[0], S, fr)
        if isinstance(v, Loc) and v.k is None and S.get(v.o).kind == 'iter':
            w = iterval(I, S, v)
            return iter_diff(it, w)
        k = scal(I, S, v)
        if isinstance(k, int):
            return mkiter(I, S, iter_step(S, it, k if op == '+' else -k))
        return iter_diff(it, iterval(I, S, v))
    if op in ('+=', '-='):
        k = scal(I, S, I.ev(args[0], S, fr))
        if not isinstance(k, int) or isinstance(it, Gated):
            raise Unsupported('step of an iterator')
        S.w(o.o).d['v'] = iter_step(S, it, k if op == '+=' else -k)
        return o
    if n == 'base':
        return mkiter(I, S, It(it.o, it.k, 'str' if S.get(it.o).kind in ('str', 'lit') else 'seq'))
    if op in ('<', '<=', '>', '>='):
        return cmp(op, neg(iter_diff(iterval(I, S, I.ev(args[0], S, fr)), it)), 0)
    if op in ('==', '!='):
        r = iter_eq(I, it, iterval(I, S, I.ev(args[0], S, fr)))
        return r if op == '==' else not_(r)
    if op == '[]':
        k = scal(I, S, I.ev(args[0], S, fr))
        return iter_deref(I, S, iter_step(S, it, k), e['l'])
    raise Unsupported('iterator ' + n)


# ------------------------------------------------------------------ Eigen
def rodrigues(I, S, a, k, v):
    c, s = fun('cos', a), fun('sin', a)
    kxv = [sub(mul(k[1], v[2]), mul(k[2], v[1])), sub(mul(k[2], v[0]), mul(k[0], v[2])), sub(mul(k[0], v[1]), mul(k[1], v[0]))]
    kv = add(add(mul(k[0], v[0]), mul(k[1], v[1])), mul(k[2], v[2]))
    return tmpmat(I, S, [add(add(mul(v[i], c), mul(kxv[i], s)), mul(mul(k[i], kv), sub(1.0, c))) for i in range(3)], 3, 1)


def sumup(xs, z=0.0):
    if not xs:
        return z
    r = xs[0]
    for x in xs[1:]:
        r = add(r, x)
    return r


UN = {'abs': lambda x: fun('abs', x), 'cwiseAbs': lambda x: fun('abs', x), 'square': lambda x: mul(x, x), 'cwiseAbs2': lambda x: mul(x, x), 'abs2': lambda x: mul(x, x),
      'sqrt': lambda x: fun('sqrt', x), 'cwiseSqrt': lambda x: fun('sqrt', x), 'exp': lambda x: fun('exp', x), 'log': lambda x: fun('log', x),
      'sin': lambda x: fun('sin', x), 'cos': lambda x: fun('cos', x), 'inverse': lambda x: div(1.0, x), 'cwiseInverse': lambda x: div(1.0, x),
      'cube': lambda x: mul(mul(x, x), x), 'isNaN': lambda x: fun('isnan', x), 'isFinite': lambda x: fun('isfinite', x), 'acos': lambda x: fun('acos', x), 'floor': lambda x: fun('floor', x)}


def bcast2(I, S, a, b, opf, loc, what='operation'):
    """elementwise op of two matrices (or matrix and scalar)"""
    A_, B_ = ismat(I, S, a), ismat(I, S, b)
    if A_ and B_:
        a, b = obj(I, S, a), obj(I, S, b)
        ra, rb = shape(I, S, a), shape(I, S, b)
        va, vb = I.matvals(S, a), I.matvals(S, b)
        if len(va) != len(vb):
            I.event('shape', '%s of %d and %d values' % (what, len(va), len(vb)), loc, S)
            n = min(len(va), len(vb))
            return tmpmat(I, S, [opf(x, y) for x, y in zip(va, vb)], n, 1)
        return tmpmat(I, S, [opf(x, y) for x, y in zip(va, vb)], *ra)
    if A_:
        a = obj(I, S, a)
        b = scal(I, S, b)
        return tmpmat(I, S, [opf(x, b) for x in I.matvals(S, a)], *shape(I, S, a))
    b = obj(I, S, b)
    a = scal(I, S, a)
    return tmpmat(I, S, [opf(a, x) for x in I.matvals(S, b)], *shape(I, S, b))


def cmul(a, b):
    return mul(a, b)


def is_array(f):
    return 'Array' in (f.get('r') or '') or 'Array' in f['q'].split('::operator')[0].split('<')[0]


def same0(x):
    return isinstance(x, float) and x == 0.0


def matmul(I, S, a, b, loc):
    a, b = obj(I, S, a), obj(I, S, b)
    (r, k), (k2, c) = shape(I, S, a), shape(I, S, b)
    va, vb = I.matvals(S, a), I.matvals(S, b)
    if k != k2:
        I.event('shape', 'product of %dx%d by %dx%d' % (r, k, k2, c), loc, S)
        raise Unsupported('product of mismatched shapes')
    if r * c * k > 200000:
        raise Unsupported('large product')
    def dot(i, j):
        # terms with an exact zero factor are left out: a diagonal or sparse factor keeps the graph small
        return sumup([mul(va[t * r + i], vb[j * k + t]) for t in range(k) if not (va[t * r + i] is not UNDEF and vb[j * k + t] is not UNDEF and (same0(va[t * r + i]) or same0(vb[j * k + t])))])
    return tmpmat(I, S, [dot(i, j) for j in range(c) for i in range(r)], r, c)


ARITH = {'+': add, '-': sub, '*': mul, '/': div}


def mat_assign(I, S, o, v, loc):
    """o = v for o a matrix or view"""
    c = S.get(o.o)
    if isinstance(v, Gated):
        raise Unsupported('assignment of a gated matrix')
    if ismat(I, S, v):
        v = obj(I, S, v)
        vals = I.matvals(S, v)
        if c.kind == 'view':
            if len(vals) != len(c.x['idx']):
                I.event('shape', 'assignment of %d values to a block of %d' % (len(vals), len(c.x['idx'])), loc, S)
            for i, x in enumerate(vals[:len(c.x['idx'])]):
                I.store(S, Loc(o.o, i), x, loc)
            return o
        cc = S.w(o.o)
        sc = I.matc(S, v)
        if fixed_size(cc.cls) and len(cc.d) != len(vals):
            I.event('shape', 'assignment of %d values to a fixed %d-vector' % (len(vals), len(cc.d)), loc, S)
        cc.d = list(vals)
        cc.x['rows'], cc.x['cols'] = sc.x['rows'], sc.x['cols']
        cc.prov = {i: (sc.prov.get(i) if sc.kind == 'mat' else None) or loc for i in range(len(vals))}
        return o
    s = scal(I, S, v)
    n = len(c.x['idx']) if c.kind == 'view' else len(c.d)
    for i in range(n):
        I.store(S, Loc(o.o, i), s, loc)
    return o


def intarg(I, S, v):
    v = scal(I, S, v)
    if isinstance(v, bool):
        v = int(v)
    if not isinstance(v, int):
        raise Unsupported('symbolic matrix dimension')
    return v


def mat_method(I, S, fr, e, f, o, c):
    n, op = f['n'], f.get('op')
    args = [a for a in e['a'] if a['k'] != 'defarg']
    loc = e['l']

    def A(i):
        return I.ev(args[i], S, fr)
    rows, cols = c.x['rows'], c.x['cols']
    size = rows * cols

    def vals():
        return I.matvals(S, o)

    def tmp(d, r, cc):
        return tmpmat(I, S, d, r, cc)
    if n in ('size', 'rows', 'cols', 'innerSize', 'outerSize', 'outerStride', 'nonZeros'):
        return {'size': size, 'rows': rows, 'cols': cols, 'innerSize': rows if cols > 1 else size, 'outerSize': cols, 'outerStride': rows, 'nonZeros': size}[n]
    if (op in ('()', '[]') or n in ('coeff', 'coeffRef', 'x', 'y', 'z', 'w')) and (args or n in 'xyzw'):
        if n in ('x', 'y', 'z', 'w') and not args:
            i = 'xyzw'.index(n)
        else:
            i = scal(I, S, A(0))
            if len(args) == 2:
                j = scal(I, S, A(1))
                for (ix, lim, w) in ((i, rows, 'row'), (j, cols, 'column')):
                    if isinstance(ix, int) and not 0 <= ix < lim:
                        I.event('oob', '%s %d of a %dx%d matrix' % (w, ix, rows, cols), loc, S)
                        cl = I.alloc(S, 'cell', 'oob', {'v': UNDEF})
                        return Loc(cl.o, 'v')
                i = add(mul(j, rows), i)
        if isinstance(i, (bool, float)):
            i = int(i)
        if isinstance(i, int) and not 0 <= i < size:
            I.event('oob', 'index %d of a vector of %d' % (i, size), loc, S)
            cl = I.alloc(S, 'cell', 'oob', {'v': UNDEF})
            return Loc(cl.o, 'v')
        # element of a view: refer to the underlying storage so that the
        # reference outlives the temporary view
        if c.kind == 'view' and isinstance(i, int) and not isinstance(c.x['idx'][i], Pick):
            at = Loc(c.x['base'], c.x['idx'][i])
        else:
            at = Loc(o.o, i)
        return at if e.get('lv') else I.load(S, at, loc)
    if op == '=':
        v = A(0)
        return mat_assign(I, S, o, v, loc)
    if op in ('+=', '-=', '*=', '/='):
        v = A(0)
        if op == '*=' and ismat(I, S, v) and not is_array(f):
            r = matmul(I, S, o, v, loc)
        else:
            r = bcast2(I, S, o, v, ARITH[op[0]], loc)
        return mat_assign(I, S, o, r, loc)
    if op in ('+', '-', '*', '/'):
        if not args:
            return tmp([neg(x) for x in vals()], rows, cols) if op == '-' else o
        v = A(0)
        if op == '*' and ismat(I, S, v) and not is_array(f):
            return matmul(I, S, o, v, loc)
        return bcast2(I, S, o, v, ARITH[op], loc)
    if op in ('<', '<=', '>', '>=', '==', '!='):
        v = A(0)
        if op in ('==', '!=') and not is_array(f):
            a, b = vals(), I.matvals(S, obj(I, S, v))
            r = len(a) == len(b)
            for x, y in zip(a, b):
                r = and_(r, cmp('==', x, y))
            return r if op == '==' else not_(r)
        return bcast2(I, S, o, v, lambda x, y: cmp(op, x, y), loc)
    if op in ('&&', '||'):
        return bcast2(I, S, o, A(0), and_ if op == '&&' else or_, loc)
    if op == '<<':
        v = A(0)
        L = I.alloc(S, 'comma', 'comma', None, m=o.o, pos=0)
        comma_put(I, S, L, v, loc)
        return L
    if n == 'setIdentity' and not args:
        for i in range(size):
            I.store(S, Loc(o.o, i), 1.0 if i % rows == i // rows else 0.0, loc)
        return o
    if n == 'asDiagonal':
        v = vals()
        r = tmp([v[i] if i == j else 0.0 for j in range(size) for i in range(size)], size, size)
        S.get(r.o).x['diag'] = True
        return r
    if n == 'inverse' and not is_array(f) and c.x.get('diag'):
        v = vals()
        r = tmp([div(1.0, v[j * rows + i]) if i == j else 0.0 for j in range(cols) for i in range(rows)], rows, cols)
        S.get(r.o).x['diag'] = True
        return r
    if n in ('inverse', 'determinant') and not is_array(f) and rows == cols == 2:
        a, b, c2, d2 = (vals()[k] for k in (0, 2, 1, 3))
        det = sub(mul(a, d2), mul(b, c2))
        if n == 'determinant':
            return det
        return tmp([div(x, det) for x in (d2, neg(c2), neg(b), a)], 2, 2)
    if n == 'inverse' and not is_array(f) and size != 1:
        raise Unsupported('matrix inverse at ' + loc)
    if n in ('resize', 'conservativeResize', 'setZero', 'setOnes', 'fill', 'setConstant'):
        k = [scal(I, S, A(i)) for i in range(len(args))]
        if n in ('fill', 'setConstant') and len(k) == 1:
            for i in range(size):
                I.store(S, Loc(o.o, i), k[0], loc)
            return o
        if n in ('setZero', 'setOnes') and not k:
            z = 0.0 if n == 'setZero' else 1.0
            for i in range(size):
                I.store(S, Loc(o.o, i), z, loc)
            return o
        if not all(isinstance(x, int) for x in k):
            raise Unsupported('resize to a symbolic size')
        r, cc = (k + [1])[:2]
        if len(k) == 1 and rows == 1 and cols != 1:
            r, cc = 1, k[0]
        if c.kind == 'view':
            if r * cc != size:
                I.event('shape', 'resize of a block', loc, S)
            return None
        if r * cc > 400000 or r < 0 or cc < 0:
            raise Unsupported('large matrix')
        m = S.w(o.o)
        if n == 'conservativeResize':
            old = m.d
            m.d = [old[j * rows + i] if i < rows and j < cols else UNDEF for j in range(cc) for i in range(r)]
        elif n in ('setZero', 'setOnes'):
            m.d = [0.0 if n == 'setZero' else 1.0] * (r * cc)
            m.prov = {}
        elif r * cc != size:
            m.d = [UNDEF] * (r * cc)
            m.prov = {}
        m.x['rows'], m.x['cols'] = r, cc
        return o if n.startswith('set') else None
    if n in ('head', 'tail', 'segment'):
        ta = [t['i'] for t in f.get('ta', []) if 'i' in t]
        a = [intarg(I, S, A(i)) for i in range(len(args))]
        if n == 'head':
            st, k = 0, (a[0] if a else ta[0])
        elif n == 'tail':
            k = a[0] if a else ta[0]
            st = size - k
        else:
            st, k = a[0], (a[1] if len(a) > 1 else ta[0])
        if st < 0 or k < 0 or st + k > size:
            I.event('oob', 'segment [%d,%d) of a vector of %d' % (st, st + k, size), loc, S)
            raise Dead()
        return view(I, S, o, range(st, st + k), k if cols == 1 or rows != 1 else 1, 1 if cols == 1 or rows != 1 else k)
    if n in ('row', 'col'):
        i = scal(I, S, A(0))
        if isinstance(i, E):
            if n == 'row':
                return view(I, S, o, [Pick(i, [j * rows + r for r in range(rows)]) for j in range(cols)], 1, cols)
            return view(I, S, o, [Pick(i, [q * rows + j for q in range(cols)]) for j in range(rows)], rows, 1)
        if not isinstance(i, int):
            raise Unsupported('symbolic row')
        lim = rows if n == 'row' else cols
        if not 0 <= i < lim:
            I.event('oob', '%s(%d) of a %dx%d matrix' % (n, i, rows, cols), loc, S)
            raise Dead()
        if n == 'row':
            return view(I, S, o, [j * rows + i for j in range(cols)], 1, cols)
        return view(I, S, o, [i * rows + j for j in range(rows)], rows, 1)
    if n in ('block', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleCols', 'middleRows', 'topLeftCorner', 'bottomRightCorner', 'topRightCorner', 'bottomLeftCorner'):
        a = [intarg(I, S, A(i)) for i in range(len(args))]
        ta = [t['i'] for t in f.get('ta', []) if 'i' in t]
        if n == 'block':
            i0, j0 = a[0], a[1]
            h, w = (a[2], a[3]) if len(a) > 2 else (ta[0], ta[1])
        elif n == 'topRows':
            i0, j0, h, w = 0, 0, (a or ta)[0], cols
        elif n == 'bottomRows':
            h = (a or ta)[0]
            i0, j0, w = rows - h, 0, cols
        elif n == 'leftCols':
            i0, j0, h, w = 0, 0, rows, (a or ta)[0]
        elif n == 'rightCols':
            w = (a or ta)[0]
            i0, j0, h = 0, cols - w, rows
        elif n == 'middleCols':
            i0, j0, h, w = 0, a[0], rows, a[1] if len(a) > 1 else ta[0]
        elif n == 'middleRows':
            i0, j0, h, w = a[0], 0, a[1] if len(a) > 1 else ta[0], cols
        else:
            h, w = a if a else ta
            i0 = 0 if n.startswith('top') else rows - h
            j0 = 0 if 'Left' in n else cols - w
        if i0 < 0 or j0 < 0 or h < 0 or w < 0 or i0 + h > rows or j0 + w > cols:
            I.event('oob', 'block (%d,%d)+%dx%d of a %dx%d matrix' % (i0, j0, h, w, rows, cols), loc, S)
            raise Dead()
        return view(I, S, o, [(j0 + j) * rows + i0 + i for j in range(w) for i in range(h)], h, w)
    if n in ('transpose', 'adjoint'):
        return view(I, S, o, [j * rows + i for i in range(rows) for j in range(cols)], cols, rows)
    if n == 'transposeInPlace':
        v = vals()
        m = S.w(o.o)
        m.d = [v[j * rows + i] for i in range(rows) for j in range(cols)]
        m.x['rows'], m.x['cols'] = cols, rows
        return None
    if n == 'diagonal':
        k = min(rows, cols)
        return view(I, S, o, [i * rows + i for i in range(k)], k, 1)
    if n in ('reverse',):
        return view(I, S, o, list(range(size - 1, -1, -1)), rows, cols)
    if n == 'reverseInPlace':
        v = vals()
        for i, x in enumerate(reversed(v)):
            I.store(S, Loc(o.o, i), x, loc)
        return None
    if n in ('array', 'matrix', 'noalias', 'derived', 'const_cast_derived', 'real'):
        return o
    if n in ('eval', 'finished', 'cast'):
        return tmp(vals(), rows, cols)
    if n in ('norm', 'squaredNorm', 'stableNorm', 'blueNorm'):
        s = sumup([mul(x, x) for x in vals()])
        return s if n == 'squaredNorm' else fun('sqrt', s)
    if n == 'lpNorm':
        p = [t['i'] for t in f.get('ta', []) if 'i' in t][0]
        v = [fun('abs', x) for x in vals()]
        if p == -1:
            return fold(v, lambda a, b: fun('max', a, b))
        if p == 1:
            return sumup(v)
        if p == 2:
            return fun('sqrt', sumup([mul(x, x) for x in v]))
        return fun('pow', sumup([fun('pow', x, float(p)) for x in v]), 1.0 / p)
    if n == 'dot':
        b = obj(I, S, A(0))
        va, vb = vals(), I.matvals(S, b)
        if len(va) != len(vb):
            I.event('shape', 'dot of %d and %d values' % (len(va), len(vb)), loc, S)
        return sumup([mul(x, y) for x, y in zip(va, vb)])
    if n == 'cross':
        a, b = vals(), I.matvals(S, obj(I, S, A(0)))
        return tmp([sub(mul(a[1], b[2]), mul(a[2], b[1])), sub(mul(a[2], b[0]), mul(a[0], b[2])), sub(mul(a[0], b[1]), mul(a[1], b[0]))], 3, 1)
    if n in ('normalized', 'normalize'):
        v = vals()
        nn = fun('sqrt', sumup([mul(x, x) for x in v]))
        w = [div(x, nn) for x in v]
        if n == 'normalized':
            return tmp(w, rows, cols)
        for i, x in enumerate(w):
            I.store(S, Loc(o.o, i), x, loc)
        return None
    if n == 'sum':
        return sumup(vals())
    if n == 'prod':
        v = vals()
        r = 1.0
        for x in v:
            r = mul(r, x)
        return r
    if n == 'mean':
        return div(sumup(vals()), float(size)) if size else UNDEF
    if n in ('minCoeff', 'maxCoeff'):
        v = vals()
        if not v:
            I.event('oob', n + '() of an empty vector', loc, S)
            raise Dead()
        g = 'min' if n == 'minCoeff' else 'max'
        r = fold(v, lambda a, b: fun(g, a, b))
        if args:
            p = A(0)
            k = 0
            cur = v[0]
            for i in range(1, len(v)):
                better = cmp('<', v[i], cur) if g == 'min' else cmp('<', cur, v[i])
                k = ite(better, i, k)
                cur = ite(better, v[i], cur)
            if len(args) == 1:
                I.store(S, p, k, loc)
            else:
                raise Unsupported('minCoeff(row, col)')
        return r
    if n in ('all', 'any'):
        r = n == 'all'
        for x in vals():
            x = I.truth(x)
            r = and_(r, x) if n == 'all' else or_(r, x)
        return r
    if n == 'count':
        return sumup([ite(x, 1, 0) for x in vals()], 0)
    if n in ('allFinite',):
        r = True
        for x in vals():
            r = and_(r, fun('isfinite', x))
        return r
    if n == 'hasNaN':
        r = False
        for x in vals():
            r = or_(r, fun('isnan', x))
        return r
    if n == 'isZero':
        r = True
        for x in vals():
            r = and_(r, cmp('<=', fun('abs', x), 1e-12))
        return r
    if n in UN:
        return tmp([UN[n](x) for x in vals()], rows, cols)
    if n == 'pow':
        p = A(0)
        return bcast2(I, S, o, p, lambda a, b: fun('pow', a, b), loc)
    if n in ('cwiseProduct', 'cwiseQuotient', 'cwiseMax', 'cwiseMin', 'max', 'min'):
        g = {'cwiseProduct': mul, 'cwiseQuotient': div}.get(n) or (lambda a, b: fun('max' if n.lower().endswith('max') else 'min', a, b))
        return bcast2(I, S, o, A(0), g, loc)
    if n == 'select':
        a, b = A(0), A(1)
        va = I.matvals(S, obj(I, S, a)) if ismat(I, S, a) else [scal(I, S, a)] * size
        vb = I.matvals(S, obj(I, S, b)) if ismat(I, S, b) else [scal(I, S, b)] * size
        return tmp([ite(k, x, y) for k, x, y in zip(vals(), va, vb)], rows, cols)
    if n == 'data':
        if c.kind == 'view':
            idx = c.x['idx']
            return Loc(c.x['base'], idx[0] if idx else 0)
        return Loc(o.o, 0)
    if n == 'swap':
        b = obj(I, S, A(0))
        va, vb = vals(), I.matvals(S, b)
        ca, cb = S.get(o.o), S.get(b.o)
        if ca.kind == 'mat' and cb.kind == 'mat':
            x, y = S.w(o.o), S.w(b.o)
            x.d, y.d = y.d, x.d
            for k in ('rows', 'cols'):
                x.x[k], y.x[k] = y.x[k], x.x[k]
            return None
        for i, x in enumerate(vb):
            I.store(S, Loc(o.o, i), x, loc)
        for i, x in enumerate(va):
            I.store(S, Loc(b.o, i), x, loc)
        return None
    if n in ('colwise', 'rowwise'):
        return I.alloc(S, 'vw', n, None, m=o.o, how=n)
    if n == 'isApprox':
        b = I.matvals(S, obj(I, S, A(0)))
        a = vals()
        if len(a) != len(b):
            I.event('shape', 'isApprox of %d and %d values' % (len(a), len(b)), loc, S)
            raise Dead()
        p2 = scal(I, S, A(1)) if len(args) > 1 else 1e-12
        sq = lambda x: sumup([mul(y, y) for y in x])
        m = fun('min', sq(a), sq(b))
        return cmp('<=', sq([sub(x, y) for x, y in zip(a, b)]), mul(mul(p2, p2), m))
    if n in ('isOnes', 'isConstant', 'isApproxToConstant'):
        k = 1.0 if n == 'isOnes' else scal(I, S, A(0))
        r = True
        for x in vals():
            r = and_(r, cmp('<=', fun('abs', sub(x, k)), 1e-12))
        return r
    if n in ('isMuchSmallerThan',):
        raise Unsupported(n)
    if n == 'trace':
        return sumup([vals()[i * rows + i] for i in range(min(rows, cols))])
    if n in ('unaryExpr', 'binaryExpr'):
        from stdlib import apply as fapply
        if n == 'unaryExpr':
            g = A(0)
            return tmp([scal(I, S, fapply(I, S, fr, e, g, [x])) for x in vals()], rows, cols)
        b, g = I.matvals(S, obj(I, S, A(0))), A(1)
        if len(b) != size:
            I.event('shape', 'binaryExpr of %d and %d values' % (size, len(b)), loc, S)
            raise Dead()
        return tmp([scal(I, S, fapply(I, S, fr, e, g, [x, y])) for x, y in zip(vals(), b)], rows, cols)
    if n in ('redux',):
        from stdlib import apply as fapply
        g = A(0)
        return fold(vals(), lambda x, y: scal(I, S, fapply(I, S, fr, e, g, [x, y])))
    if n in ('cwiseEqual', 'cwiseNotEqual'):
        return bcast2(I, S, o, A(0), lambda x, y: cmp('==' if n == 'cwiseEqual' else '!=', x, y), loc)
    if n == 'setLinSpaced' or n == 'setUnit':
        k = [scal(I, S, A(i)) for i in range(len(args))]
        if n == 'setUnit':
            for i in range(size):
                I.store(S, Loc(o.o, i), 1.0 if i == k[0] else 0.0, loc)
            return o
        if len(k) == 3:
            m = S.w(o.o)
            m.d, m.x['rows'], m.x['cols'] = [UNDEF] * k[0], k[0], 1
            size, k = k[0], k[1:]
        for i in range(size):
            I.store(S, Loc(o.o, i), add(k[0], mul(div(sub(k[1], k[0]), float(size - 1)), float(i))) if size > 1 else k[1], loc)
        return o
    if n.startswith('operator ') and size == 1:
        return vals()[0]
    if n == 'value' and size == 1:
        return vals()[0]
    if n == 'sqrtf':
        pass
    raise Unsupported('Eigen method %s at %s' % (f['q'][:80] + '::' + n, loc))


def fold(v, g):
    r = v[0]
    for x in v[1:]:
        r = g(r, x)
    return r


def vectorwise(I, S, fr, e, f, o, c):
    n = f['n']
    m = Loc(c.x['m'])
    r, k = shape(I, S, m)
    v = I.matvals(S, m)
    groups = [v[j * r:(j + 1) * r] for j in range(k)] if c.x['how'] == 'colwise' else [[v[j * r + i] for j in range(k)] for i in range(r)]
    g = {'sum': sumup, 'mean': lambda x: div(sumup(x), float(len(x))), 'maxCoeff': lambda x: fold(x, lambda a, b: fun('max', a, b)),
         'minCoeff': lambda x: fold(x, lambda a, b: fun('min', a, b)), 'norm': lambda x: fun('sqrt', sumup([mul(y, y) for y in x])),
         'prod': lambda x: fold(x, mul), 'all': lambda x: fold([I.truth(y) for y in x], and_), 'any': lambda x: fold([I.truth(y) for y in x], or_),
         'count': lambda x: sumup([ite(y, 1, 0) for y in x], 0),
         'squaredNorm': lambda x: sumup([mul(y, y) for y in x])}.get(n)
    if g is None:
        raise Unsupported('vectorwise ' + n)
    res = [g(x) for x in groups]
    return tmpmat(I, S, res, 1 if c.x['how'] == 'colwise' else len(res), len(res) if c.x['how'] == 'colwise' else 1)


def comma_put(I, S, L, v, loc):
    c = S.w(L.o)
    m = Loc(c.x['m'])
    rows, cols = shape(I, S, m)
    if ismat(I, S, v):
        vals = I.matvals(S, obj(I, S, v))
    else:
        vals = [scal(I, S, v)]
    for x in vals:
        p = c.x['pos']
        if p >= rows * cols:
            I.event('oob', 'too many values in a comma initialiser', loc, S)
            return
        i, j = divmod(p, cols) if cols else (0, 0)
        I.store(S, Loc(m.o, j * rows + i), x, loc)
        c = S.w(L.o)
        c.x['pos'] = p + 1


def comma_method(I, S, fr, e, f, o, c):
    if f.get('op') == ',':
        comma_put(I, S, o, I.ev(e['a'][0], S, fr), e['l'])
        return o
    if f['n'] == 'finished':
        return Loc(c.x['m'])
    raise Unsupported('comma initialiser ' + f['n'])


# ------------------------------------------------------------------ calls
def abortexit(I, S, fr, kind, loc):
    fr.exits.append((kind, State(S.mem, S.pc), loc))
    S.newtoken()
    raise Dead()


def call(I, S, fr, e, f):
    q, n, op = f['q'], f['n'], f.get('op')
    args = e['a']
    loc = e['l']

    def A(i):
        return I.ev(args[i], S, fr)

    def s(i):
        return scal(I, S, A(i), loc)
    import stdlib
    if q.startswith('std::'):
        r = stdlib.algo(I, S, fr, e, f)
        if r is not stdlib.NONE:
            return r
    base = MATHALIAS.get(n, n)
    if n in ('log1p', 'expm1') and q in (n, 'std::' + n):
        return fun('log', add(1.0, s(0))) if n == 'log1p' else sub(fun('exp', s(0)), 1.0)
    if n in ('abs', 'fabs', 'fabsf', 'labs') and q.split('::')[0] in ('std', n):
        return fun('abs', s(0))
    if (q == n or q == 'std::' + n) and (base in MATH or base in ('abs',)):
        return fun(base, *[s(i) for i in range(len(args))])
    if q in ('std::max', 'std::min'):
        a, b = A(0), A(1) if len(args) > 1 else None
        if b is None:
            raise Unsupported('min of a list')
        x, y = scal(I, S, a, loc), scal(I, S, b, loc)
        if isnum(x) and isnum(y):
            return (b if x < y else a) if n == 'max' else (b if y < x else a)
        cl = I.alloc(S, 'cell', 'mm', {'v': fun(n, x, y)})
        return Loc(cl.o, 'v')
    if q == 'clock_gettime':
        o = obj(I, S, A(1))
        c = S.w(o.o)
        if c.kind == 'opaque' and c.x.get('open'):
            I.clock = getattr(I, 'clock', 0) + 1
            c.d['timespec::tv_sec'], c.d['timespec::tv_nsec'] = mk('call:time', loc, I.clock), mk('call:time', loc, -I.clock)
        return 0
    if q in ('std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::as_const', 'std::cref'):
        return A(0)
    if q == 'std::swap':
        a, b = A(0), A(1)
        oa, ob = obj(I, S, a), obj(I, S, b)
        if isinstance(oa, Loc) and oa.k is None and isinstance(ob, Loc) and ob.k is None and not S.get(oa.o).kind == 'cell':
            x, y = S.get(oa.o), S.get(ob.o)
            S.mem[oa.o], S.mem[ob.o] = y, x
            return None
        x, y = I.load(S, a), I.load(S, b)
        I.store(S, a, y, loc)
        I.store(S, b, x, loc)
        return None
    if q.startswith('std::numeric_limits<'):
        t = q[len('std::numeric_limits<'):].split('>')[0]
        d = t in ('double', 'long double')
        if n == 'max':
            return {'float': 3.4028234663852886e38, 'int': 2147483647, 'unsigned int': 4294967295, 'long': (1 << 63) - 1, 'unsigned long': (1 << 64) - 1}.get(t, 1.7976931348623157e308)
        if n == 'min':
            return {'float': 1.1754943508222875e-38, 'int': -2147483648, 'unsigned int': 0}.get(t, 2.2250738585072014e-308)
        if n == 'lowest':
            return -3.4028234663852886e38 if t == 'float' else -1.7976931348623157e308
        if n == 'epsilon':
            return 2.220446049250313e-16 if d else 1.1920928955078125e-07
        if n == 'infinity':
            return math.inf
        if n in ('quiet_NaN', 'signaling_NaN'):
            return math.nan
        raise Unsupported(q)
    if q in ('std::make_pair',):
        rt = I.ty(fr, f['rt'])
        L = I.new_rec(S, fr.tu, rt)
        for i, k in enumerate(('std::pair::first', 'std::pair::second')):
            v = A(i)
            cur = S.get(L.o).d[k]
            if isinstance(cur, Loc) and cur.k is None and cur.o:
                if S.get(cur.o).kind == 'str':
                    S.w(cur.o).d[0] = sval(I, S, v)
                elif S.get(cur.o).kind == 'sptr':
                    S.w(cur.o).d['p'] = sptrval(I, S, v)
                else:
                    I.assign_obj(S, cur, obj(I, S, v), loc)
            else:
                S.w(L.o).d[k] = scal(I, S, v)
        S.mem[L.o].x['tmp'] = True
        return L
    if q in ('std::dynamic_pointer_cast', 'std::static_pointer_cast', 'std::const_pointer_cast'):
        p = sptrval(I, S, A(0))
        if n == 'dynamic_pointer_cast':
            tt = f['ta'][0]
            t = I.ty(fr, tt['t'])
            p = dyn(I, S, p, fr, t['r'])
        return mksptr(I, S, p)
    if q in ('std::make_shared', 'std::make_unique'):
        t = I.ty(fr, f['ta'][0]['t'])
        L = I.new_rec(S, fr.tu, t)
        r = I.P.rec(fr.tu, t['r'])
        vals = [A(i) for i in range(len(args))]
        if r:
            c = pick_ctor(I, fr, r, vals, args, S)
            if c is not None:
                res = I.run(c, L, byvalue(I, S, c, vals, loc), S, loc)
                I.after(S, fr, res)
            else:
                I.default_fields(S, L, zero=True)
        elif vals:
            L = construct(I, S, fr, Cont('vector', '', [], {'tu': fr.tu, 'et': f['ta'][0]['t']}, S.token), t, vals, args, loc)
        return mksptr(I, S, L)
    if q in ('div', 'std::div', 'ldiv', 'std::ldiv', 'lldiv'):
        a, b = s(0), s(1)
        t = I.ty(fr, f['rt'])
        L = I.new_rec(S, fr.tu, t)
        c = S.mem[L.o]
        S.mem[L.o] = Cont('rec', t['s'], {t['r'] + '::quot': fun('idiv', a, b), t['r'] + '::rem': fun('imod', a, b)}, {'cn': t['r'], 'tu': fr.tu, 'tmp': True}, S.token)
        return L
    if q in ('__assert_fail', '__assert_perror_fail'):
        if getattr(I, 'assert_ok', False):
            raise Dead()
        I.event('assert', 'assertion can fail', loc, S)
        return abortexit(I, S, fr, 'abort', loc)
    if q in ('abort', 'exit', '_exit', 'std::terminate', 'std::abort', 'std::exit', 'quick_exit'):
        vals = [s(i) for i in range(len(args))]
        fr.exits.append(('abort', State(S.mem, S.pc), (q, vals, loc)))
        S.newtoken()
        raise Dead()
    if q in ('atof', 'atoi', 'atol', 'std::stod', 'std::stoi', 'std::stof', 'strtod'):
        v = A(0)
        t = I.sval(S, v)
        if isinstance(t, str):
            import re
            m = re.match(r'\s*([-+]?\d+)', t) if n in ('atoi', 'atol', 'stoi') else re.match(r'\s*([-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+([eE][-+]?\d+)?))', t)
            if not m:
                if n.startswith('sto'):
                    I.event('throw', q + '() of a text that is not a number', loc, S)
                    return abortexit(I, S, fr, 'throw', Thrown(loc, 'std::invalid_argument'))
                return 0 if n in ('atoi', 'atol') else 0.0
            return int(m.group(1)) if n in ('atoi', 'atol', 'stoi') else float(m.group(1))
        if isinstance(t, Rich):
            a = [x for x in t.atoms if not (isinstance(x, str) and not x.strip())]
            if isinstance(a[0], Num):
                return a[0].v
        if isinstance(t, E):
            return mk('num:' + n, t)
        raise Unsupported(q)
    if q == 'std::getline':
        L = obj(I, S, A(0))
        d = obj(I, S, A(1))
        delim = chr(s(2) & 255) if len(args) > 2 else '\n'
        if S.get(L.o).kind == 'ostr':
            conv_to_istr(S, L)
        was = failed(S.get(L.o))
        t = read_line(I, S, L, delim)
        if t is not None:
            S.w(d.o).d[0] = t
        elif not was:
            S.w(d.o).d[0] = ''
        raise_if_failed(I, S, fr, L, loc)
        return L
    if q == 'std::operator<<':
        L = A(0)
        L = obj(I, S, L)
        c = S.get(L.o)
        v = A(1)
        t1 = I.ty(fr, f['p'][1]) if len(f['p']) > 1 else {}
        if 'Setprecision' in t1.get('s', '') or (args[1]['k'] in ('call',) and args[1]['f']['n'] == 'setprecision'):
            if isinstance(v, tuple):
                if c.kind == 'ostr':
                    S.w(L.o).x['prec'] = v[1]
            return L
        if isinstance(v, tuple):
            return L
        put(I, S, L, v, I.ty(fr, args[1]['t']), loc)
        return L
    if q == 'std::operator>>':
        L = obj(I, S, A(0))
        d = A(1)
        t = I.ty(fr, args[1]['t'])
        if t['c'] == 'arr':
            raise Unsupported('>> char array')
        extract(I, S, fr, L, d, t, loc)
        raise_if_failed(I, S, fr, L, loc)
        return L
    if q == 'std::setprecision':
        return ('prec', s(0))
    if q in ('std::setw', 'std::setfill', 'std::setiosflags'):
        return ('man', 0)
    if q in ('__gnu_cxx::operator-', 'std::operator-') and len(args) == 2:
        return iter_diff(iterval(I, S, A(0)), iterval(I, S, A(1)))
    if q in ('__gnu_cxx::operator<', '__gnu_cxx::operator<=', '__gnu_cxx::operator>', '__gnu_cxx::operator>='):
        return cmp(op, iter_diff(iterval(I, S, A(0)), iterval(I, S, A(1))), 0)
    if q in ('__gnu_cxx::operator+', 'std::operator+') and isinstance(I.ty(fr, args[0]['t']), dict) and I.ty(fr, args[0]['t'])['c'] == 'int' and 'iterator' in I.ty(fr, args[1]['t']).get('s', ''):
        k = s(0)
        return mkiter(I, S, iter_step(S, iterval(I, S, A(1)), k))
    if q in ('std::operator==', 'std::operator!=', '__gnu_cxx::operator!=', '__gnu_cxx::operator=='):
        a, b = A(0), A(1)
        return eqop(I, S, a, b, n, loc)
    if q in ('std::operator<', 'std::operator<=', 'std::operator>', 'std::operator>='):
        a, b = A(0), A(1)
        try:
            x, y = iterval(I, S, a), iterval(I, S, b)
        except (Unsupported, KeyError):
            import stdlib
            x, y = stdlib.plain(I, S, a), stdlib.plain(I, S, b)
            if isinstance(x, str) and isinstance(y, str):
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[q[13:]]
            raise Unsupported('order of objects at ' + loc)
        return cmp(q[13:], iter_diff(x, y), 0)
    if q == 'std::operator+':
        a, b = A(0), A(1)

        def tx(v):
            if isinstance(v, int):
                return chr(v & 255)
            return sval(I, S, v)
        x, y = tx(a), tx(b)
        if isinstance(x, Gated) or isinstance(y, Gated):
            raise Unsupported('concatenation of a gated string')
        L = I.mkstr(S, rich(atoms_of(x) + atoms_of(y)))
        S.mem[L.o].x['tmp'] = True
        return L
    if q == 'std::operator|':
        a, b = s(0), s(1)
        return a | b if isinstance(a, int) and isinstance(b, int) else mk('|', a, b)
    if q == 'std::to_string':
        v = s(0)
        L = I.mkstr(S, fmtnum(v, 6) if isnum(v) else Rich([Num(v, 'num', 6)]))
        return L
    if q in ('memcpy', 'std::memcpy', 'memmove'):
        d, sr, k = A(0), A(1), s(2)
        return memcpy(I, S, d, sr, k, loc)
    if q in ('memset', 'std::memset'):
        d, v, k = A(0), s(1), s(2)
        es = elsize(I, S, d)
        if isinstance(k, int):
            for i in range(k // es):
                I.store(S, I.padd(d, i), (0.0 if es == 8 else 0) if v == 0 else UNDEF, loc)
            return d
        raise Unsupported('memset')
    if q in ('std::fill',):
        a, b, v = A(0), A(1), s(2)
        a, b = iterval(I, S, a), iterval(I, S, b)
        c = S.w(a.o)
        if c.kind == 'sarr':
            if isinstance(c.x['len'], int) and b.k > c.x['len']:
                I.event('oob', '%d elements of an array of %d are filled' % (b.k, c.x['len']), loc, S)
            if a.k == 0 and b.k == c.x['len']:
                c.x.update(init='fill', fill=v, writes=())
            else:
                c.x['writes'] = tuple(c.x.get('writes', ())) + (('blk', a.k, b.k, lambda I, S, k: v, 0),)
            return None
        for i in range(a.k, b.k):
            I.store(S, Loc(a.o, i), v, loc)
        return None
    if q in ('fopen', 'std::fopen'):
        L = I.alloc(S, 'ostr', 'FILE', [], name='file', prec=6)
        mode = sval(I, S, A(1))
        if not isinstance(mode, str) or mode[:1] != 'w':
            raise Unsupported('fopen(%r)' % (mode,))
        open_file(I, S, fr, L, A(0), loc)
        ok = I.decide(S.get(L.o).x['open'], S)
        return L if ok is True else NULL if ok is False else Gated(ok, L, NULL)
    if q in ('fwrite', 'std::fwrite', 'fclose', 'std::fclose', 'fflush', 'std::fflush'):
        v = [A(i) for i in range(len(args))]
        L = v[-1]
        L = obj(I, S, L) if isinstance(L, Loc) and L.o else L
        if not isinstance(L, Loc) or L.o == 0 or S.get(L.o).kind != 'ostr':
            if isinstance(L, Loc) and L.o and S.get(L.o).kind == 'sink':
                return v[2] if n == 'fwrite' else 0
            I.event('null-deref', '%s() of a file that is not open' % n, loc, S)
            raise Dead()
        if S.get(L.o).x.get('closed'):
            I.event('double-free', '%s() of a closed file' % n, loc, S)
        if n == 'fclose':
            S.w(L.o).x['closed'] = True
        if n == 'fwrite':
            a, k = scal(I, S, v[1]), scal(I, S, v[2])
            if not isinstance(a, int) or not isinstance(k, int):
                raise Unsupported('fwrite of symbolic size')
            write_bytes(I, S, L, v[0], a * k, loc)
            return k
        return 0
    if q == 'std::replace':
        a, b = iterval(I, S, A(0)), iterval(I, S, A(1))
        x, y = s(2), s(3)
        if a.kind == 'str':
            t = S.get(a.o).d[0]
            if isinstance(t, Rich):
                if a.k != 0 or b.k != sum(len(z) if isinstance(z, str) else 1 for z in t.atoms) or chr(x) in NUMCHARS:
                    raise Unsupported('replace in a text with numbers')
                S.w(a.o).d[0] = rich(tuple(z.replace(chr(x), chr(y)) if isinstance(z, str) else z for z in t.atoms))
                return None
            S.w(a.o).d[0] = t[:a.k] + t[a.k:b.k].replace(chr(x), chr(y)) + t[b.k:]
            return None
    if q in ('std::copy',):
        a, b = A(0), A(1)
        d = A(2)
        a, b, dd = iterval(I, S, a), iterval(I, S, b), iterval(I, S, d)
        for i in range(b.k - a.k):
            I.store(S, Loc(dd.o, dd.k + i), I.load(S, Loc(a.o, a.k + i)), loc)
        return mkiter(I, S, It(dd.o, dd.k + b.k - a.k, 'seq'))
    if n in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'ispunct', 'isupper', 'islower', 'isprint') and q in (n, 'std::' + n) and len(args) == 1:
        v = s(0)
        if isinstance(v, int):
            return stdlib.ctype(n, v)
        return mk(n, v)
    if n in ('toupper', 'tolower') and q in (n, 'std::' + n) and len(args) == 1:
        v = s(0)
        if isinstance(v, int):
            return ord(chr(v).upper() if n == 'toupper' else chr(v).lower()) if 0 <= v < 128 else v
        return mk(n, v)
    if q in ('strcmp', 'strncmp'):
        a, b = sval(I, S, A(0)), sval(I, S, A(1))
        if len(args) > 2:
            k = s(2)
            a, b = a[:k], b[:k]
        return ite(seq(a, b), 0, 1)
    if q in ('fprintf', 'printf', 'std::fprintf', 'std::printf', 'puts', 'fputs', 'perror'):
        for i in range(len(args)):
            A(i)
        return mk('call:' + q)
    if q == 'strlen':
        t = sval(I, S, A(0))
        if isinstance(t, str):
            return len(t)
    if q in ('getenv', 'std::getenv') and I.env is not None:
        v = I.env.get(sval(I, S, A(0)))
        return NULL if v is None else Loc(I.mkstr(S, v).o, 0)
    if q == 'dlopen' and I.env is not None:
        path = sval(I, S, A(0))
        A(1)
        name = I.dl_lib(path) if isinstance(path, str) else None
        I.dlopened.append(path)
        I.dlfail = name is None or name not in I.P.plugins() or not I.dl_ok(path)
        if I.dlfail:
            return NULL
        return I.alloc(S, 'opaque', 'dl', None, dl=name, path=path)
    if q == 'dlsym' and I.env is not None:
        h, sy = A(0), sval(I, S, A(1))
        if not isinstance(h, Loc) or not h.o:
            raise Unsupported('dlsym of no library')
        x = S.get(h.o).x
        name = x['dl']
        I.dlsyms.append((name, sy))
        c = [y for k in I.P.cnames().get(sy, ()) for y in I.P.byq[k] if y[0] in I.P.plugins()[name] and y[1].get('C')]
        I.dlfail = not c or not I.dl_has(x['path'], sy)
        if I.dlfail:
            return NULL
        I.dlgot.append((x['path'], sy))
        return Fn(*c[0])
    if q == 'dlclose' and I.env is not None:
        A(0)
        I.dlfail = False
        return 0
    if q == 'dlerror' and I.env is not None:
        f, I.dlfail = I.dlfail, False
        return Loc(I.mkstr(S, 'undefined symbol').o, 0) if f else NULL
    if q in ('time', 'std::time', 'rand', 'std::rand', 'srand', 'std::srand', 'omp_get_num_procs', 'omp_get_max_threads', 'omp_set_num_threads', 'omp_get_thread_num', 'sysconf', 'getenv', 'std::getenv', 'clock_gettime', 'clock', 'strerror', '__errno_location'):
        for i in range(len(args)):
            A(i)
        rt = I.ty(fr, f['rt'])
        if rt['c'] == 'void':
            return None
        if rt['c'] == 'ptr':
            return I.alloc(S, 'opaque', q, None, r=q) if q != '__errno_location' else Loc(I.alloc(S, 'cell', 'int', {'v': mk('call:errno')}).o, 'v')
        return mk('call:' + q)
    if q.startswith('Eigen::'):
        return eigen_call(I, S, fr, e, f)
    if q == 'std::initializer_list':
        return A(0)
    if q in ('std::distance',):
        a, b = iterval(I, S, A(0)), iterval(I, S, A(1))
        return b.k - a.k
    if q in ('std::isnan', 'std::isfinite', 'std::isinf'):
        return fun(n, s(0))
    raise Unsupported('call of %s at %s' % (q, loc))


def dyn(I, S, p, fr, target):
    if isinstance(p, Gated):
        return mval(p.c, dyn(I, S, p.a, fr, target), dyn(I, S, p.b, fr, target))
    if p.o == 0:
        return NULL
    c = S.get(p.o)
    if c.kind == 'rec':
        return p if I.P.derived(c.x['tu'], c.x['cn'], target) else NULL
    if c.kind == 'opaque':
        return Gated(mk('b:isa', p.o, target), p, NULL)
    raise Unsupported('dynamic_pointer_cast')


def byvalue(I, S, fn, vals, loc):
    """forwarded arguments, those of by-value scalar parameters loaded"""
    return [scal(I, S, v, loc) if not I.P.ty(fn.tu, p['t']).get('ref') and I.P.ty(fn.tu, p['t'])['c'] in ('int', 'uint', 'flt', 'float', 'bool', 'enum') else v for p, v in zip(fn.node['p'], vals)]


def pick_ctor(I, fr, r, vals, args, S):
    best = None
    for m in r[1]['m']:
        if not m.get('ctor') or m.get('copy'):
            continue
        fn = I.P.find(r[0], m['u'])
        if fn is None or fn.node.get('def') or fn.node.get('impl'):
            continue
        if len(fn.node['p']) == len(vals) or best is None and len(fn.node['p']) > len(vals) and all('dv' in p for p in fn.node['p'][len(vals):]):
            # check rough type agreement
            ok = True
            for p, a in zip(fn.node['p'], args):
                tp, ta = I.P.ty(fn.tu, p['t']), I.ty(fr, a['t'])
                if (tp['c'] == 'rec') != (ta['c'] == 'rec') or (tp['c'] == 'rec' and tp.get('r') != ta.get('r') and not (ta.get('r') and I.P.derived(fr.tu, ta['r'], tp.get('r', '')))):
                    ok = False
            if ok:
                best = fn
    if best is None and not vals:
        return None
    if best is None:
        raise Unsupported('make_shared constructor')
    return best


def construct(I, S, fr, c, t, vals, args, loc):
    """a new element of type t of the container c, from constructor arguments"""
    x = I.new_of_type(S, c.x['tu'], c.x['et'])
    k = S.get(x.o).kind
    if k == 'str':
        if len(vals) == 2 and isinstance(vals[0], int):
            S.w(x.o).d[0] = chr(scal(I, S, vals[1])) * vals[0]
        elif len(vals) < 2:
            S.w(x.o).d[0] = sval(I, S, vals[0]) if vals else ''
        else:
            raise Unsupported('construction of a text in place at ' + loc)
    elif k == 'sptr' and len(vals) < 2:
        S.w(x.o).d['p'] = sptrval(I, S, vals[0]) if vals else NULL
    elif k == 'rec' and t.get('r') == 'std::pair' and len(vals) == 2:
        for key, v in zip(('std::pair::first', 'std::pair::second'), vals):
            w = S.get(x.o).d.get(key)
            if isinstance(w, Loc) and w.k is None and w.o:
                setobj(I, S, w, v)
            else:
                I.store(S, Loc(x.o, key), ptrval(I, S, v) if isinstance(v, Loc) and v.k is None else scal(I, S, v), loc)
    elif k in ('mat', 'vector') and len(vals) == 1 and isinstance(vals[0], Loc) and vals[0].k is None:
        x = I.copy_obj(S, obj(I, S, vals[0]))
    elif k == 'vector' and vals and isinstance(vals[0], int):
        vec_resize(I, S, x, vals[0], vals[1] if len(vals) > 1 else None, loc)
    elif k == 'mat' and vals and all(isinstance(v, int) for v in vals):
        r, cc = (vals + [1])[:2]
        m = S.w(x.o)
        m.d, m.x['rows'], m.x['cols'] = [UNDEF] * (r * cc), r, cc
    elif k == 'rec':
        r = I.P.rec(c.x['tu'], t['r'])
        if not r:
            raise Unsupported('construction of an element at ' + loc)
        ct = pick_ctor(I, fr, r, vals, args, S)
        if ct is not None:
            I.after(S, fr, I.run(ct, x, byvalue(I, S, ct, vals, loc), S, loc))
        else:
            I.default_fields(S, x, zero=True)
    else:
        raise Unsupported('construction of an element at ' + loc)
    return x


def elsize(I, S, p):
    if isinstance(p, Loc) and p.o:
        c = S.get(p.o)
        if c.kind in ('mat',):
            return 4 if '<int' in c.cls else 8
        if c.kind == 'arr':
            if c.cls.startswith('float') or c.cls.startswith('int') or c.cls.startswith('unsigned int'):
                return 4
            if 'char' in c.cls:
                return 1
            return 8
        if c.kind == 'vector':
            t = I.P.ty(c.x['tu'], c.x['et'])
            return t.get('w', 64) // 8 if t['c'] != 'bool' else 1
        if c.kind == 'cell':
            return {'int': 4, 'float': 4, 'char': 1}.get(c.cls, 8)
    return 8


def memcpy(I, S, d, sr, k, loc):
    if isinstance(d, Gated) or isinstance(sr, Gated):
        raise Unsupported('memcpy through a gated pointer')
    if (isinstance(d, Loc) and d.o == 0) or (isinstance(sr, Loc) and sr.o == 0):
        I.event('null-deref', 'memcpy through a null pointer', loc, S)
        raise Dead()
    es = elsize(I, S, d)
    if not isinstance(k, int):
        raise Unsupported('memcpy of symbolic size')
    if k < 0 or k > 8 * 400000:
        raise Unsupported('memcpy of %d bytes' % k)
    vals = [I.load(S, I.padd(sr, i), loc) for i in range(k // es)]
    for i, v in enumerate(vals):
        I.store(S, I.padd(d, i), v, loc)
    return d


def whole_eq(I, S, a, b, loc):
    """equality of two vectors or pairs, element by element (None: neither)"""
    try:
        x, y = (obj(I, S, v) if isinstance(v, Loc) else v for v in (a, b))
    except Unsupported:
        return None
    if not (isinstance(x, Loc) and isinstance(y, Loc) and x.o and y.o and x.k is None and y.k is None):
        return None
    ca, cb = S.get(x.o), S.get(y.o)
    if ca.kind == cb.kind == 'vector' and isinstance(ca.d, list) and isinstance(cb.d, list):
        if len(ca.d) != len(cb.d):
            return False
        its = [(elref(I, S, x, i), elref(I, S, y, i)) for i in range(len(ca.d))]
    elif ca.kind == cb.kind == 'rec' and ca.x.get('cn') == cb.x.get('cn') == 'std::pair':
        its = [tuple(c.d[k] if isinstance(c.d[k], Loc) and c.d[k].k is None and c.d[k].o else Loc(l.o, k) for c, l in ((ca, x), (cb, y)))
               for k in ('std::pair::first', 'std::pair::second')]
    else:
        return None
    r = True
    for p, q in its:
        if p.k is not None:
            p, q = I.load(S, p), I.load(S, q)
        r = and_(r, eqop(I, S, p, q, '==', loc))
    return r


def eqop(I, S, a, b, n, loc):
    ne = n.endswith('!=')

    def isstr(v):
        v = obj(I, S, v) if isinstance(v, Loc) else v
        return isinstance(v, Loc) and v.o and v.k is None and S.get(v.o).kind in ('str', 'lit', 'mixed') or \
            isinstance(v, Loc) and v.o and v.k is not None and S.get(v.o).kind in ('lit', 'str')
    if isinstance(a, Gated) and isstr(a.a) or isinstance(b, Gated) and isstr(b.a) or isstr(a) or isstr(b):
        r = seq(sval(I, S, a), sval(I, S, b))
        return not_(r) if ne else r
    try:
        x, y = iterval(I, S, a), iterval(I, S, b)
        r = iter_eq(I, x, y)
        return not_(r) if ne else r
    except (Unsupported, KeyError):
        pass
    r = whole_eq(I, S, a, b, loc)
    if r is not None:
        return not_(r) if ne else r

    def sp(v):
        v2 = obj(I, S, v) if isinstance(v, Loc) else v
        if isinstance(v2, Loc) and v2.k is None and v2.o and S.get(v2.o).kind == 'sptr':
            return S.get(v2.o).d['p']
        return v2
    x, y = sp(a), sp(b)
    if isinstance(x, (Loc, Gated)) or isinstance(y, (Loc, Gated)):
        r = I.peq(x if x is not None else NULL, y if y is not None else NULL)
        return not_(r) if ne else r
    if isinstance(x, tuple) and isinstance(y, tuple):
        return (x == y) != ne
    r = cmp('==', x, y)
    return not_(r) if ne else r


def eigen_call(I, S, fr, e, f):
    q, n, op = f['q'], f['n'], f.get('op')
    args = [a for a in e['a'] if a['k'] != 'defarg']
    loc = e['l']

    def A(i):
        return I.ev(args[i], S, fr)
    if n in ('Zero', 'Ones', 'Constant', 'Identity', 'Random', 'LinSpaced', 'UnitX', 'UnitY', 'UnitZ'):
        v = [scal(I, S, A(i)) for i in range(len(args))]
        import re
        m = re.search(r'(?:Matrix|Array)<(\w+(?: \w+)?), (-?\d+), (-?\d+)', q)
        r0, c0 = (int(m.group(2)), int(m.group(3))) if m else (-1, 1)
        if n in ('UnitX', 'UnitY', 'UnitZ'):
            k = 'XYZ'.index(n[-1])
            d = [0.0] * r0
            d[k] = 1.0
            return tmpmat(I, S, d, r0, 1)
        dims = v[:-1] if n == 'Constant' else (v[:1] if n == 'LinSpaced' else v)
        if r0 > 0 and c0 > 0 and not dims:
            r, c = r0, c0
        elif len(dims) == 1:
            r, c = (dims[0], 1) if c0 == 1 or c0 == -1 else (1, dims[0])
        elif len(dims) == 2:
            r, c = dims
        else:
            raise Unsupported('Eigen ' + n)
        if not isinstance(r, int) or not isinstance(c, int):
            raise Unsupported('matrix of symbolic size')
        if r * c > 400000 or r < 0 or c < 0:
            raise Unsupported('matrix size')
        if n == 'Identity':
            d = [1.0 if i == j else 0.0 for j in range(c) for i in range(r)]
        elif n == 'Random':
            d = [mk('call:random', loc, i) for i in range(r * c)]
        elif n == 'LinSpaced':
            d = [add(v[1], mul(div(sub(v[2], v[1]), float(r - 1)), float(i))) for i in range(r)]
        else:
            z = {'Zero': 0.0, 'Ones': 1.0}.get(n) if n != 'Constant' else v[-1]
            if m and m.group(1) == 'int' and n != 'Constant':
                z = int(z)
            d = [z] * (r * c)
        L = tmpmat(I, S, d, r, c)
        S.mem[L.o].prov = {i: loc for i in range(len(d))}
        return L
    if n == 'Map':
        return eigen_map(I, S, q, [A(i) for i in range(len(args))], loc)
    if op == '*':
        a, b = A(0), A(1)
        if ismat(I, S, a) and ismat(I, S, b):
            return matmul(I, S, a, b, loc)
        return bcast2(I, S, a, b, mul, loc)
    if op in ('+', '-', '/'):
        return bcast2(I, S, A(0), A(1), ARITH[op], loc)
    if op in ('<', '<=', '>', '>='):
        return bcast2(I, S, A(0), A(1), lambda x, y: cmp(op, x, y), loc)
    if op == '<<':
        L = obj(I, S, A(0))
        put(I, S, L, A(1), None, loc)
        return L
    if n in UN and len(args) == 1:
        a = obj(I, S, A(0))
        r, c = shape(I, S, a)
        return tmpmat(I, S, [UN[n](x) for x in I.matvals(S, a)], r, c)
    if n == 'pow':
        return bcast2(I, S, A(0), A(1), lambda a, b: fun('pow', a, b), loc)
    raise Unsupported('Eigen call %s at %s' % (q, loc))
