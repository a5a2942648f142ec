"""Models of the algorithms and function objects of the C++ standard library.

Iterators address elements of a sequence by position: It(o, k, kind) with kind
'seq' (vectors, arrays, matrices), 'rev' (the element before k, walking
backwards), 'str', 'map', or 'back' (insertion at the end of a container)."""
from sym import E, mk, add, sub, mul, div, fun, ite, and_, or_, not_, isnum, neg, cmp
from interp import Loc, Thrown, Gated, Fn, Lam, Cont, Unsupported, Dead, UNDEF, NULL, mval

NONE = object()


def lt(a, b):
    return cmp('<', a, b)


def le(a, b):
    return cmp('<=', a, b)


def eq(a, b):
    return cmp('==', a, b)


import libmodel
from libmodel import It, Rich


def lib():
    return libmodel


ARITH = {'std::plus': add, 'std::minus': sub, 'std::multiplies': mul, 'std::divides': div}
COMP = {'std::less': lt, 'std::greater': lambda a, b: lt(b, a), 'std::less_equal': le, 'std::greater_equal': lambda a, b: le(b, a),
        'std::equal_to': eq, 'std::not_equal_to': lambda a, b: not_(eq(a, b)), 'std::logical_and': and_, 'std::logical_or': or_}
OPS = set(ARITH) | set(COMP) | {'std::negate', 'std::logical_not', 'std::modulus'}


def base(r):
    return (r or '').split('<')[0]


# ------------------------------------------------------------------ callables
def callee(I, S, v):
    for _ in range(6):
        if not isinstance(v, Loc) or not v.o:
            return v
        c = S.get(v.o)
        if c.kind == 'cell' or v.k is not None:
            v = I.load(S, v)
            continue
        if c.kind == 'fnobj':
            v = c.d['v']
            continue
        return v
    return v


def coerce(I, S, tu, p, a):
    """pass a (a value or the place of one) for the parameter p"""
    t = I.P.ty(tu, p['t'])
    if t.get('ref'):
        if isinstance(a, (Loc, Gated)):
            return a
        cl = I.alloc(S, 'cell', t['s'], {'v': a})
        return Loc(cl.o, 'v')
    if t['c'] == 'rec':
        if isinstance(a, Loc) and a.k is not None:
            a = I.load(S, a)
        return I.copy_obj(S, a) if isinstance(a, (Loc, Gated)) else a
    return lib().scal(I, S, a)


def apply(I, S, fr, e, fn, args):
    """call the callable fn on values or places of values"""
    m = lib()
    fn = callee(I, S, fn)
    if isinstance(fn, (Lam, Fn)):
        if isinstance(fn, Fn) and fn.node is None:
            return named(I, S, fr, e, fn, args)
        return I.call_value(S, fr, fn, [coerce(I, S, fn.tu, p, a) for p, a in zip(fn.node['p'], args)], e)
    if isinstance(fn, Gated):
        raise Unsupported('call of one of two functions at ' + e['l'])
    if isinstance(fn, Loc) and fn.o == 0 or fn is NULL:
        I.event('null-deref', 'call of an empty function', e['l'], S)
        raise Dead()
    if not isinstance(fn, Loc):
        raise Unsupported('indirect call at ' + e['l'])
    c = S.get(fn.o)
    if c.kind == 'stdop':
        v = [m.scal(I, S, a) for a in args]
        q = c.x['q']
        if q in ARITH:
            return ARITH[q](*v)
        if q in COMP:
            return COMP[q](*v)
        if q == 'std::negate':
            return neg(*v)
        if q == 'std::logical_not':
            return not_(I.truth(v[0]))
    if c.kind == 'bind':
        a = [args[x[1] - 1] if isinstance(x, tuple) and x[0] == 'ph' else x for x in c.d]
        return apply(I, S, fr, e, a[0], a[1:])
    if c.kind == 'rec' and c.x.get('cn'):
        best = None
        r = I.P.rec(c.x['tu'], c.x['cn'])
        for mm in (r[1]['m'] if r else ()):
            if mm['n'] == 'operator()' and len(mm['p']) == len(args):
                best = mm
        if best is not None:
            f = I.P.find(r[0], best['u'])
            if f is not None:
                return I.after(S, fr, I.run(f, fn, [coerce(I, S, f.tu, p, a) for p, a in zip(f.node['p'], args)], S, e['l']))
    raise Unsupported('call of an object at ' + e['l'])


class Vals:
    """an expression node that stands for a value"""


def named(I, S, fr, e, fn, args):
    """a function of the library, by its name"""
    m = lib()
    f = dict(fn.ref) if isinstance(fn.ref, dict) else None
    if f is None or 'q' not in f:
        raise Unsupported('call of an unknown function at ' + e['l'])
    n = f['q'].rsplit('::', 1)[-1]
    f.setdefault('n', n)
    v = [m.scal(I, S, a) for a in args]
    b = m.MATHALIAS.get(n, n)
    if b in m.MATH or b == 'abs':
        return fun(b, *v)
    if n in ('max', 'min', 'fmax', 'fmin') and len(v) == 2:
        return fun(n[-3:], *v)
    if n in ('toupper', 'tolower') and isinstance(v[0], int):
        return ord(getattr(chr(v[0] & 255), n[2:])())
    if n in ('isspace', 'isdigit', 'isalpha', 'isalnum', 'ispunct', 'isupper', 'islower') and isinstance(v[0], int):
        return ctype(n, v[0])
    if n in ('isnan', 'isfinite', 'isinf'):
        return fun(n, v[0])
    raise Unsupported('call of %s through a pointer at %s' % (f['q'], e['l']))


def ctype(n, v):
    ch = chr(v) if 0 <= v < 128 else ''
    if not ch:
        return 0
    return int({'isspace': ch in ' \t\n\r\f\v', 'isdigit': ch.isdigit(), 'isalpha': ch.isalpha(), 'isalnum': ch.isalnum(), 'isupper': ch.isupper(), 'islower': ch.islower(),
                'isprint': ' ' <= ch <= '~', 'ispunct': '!' <= ch <= '~' and not ch.isalnum()}[n])


# ------------------------------------------------------------------ ranges
def place(I, S, it, loc=None):
    """the element an iterator is at"""
    return lib().iter_deref(I, S, it, loc)


def step(S, it, n):
    if isinstance(it, Gated):
        return Gated(it.c, step(S, it.a, n), step(S, it.b, n))
    return lib().iter_step(S, it, n)


def places(I, S, a, b, loc):
    """iterators of the range [a, b)"""
    a, b = lib().iterval(I, S, a), lib().iterval(I, S, b)
    if not isinstance(a, It) or not isinstance(b, It) or a.o != b.o or a.kind != b.kind:
        raise Unsupported('range of two places at ' + loc)
    if a.kind == 'map':
        ks = lib().map_keys(S.get(a.o))
        i = ks.index(a.k) if a.k is not None else len(ks)
        j = ks.index(b.k) if b.k is not None else len(ks)
        return [It(a.o, k, 'map') for k in ks[i:j]]
    if not isinstance(a.k, int) or not isinstance(b.k, int):
        raise Unsupported('range of unknown length at ' + loc)
    if a.kind == 'rev':
        return [It(a.o, k, 'rev') for k in range(a.k, b.k, -1)]
    if b.k - a.k > 200000:
        raise Unsupported('range too long at ' + loc)
    c = S.get(a.o)
    n = c.x.get('len') if c.kind == 'sarr' else len(c.x['idx']) if c.kind == 'view' else len(c.d[0]) if a.kind == 'str' and isinstance(c.d[0], str) else len(c.d) if isinstance(c.d, list) else None
    if isinstance(n, int) and b.k > n or a.k > b.k:
        I.event('oob', 'range [%d, %d) of %d elements' % (a.k, b.k, n), loc, S)
        raise Dead()
    return [It(a.o, k, a.kind) for k in range(a.k, b.k)]


def seqelem(I, S, it, loc):
    return place(I, S, it, loc)


def put(I, S, fr, e, it, v):
    """store v (a value, or the place of one) where the output iterator is; -> the next one"""
    m = lib()
    if it.kind in ('back', 'front', 'ins', 'out'):
        push(I, S, it, v, e['l'])
        return It(it.o, it.k + 1, 'ins') if it.kind == 'ins' else it
    c = S.get(it.o)
    if it.kind == 'str':
        ch = m.scal(I, S, v)
        s = c.d[0]
        if not isinstance(ch, int) or not isinstance(s, str):
            raise Unsupported('text at ' + e['l'])
        if not 0 <= it.k < len(s):
            I.event('oob', 'writing beyond the end of a text', e['l'], S)
            raise Dead()
        S.w(it.o).d[0] = s[:it.k] + chr(ch & 255) + s[it.k + 1:]
        return step(S, it, 1)
    if c.kind == 'sarr':
        I.store(S, Loc(it.o, it.k), m.scal(I, S, v), e['l'])
        return step(S, it, 1)
    p = place(I, S, it, e['l'])
    if isinstance(p, Loc) and p.k is None:
        I.assign_obj(S, p, v, e['l']) if S.get(p.o).kind not in ('str', 'sptr') else lib().setobj(I, S, p, v)
    else:
        I.store(S, p, m.ptrval(I, S, v) if isinstance(v, Loc) and v.k is None else m.scal(I, S, v), e['l'])
    return step(S, it, 1)


def push(I, S, it, v, loc):
    c = S.get(it.o)
    m = lib()
    if it.kind == 'out':
        d, tu, t = it.k
        ty = I.P.ty(tu, t) if t is not None else None
        L = Loc(it.o)
        m.put(I, S, L, m.scal(I, S, v) if ty is None or ty['c'] != 'rec' else v, ty, loc)
        if d:
            m.put(I, S, L, I.mkstr(S, d), None, loc)
        return
    if c.kind == 'str':
        ch = m.scal(I, S, v)
        if not isinstance(ch, int):
            raise Unsupported('text at ' + loc)
        t = c.d[0]
        S.w(it.o).d[0] = t + chr(ch & 255) if isinstance(t, str) else m.rich(m.atoms_of(t) + (chr(ch & 255),))
        return
    x = m.element(I, S, c, v)
    cc = S.w(it.o)
    k = len(cc.d) if it.kind == 'back' else 0 if it.kind == 'front' else it.k
    cc.d = cc.d[:k] + [x] + cc.d[k:]


def scalar(I, S, it, loc):
    return lib().scal(I, S, place(I, S, it, loc))


def order(I, S, fr, e, comp, a, b):
    """a comes before b (decided)"""
    r = less(I, S, fr, e, comp, a, b)
    if isinstance(r, E):
        r = I.decide(r, S)
    if isinstance(r, E):
        raise Unsupported('order of unknown values at ' + e['l'])
    return bool(r)


def less(I, S, fr, e, comp, a, b):
    if comp is not None:
        return I.truth(apply(I, S, fr, e, comp, [a, b]))
    x, y = plain(I, S, a), plain(I, S, b)
    if isinstance(x, str) or isinstance(y, str):
        if isinstance(x, str) and isinstance(y, str):
            return x < y
        raise Unsupported('order of texts at ' + e['l'])
    return lt(x, y)


def same(I, S, a, b, loc):
    x, y = plain(I, S, a), plain(I, S, b)
    if isinstance(x, (str, Rich)) or isinstance(y, (str, Rich)):
        return lib().seq(x, y)
    return eq(x, y)


def plain(I, S, v):
    if isinstance(v, Loc) and v.k is None and v.o and S.get(v.o).kind in ('str', 'lit'):
        return lib().sval(I, S, v)
    return lib().scal(I, S, v)


def pred(I, S, fr, e, p, a):
    return I.truth(apply(I, S, fr, e, p, [a]))


def decided(I, S, c, loc):
    c = I.decide(c, S) if isinstance(c, E) else c
    if isinstance(c, E):
        raise Unsupported('an unknown condition at ' + loc)
    return bool(c)


def result(I, S, it):
    return lib().mkiter(I, S, it)


def value(I, S, fr, e, v):
    """a value of the type of the expression"""
    return lib().scal(I, S, v) if not (isinstance(v, Loc) and v.k is None) else v


def contents(I, S, its, loc):
    """copies of the elements of a range"""
    out = []
    for it in its:
        p = place(I, S, it, loc)
        out.append(I.copy_obj(S, p) if isinstance(p, Loc) and p.k is None else lib().ptrval(I, S, p) if isinstance(I.load(S, p), Loc) else lib().scal(I, S, p))
    return out


def write(I, S, fr, e, its, vals):
    for it, v in zip(its, vals):
        put(I, S, fr, e, it, v)


ALGO = {'accumulate', 'inner_product', 'transform', 'for_each', 'any_of', 'all_of', 'none_of', 'count', 'count_if', 'find', 'find_if', 'find_if_not', 'fill_n', 'iota', 'max_element', 'min_element',
        'minmax_element', 'minmax', 'copy_n', 'copy', 'copy_if', 'copy_backward', 'move', 'reverse', 'reverse_copy', 'sort', 'stable_sort', 'equal', 'generate', 'generate_n', 'partial_sum', 'next', 'prev', 'advance', 'begin', 'end',
        'cbegin', 'cend', 'rbegin', 'rend', 'back_inserter', 'front_inserter', 'inserter', 'make_tuple', 'tie', 'get', 'bind', 'mem_fn', 'iter_swap', 'rotate', 'remove', 'remove_if', 'unique', 'lower_bound', 'upper_bound', 'binary_search', 'swap_ranges',
        'replace_if', 'lexicographical_compare', 'is_sorted', 'adjacent_difference', 'mismatch', 'adjacent_find', 'for_each_n', 'nth_element', 'partition', 'stable_partition', 'distance', 'fill', 'max', 'min', 'reduce', 'clamp', 'merge', 'size', 'empty', 'data',
        'make_reverse_iterator', 'search', 'includes', 'exchange', 'forward_as_tuple', 'tuple_cat', 'max_size'}


def algo(I, S, fr, e, f):
    q, n = f['q'], f['n']
    if not q.startswith('std::') or q != 'std::' + n or n not in ALGO:
        return NONE
    args = e['a']
    loc = e['l']
    m = lib()
    if n in ('max', 'min') and len(args) == 2 or n == 'fill' or n == 'move' and len(args) == 1 or n == 'distance' and False:
        return NONE
    v = [I.ev(a, S, fr) for a in args if a.get('k') != 'defarg']
    k = len(v)

    def result(I, S, it):
        return pointer(it) if 'rt' in f and I.ty(fr, f['rt'])['c'] == 'ptr' else m.mkiter(I, S, it)

    def pointer(it):
        if isinstance(it, Gated):
            return m.mval(it.c, pointer(it.a), pointer(it.b))
        return Loc(it.o, it.k) if isinstance(it, It) and it.kind == 'seq' else it

    def P(i, j):
        return places(I, S, v[i], v[j], loc)

    def at(it):
        return place(I, S, it, loc)

    def val(it):
        return scalar(I, S, it, loc)

    def out(i):
        it = m.iterval(I, S, v[i])
        if not isinstance(it, It):
            raise Unsupported('output iterator at ' + loc)
        return it

    def call(fn, *a):
        return apply(I, S, fr, e, fn, list(a))

    if n in ('max', 'min'):
        # of three arguments (with an order), or of a list
        if k == 3:
            c = I.truth(call(v[2], v[0], v[1])) if n == 'max' else I.truth(call(v[2], v[1], v[0]))
            c = I.decide(c, S) if isinstance(c, E) else c
            if not isinstance(c, E):
                return v[1] if c else v[0]
            return ite(c, m.scal(I, S, v[1]), m.scal(I, S, v[0]))
        o = m.obj(I, S, v[0])
        xs = [m.scal(I, S, m.elref(I, S, o, i)) for i in range(len(S.get(o.o).d))]
        if not xs:
            I.event('oob', n + ' of an empty list', loc, S)
            raise Dead()
        r = xs[0]
        for x in xs[1:]:
            if k == 2:
                r = ite(I.truth(call(v[1], r, x) if n == 'max' else call(v[1], x, r)), x, r)
            else:
                r = (x if r < x else r) if n == 'max' and isnum(r) and isnum(x) else (x if x < r else r) if isnum(r) and isnum(x) else fun(n, r, x)
        return r
    if n == 'clamp':
        x, lo, hi = (m.scal(I, S, a) for a in v[:3])
        return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))
    if n == 'minmax':
        if k == 1:
            o = m.obj(I, S, v[0])
            xs = [m.scal(I, S, m.elref(I, S, o, i)) for i in range(len(S.get(o.o).d))]
        else:
            xs = [m.scal(I, S, a) for a in v[:2]]
        lo = hi = xs[0]
        for x in xs[1:]:
            lo, hi = (min(lo, x), max(hi, x)) if isnum(lo) and isnum(hi) and isnum(x) else (fun('min', lo, x), fun('max', hi, x))
        return mkpair(I, S, fr, f, lo, hi)
    if n in ('accumulate', 'reduce'):
        acc = value(I, S, fr, e, v[2]) if k > 2 else 0.0
        if isinstance(acc, Loc):
            acc = I.copy_obj(S, acc)
        rt = I.ty(fr, f['rt'])
        for it in P(0, 1):
            x = at(it)
            if k > 3:
                acc = call(v[3], acc, x)
                if isinstance(acc, Loc) and acc.k is not None:
                    acc = I.load(S, acc)
            elif isinstance(acc, Loc) and acc.k is None:
                if S.get(acc.o).kind == 'str':
                    L = I.mkstr(S, m.rich(m.atoms_of(m.sval(I, S, acc)) + m.atoms_of(m.sval(I, S, x))))
                    acc = L
                elif m.ismat(I, S, acc):
                    a, b = I.matvals(S, acc), I.matvals(S, m.obj(I, S, x))
                    if len(a) != len(b):
                        I.event('shape', 'sum of %d and %d values' % (len(a), len(b)), loc, S)
                    c0 = I.matc(S, acc)
                    acc = I.mkmat(S, [add(p, r) for p, r in zip(a, b)], c0.x['rows'], c0.x['cols'])
                else:
                    raise Unsupported('accumulate at ' + loc)
            else:
                acc = conv(I, rt, add(acc, m.scal(I, S, x)))
        return acc
    if n == 'inner_product':
        acc = m.scal(I, S, v[3])
        a = P(0, 1)
        b = m.iterval(I, S, v[2])
        for i, it in enumerate(a):
            x, y = at(it), place(I, S, step(S, b, i), loc)
            p = call(v[5], x, y) if k > 5 else mul(m.scal(I, S, x), m.scal(I, S, y))
            acc = call(v[4], acc, p) if k > 4 else add(acc, m.scal(I, S, p))
            acc = m.scal(I, S, acc)
        return acc
    if n == 'transform':
        two = k == 5
        o = out(3 if two else 2)
        b = m.iterval(I, S, v[2]) if two else None
        for i, it in enumerate(P(0, 1)):
            x = [at(it)] + ([place(I, S, step(S, b, i), loc)] if two else [])
            if it.kind == 'str':
                x[0] = m.scal(I, S, x[0])
            o = put(I, S, fr, e, o, call(v[-1], *x))
        return result(I, S, o)
    if n in ('for_each', 'for_each_n'):
        its = P(0, 1) if n == 'for_each' else [step(S, m.iterval(I, S, v[0]), i) for i in range(intof(m.scal(I, S, v[1]), loc))]
        fn = v[2]
        for it in its:
            call(fn, at(it))
        return fn if n == 'for_each' else result(I, S, step(S, m.iterval(I, S, v[0]), len(its)))
    if n in ('any_of', 'all_of', 'none_of'):
        r = n != 'any_of'
        for it in P(0, 1):
            c = pred(I, S, fr, e, v[2], at(it))
            if n == 'any_of':
                r = or_(r, c)
                stop = True
            else:
                r = and_(r, c if n == 'all_of' else not_(c))
                stop = False
            if r is stop:
                break
        return r
    if n in ('count', 'count_if'):
        r = 0
        for it in P(0, 1):
            c = pred(I, S, fr, e, v[2], at(it)) if n == 'count_if' else same(I, S, at(it), v[2], loc)
            r = add(r, int(c) if isinstance(c, bool) else ite(c, 1, 0))
        return r
    if n in ('find', 'find_if', 'find_if_not', 'adjacent_find'):
        its = P(0, 1)
        end = m.iterval(I, S, v[1])
        r = []
        for i, it in enumerate(its):
            if n == 'adjacent_find':
                if i + 1 == len(its):
                    break
                c = I.truth(call(v[2], at(it), at(its[i + 1]))) if k > 2 else same(I, S, at(it), at(its[i + 1]), loc)
            else:
                c = same(I, S, at(it), v[2], loc) if n == 'find' else pred(I, S, fr, e, v[2], at(it))
            if n == 'find_if_not':
                c = not_(c)
            c = I.decide(c, S) if isinstance(c, E) else c
            if isinstance(c, E):
                r.append((c, it))
            elif c:
                end = it
                break
        for c, it in reversed(r):
            end = Gated(c, it, end)
        return result(I, S, end)
    if n in ('fill_n', 'generate_n'):
        o = out(0)
        for _ in range(intof(m.scal(I, S, v[1]), loc)):
            o = put(I, S, fr, e, o, v[2] if n == 'fill_n' else call(v[2]))
        return result(I, S, o)
    if n == 'generate':
        for it in P(0, 1):
            put(I, S, fr, e, it, call(v[2]))
        return None
    if n == 'iota':
        x = m.scal(I, S, v[2])
        for it in P(0, 1):
            put(I, S, fr, e, it, x)
            x = add(x, 1)
        return None
    if n in ('max_element', 'min_element', 'minmax_element'):
        its = P(0, 1)
        comp = v[2] if k > 2 else None

        def ext(mx, last=False):
            best = its[0] if its else m.iterval(I, S, v[1])
            for it in its[1:]:
                a, b = (at(best), at(it)) if mx else (at(it), at(best))
                c = not_(less(I, S, fr, e, comp, at(it), at(best))) if last else less(I, S, fr, e, comp, a, b)
                c = I.decide(c, S) if isinstance(c, E) else c
                best = Gated(c, it, best) if isinstance(c, E) else it if c else best
            return best
        if n == 'minmax_element':
            return mkpair(I, S, fr, f, ext(False), ext(True, True))
        return result(I, S, ext(n == 'max_element'))
    if n in ('copy', 'copy_n', 'copy_if', 'move', 'reverse_copy', 'copy_backward'):
        its = [step(S, m.iterval(I, S, v[0]), i) for i in range(intof(m.scal(I, S, v[1]), loc))] if n == 'copy_n' else P(0, 1)
        if n == 'copy_n' and its:
            its = places(I, S, its[0], step(S, its[-1], 1), loc)
        o = out(2)
        if n == 'reverse_copy':
            its = its[::-1]
        if n == 'copy_backward':
            vals = contents(I, S, its, loc)
            o = step(S, o, -len(vals))
            write(I, S, fr, e, [step(S, o, i) for i in range(len(vals))], vals)
            return result(I, S, o)
        for it in its:
            x = at(it)
            if n == 'copy_if' and not decided(I, S, pred(I, S, fr, e, v[3], x), loc):
                continue
            o = put(I, S, fr, e, o, x)
        return result(I, S, o)
    if n in ('sort', 'stable_sort', 'reverse', 'rotate', 'nth_element', 'partition', 'stable_partition'):
        if n == 'rotate':
            its = P(0, 2)
            mid = len(P(0, 1))
        else:
            its = P(0, 2 if n == 'nth_element' else 1)
        vals = contents(I, S, its, loc)
        if n == 'reverse':
            vals = vals[::-1]
        elif n == 'rotate':
            vals = vals[mid:] + vals[:mid]
        elif n in ('partition', 'stable_partition'):
            cs = [decided(I, S, pred(I, S, fr, e, v[2], x), loc) for x in vals]
            vals = [x for x, c in zip(vals, cs) if c] + [x for x, c in zip(vals, cs) if not c]
            write(I, S, fr, e, its, vals)
            return result(I, S, step(S, m.iterval(I, S, v[0]), sum(cs)))
        else:
            import functools
            comp = v[-1] if k > (3 if n == 'nth_element' else 2) else None
            vals.sort(key=functools.cmp_to_key(lambda a, b: -1 if order(I, S, fr, e, comp, a, b) else 1 if order(I, S, fr, e, comp, b, a) else 0))
        write(I, S, fr, e, its, vals)
        return result(I, S, step(S, m.iterval(I, S, v[0]), len(its) - mid)) if n == 'rotate' else None
    if n in ('equal', 'mismatch', 'swap_ranges'):
        a = P(0, 1)
        b = m.iterval(I, S, v[2])
        p = v[3] if k == 4 and not isiter(I, S, v[3]) else v[4] if k == 5 else None
        if n == 'swap_ranges':
            for i, it in enumerate(a):
                x, y = contents(I, S, [it, step(S, b, i)], loc)
                write(I, S, fr, e, [it, step(S, b, i)], [y, x])
            return result(I, S, step(S, b, len(a)))
        if n == 'equal':
            if k >= 4 and p is not v[3] and len(P(2, 3)) != len(a):
                return False
            r = True
            for i, it in enumerate(a):
                x, y = at(it), place(I, S, step(S, b, i), loc)
                r = and_(r, I.truth(call(p, x, y)) if p is not None else same(I, S, x, y, loc))
            return r
        raise Unsupported('mismatch at ' + loc)
    if n in ('partial_sum', 'adjacent_difference'):
        o = out(2)
        acc = None
        for it in P(0, 1):
            x = val(it)
            if n == 'partial_sum':
                acc = x if acc is None else m.scal(I, S, call(v[3], acc, x)) if k > 3 else add(acc, x)
                o = put(I, S, fr, e, o, acc)
            else:
                o = put(I, S, fr, e, o, x if acc is None else sub(x, acc))
                acc = x
        return result(I, S, o)
    if n in ('next', 'prev', 'advance'):
        d = m.scal(I, S, v[1]) if k > 1 else 1
        it = m.iterval(I, S, v[0])
        r = step(S, it, -intof(d, loc) if n == 'prev' else intof(d, loc))
        if n == 'advance':
            m.setiter(I, S, v[0], r)
            return None
        return result(I, S, r)
    if n == 'distance':
        a, b = m.iterval(I, S, v[0]), m.iterval(I, S, v[1])
        if a.kind == 'map':
            ks = m.map_keys(S.get(a.o))
            return (ks.index(b.k) if b.k is not None else len(ks)) - (ks.index(a.k) if a.k is not None else len(ks))
        return a.k - b.k if a.kind == 'rev' else sub(b.k, a.k)
    if n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty', 'data'):
        o = m.obj(I, S, v[0])
        return bounds_of(I, S, o, n, loc)
    if n in ('back_inserter', 'front_inserter'):
        return result(I, S, It(m.obj(I, S, v[0]).o, 0, 'back' if n[0] == 'b' else 'front'))
    if n == 'inserter':
        return result(I, S, It(m.obj(I, S, v[0]).o, m.iterval(I, S, v[1]).k, 'ins'))
    if n == 'make_reverse_iterator':
        it = m.iterval(I, S, v[0])
        return result(I, S, It(it.o, it.k, 'rev'))
    if n in ('make_tuple', 'tie', 'forward_as_tuple'):
        d = []
        for a in v:
            if n == 'tie':
                d.append(('ref', a))
            else:
                d.append(I.copy_obj(S, a) if isinstance(a, Loc) and a.k is None and a.o and n == 'make_tuple' else m.scal(I, S, a) if n == 'make_tuple' else ('ref', a))
        return I.alloc(S, 'tuple', 'std::tuple', d)
    if n == 'get':
        o = m.obj(I, S, v[0])
        i = (f.get('ta') or [{}])[0].get('i')
        c = S.get(o.o)
        if not isinstance(i, int):
            raise Unsupported('std::get by type at ' + loc)
        if c.kind == 'rec' and c.x.get('cn') == 'std::pair':
            key = 'std::pair::second' if i else 'std::pair::first'
            w = c.d[key]
            return w if isinstance(w, Loc) and w.k is None and w.o else Loc(o.o, key)
        if c.kind == 'tuple':
            w = c.d[i]
            if isinstance(w, tuple):
                return w[1]
            return w if isinstance(w, Loc) and w.k is None and w.o else Loc(o.o, i)
        return m.elref(I, S, o, i)
    if n == 'bind':
        d = []
        for a in v:
            c = S.get(a.o) if isinstance(a, Loc) and a.o and a.k is None else None
            if c is not None and c.kind == 'ph':
                d.append(('ph', c.x['n']))
            elif isinstance(a, (Lam, Fn)) or c is not None and c.kind in ('stdop', 'fnobj', 'bind'):
                d.append(a)
            else:
                d.append(I.copy_obj(S, a) if isinstance(a, Loc) and a.k is None and a.o else m.scal(I, S, a))
        return I.alloc(S, 'bind', 'std::bind', d)
    if n == 'iter_swap':
        a, b = m.iterval(I, S, v[0]), m.iterval(I, S, v[1])
        x, y = contents(I, S, [a, b], loc)
        write(I, S, fr, e, [a, b], [y, x])
        return None
    if n in ('remove', 'remove_if', 'unique'):
        its = P(0, 1)
        keep = []
        for it in its:
            if n == 'unique':
                drop = bool(keep) and decided(I, S, I.truth(call(v[2], at(keep[-1]), at(it))) if k > 2 else same(I, S, at(keep[-1]), at(it), loc), loc)
            else:
                drop = decided(I, S, same(I, S, at(it), v[2], loc) if n == 'remove' else pred(I, S, fr, e, v[2], at(it)), loc)
            if not drop:
                keep.append(it)
        vals = contents(I, S, keep, loc)
        if its and its[0].kind == 'str':
            vals = [m.scal(I, S, at(it)) for it in keep]
        write(I, S, fr, e, its, vals)
        return result(I, S, step(S, m.iterval(I, S, v[0]), len(keep)))
    if n == 'replace_if':
        for it in P(0, 1):
            if decided(I, S, pred(I, S, fr, e, v[2], at(it)), loc):
                put(I, S, fr, e, it, v[3])
        return None
    if n in ('lower_bound', 'upper_bound', 'binary_search'):
        # elements that precede the value: on a sorted range, a prefix
        its = P(0, 1)
        comp = v[3] if k > 3 else None
        r = m.iterval(I, S, v[1])
        hits = []
        for it in its:
            c = not_(less(I, S, fr, e, comp, at(it), v[2])) if n != 'upper_bound' else less(I, S, fr, e, comp, v[2], at(it))
            c = I.decide(c, S) if isinstance(c, E) else c
            if isinstance(c, E):
                hits.append((c, it))
            elif c:
                r = it
                break
        if n == 'binary_search':
            found = False
            for it in its:
                found = or_(found, and_(not_(less(I, S, fr, e, comp, at(it), v[2])), not_(less(I, S, fr, e, comp, v[2], at(it)))))
            return found
        for c, it in reversed(hits):
            r = Gated(c, it, r)
        return result(I, S, r)
    if n == 'is_sorted':
        its = P(0, 1)
        r = True
        for a, b in zip(its, its[1:]):
            r = and_(r, not_(less(I, S, fr, e, v[2] if k > 2 else None, at(b), at(a))))
        return r
    if n == 'exchange':
        old = m.scal(I, S, v[0])
        I.store(S, v[0], m.scal(I, S, v[1]), loc)
        return old
    raise Unsupported('call of %s at %s' % (q, loc))


def isiter(I, S, v):
    try:
        return isinstance(lib().iterval(I, S, v), (It, Gated))
    except Unsupported:
        return False


def intof(x, loc):
    if isinstance(x, bool):
        return int(x)
    if not isinstance(x, int):
        raise Unsupported('an unknown count at ' + loc)
    return x


def conv(I, t, v):
    if t['c'] == 'int' and isinstance(v, float):
        return int(v)
    return v


def mkpair(I, S, fr, f, a, b):
    L = I.new_rec(S, fr.tu, I.ty(fr, f['rt']))
    for key, x in (('std::pair::first', a), ('std::pair::second', b)):
        cur = S.get(L.o).d[key]
        if isinstance(x, (It, Gated)):
            x = lib().mkiter(I, S, x)
        S.w(L.o).d[key] = x
    S.mem[L.o].x['tmp'] = True
    return L


def bounds_of(I, S, o, n, loc):
    m = lib()
    c = S.get(o.o)
    if c.kind in ('str', 'lit') and isinstance(c.d[0], str):
        k, kind = len(c.d[0]), 'str'
    elif c.kind == 'map':
        ks = m.map_keys(c)
        if n == 'size':
            return len(ks)
        if n == 'empty':
            return not ks
        return m.mkiter(I, S, It(o.o, (ks[0] if ks else None) if n in ('begin', 'cbegin') else None, 'map'))
    elif isinstance(c.d, list):
        k, kind = len(c.d), 'seq'
    else:
        raise Unsupported('%s of %s at %s' % (n, c.kind, loc))
    if n == 'size':
        return k
    if n == 'empty':
        return k == 0
    if n == 'data':
        return Loc(o.o, 0)
    if n in ('rbegin', 'rend', 'crbegin', 'crend'):
        return m.mkiter(I, S, It(o.o, k if 'begin' in n else 0, 'rev'))
    pos = 0 if n in ('begin', 'cbegin') else k
    if c.kind == 'arr' and c.x.get('std') is None and kind == 'seq':
        return Loc(o.o, pos)
    return m.mkiter(I, S, It(o.o, pos, kind))


# ------------------------------------------------------------------ std::array
def array_method(I, S, fr, e, f, o, c):
    m = lib()
    n, op = f['n'], f.get('op')
    args = e['a']
    if n in ('size', 'max_size'):
        return len(c.d)
    if n == 'empty':
        return not c.d
    if op == '[]' or n == 'at':
        i = m.scal(I, S, I.ev(args[0], S, fr))
        c = S.get(o.o)
        if isinstance(i, int) and not 0 <= i < len(c.d):
            I.event('oob', 'index %d of an array of %d' % (i, len(c.d)), e['l'], S)
            if n == 'at':
                return m.abortexit(I, S, fr, 'throw', Thrown(e['l'], 'std::out_of_range'))
            return Loc(I.alloc(S, 'cell', 'oob', {'v': UNDEF}).o, 'v')
        return m.elref(I, S, o, i)
    if n in ('front', 'back'):
        return m.elref(I, S, o, 0 if n == 'front' else len(c.d) - 1)
    if n == 'data':
        return Loc(o.o, 0)
    if n in ('begin', 'cbegin', 'end', 'cend'):
        return Loc(o.o, 0 if 'begin' in n else len(c.d))
    if n in ('rbegin', 'crbegin', 'rend', 'crend'):
        return m.mkiter(I, S, It(o.o, len(c.d) if 'begin' in n else 0, 'rev'))
    if n == 'fill':
        v = I.ev(args[0], S, fr)
        for i in range(len(c.d)):
            put(I, S, fr, e, It(o.o, i, 'seq'), v)
        return None
    if n == 'swap':
        b = m.obj(I, S, I.ev(args[0], S, fr))
        x, y = S.w(o.o), S.w(b.o)
        x.d, y.d = y.d, x.d
        return None
    if op == '=':
        I.assign_obj(S, o, m.obj(I, S, I.ev(args[0], S, fr)), e['l'])
        return o
    raise Unsupported('array::%s at %s' % (n, e['l']))


def tuple_method(I, S, fr, e, f, o, c):
    m = lib()
    if f.get('op') == '=':
        src = m.obj(I, S, I.ev(e['a'][0], S, fr))
        sc = S.get(src.o)
        vals = [sc.d[k] for k in ('std::pair::first', 'std::pair::second')] if sc.kind == 'rec' else list(sc.d)
        vals = [x[1] if isinstance(x, tuple) else x for x in vals]
        vals = [m.scal(I, S, x) if not (isinstance(x, Loc) and x.k is None and x.o) else x for x in vals]
        for i, x in enumerate(vals):
            d = c.d[i]
            if isinstance(d, tuple):
                if d[1] is None or isinstance(d[1], Loc) and d[1].o and S.get(d[1].o).kind in ('ignore', 'opaque'):
                    continue
                if isinstance(x, Loc):
                    m.setobj(I, S, m.obj(I, S, d[1]), x)
                else:
                    I.store(S, d[1], x, e['l'])
            else:
                S.w(o.o).d[i] = x
        return o
    raise Unsupported('tuple::%s at %s' % (f['n'], e['l']))
