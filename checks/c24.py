"""The Python module gives what the library gives."""
import random
from tools import *
from models import enum, enumname, plugin_tus
from interp import untemplate, Lam
from libmodel import Rich
from c18 import grid_text, rows_of, unit, through
import c22, conv
from facts import AnalysisError

TU = 'sources/python/alta.cpp'
VEC = 'Eigen::Matrix<double, -1, 1>'
INT = 'alta::params::input'
OUTT = 'alta::params::output'


class Obj:
    """a Python object that stands for a C++ object"""

    def __init__(self, cls, at):
        self.cls, self.at = cls, at


class Value:
    """a value of an enumeration"""

    def __init__(self, enum, v):
        self.enum, self.v = enum, v


class Refused(Exception):
    """the call raises a Python exception"""

    def __init__(self, what):
        Exception.__init__(self, str(what))
        self.what = what


class Dies(Exception):
    """the call ends the interpreter"""


class Bound:
    def __init__(self, owner, name, fn, ref, loc, defaults, kind):
        self.owner, self.name, self.fn, self.ref, self.loc, self.defaults, self.kind = owner, name, fn, ref, loc, defaults, kind
        self.types = None


def strip(t):
    return {k: v for k, v in t.items() if k not in ('ref', 'const')}


class Python:
    """one abstract interpreter with the module loaded"""

    def __init__(self, c=None):
        self.c = c = c or fresh()
        self.classes, self.enums, self.bound, self.bases, self.holders = {}, {}, [], {}, {}
        self.hooks(c.I)
        f = program().byq.get('pybind11_init_alta')
        if not f:
            raise AnalysisError('no Python module')
        self.TU = f[0][0]
        mod = c.I.alloc(c.S, 'opaque', 'pybind11::module_', None)
        self.owner = {mod.o: ''}
        k, v = c.runfn(Fn(*f[0]), None, [mod])
        self.import_fails = k == 'noret'

    def deref(self, S, v):
        """the value in a cell"""
        for _ in range(5):
            if not isinstance(v, Loc) or not v.o or (v.k is None and S.get(v.o).kind != 'cell'):
                break
            v = self.c.I.load(S, v)
        return v

    # ---- what the module registers
    def text(self, S, v):
        for _ in range(4):
            if not isinstance(v, Loc):
                break
            k = S.get(v.o)
            if k.kind in ('str', 'lit'):
                return ''.join(x if isinstance(x, str) else '?' for x in k.d)
            v = self.c.I.load(S, v)
        return v

    def hooks(self, I):
        P = program()

        def klass(I, S, fr, e, L, args):
            t = I.P.ty(fr.tu, e['t'])
            ts = [I.P.ty(fr.tu, x['t']) for x in t['a'] if 't' in x]
            L = L if isinstance(L, Loc) else I.alloc(S, 'opaque', t['s'], None)
            name = self.text(S, args[1])
            q = ts[0].get('r') or ts[0]['s']
            q = ts[0]['s'] if q.startswith('Eigen') else ts[0].get('r') or ts[0].get('n') or ts[0]['s']
            self.owner[L.o] = q
            if 'enum_' in t['r']:
                self.enums[q] = (name, {}, e['l'])
            else:
                self.classes[q] = (name, e['l'])
                self.bases[q] = [x.get('r') for x in ts[1:] if x.get('r') not in ('std::shared_ptr', 'std::unique_ptr')]
                self.holders[q] = any(x.get('r') == 'std::shared_ptr' for x in ts[1:])
            return L

        def define(I, S, fr, e, o, args):
            name = self.text(S, args[0])
            args = args if isinstance(name, str) else [None] + args
            f = args[1]
            if isinstance(f, Loc):
                f = I.load(S, f)
            d = []
            for a in args[2:]:
                a = self.deref(S, a)
                if isinstance(a, tuple) and a[0] in ('default', 'arg'):
                    d.append(a)
            loc = self.where(e)
            if isinstance(f, tuple) and f[0] == 'init':
                self.bound.append(Bound(self.owner[o.o], '__init__', f, None, loc, d, 'init'))
            else:
                self.bound.append(Bound(self.owner[o.o], name, f, getattr(f, 'ref', None), loc, d, 'def'))
            return o

        def value(I, S, fr, e, o, args):
            n = self.text(S, args[0])
            self.enums[self.owner[o.o]][1].setdefault(n, []).append((args[1], e['l']))
            return o

        def init(I, S, fr, e, o, args):
            f = args[0] if args else None
            f = self.deref(S, f)
            return ('init', [I.P.ty(fr.tu, x['t']) for x in e['f'].get('ta', ()) if 't' in x], f)

        def arg(I, S, fr, e, L, args):
            named[L.o] = self.text(S, args[0]) if args else ''
            return L
        named = {}

        def default(I, S, fr, e, o, args):
            o = self.deref(S, o)
            v = args[0]
            if isinstance(v, Loc) and v.k is not None:
                x = I.load(S, v)
                v = x if isinstance(x, Loc) and S.get(x.o).kind == 'rec' else v
            return ('default', named.get(o.o) if isinstance(o, Loc) else None, v)

        I.ctorhooks['pybind11::class_'] = I.ctorhooks['pybind11::enum_'] = klass
        I.ctorhooks['pybind11::arg'] = arg
        I.hooks['pybind11::class_::def'] = I.hooks['pybind11::module_::def'] = define
        I.hooks['pybind11::enum_::value'] = value
        I.hooks['pybind11::init'] = init
        I.hooks['pybind11::arg::operator='] = default
        I.hooks['pybind11::detail::object_api::doc'] = lambda I, S, fr, e, o, args: I.alloc(S, 'opaque', 'doc', None)
        I.hooks['pybind11::detail::accessor::operator='] = self.store
        # dictionaries and strings of Python
        I.ctorhooks['pybind11::dict'] = lambda I, S, fr, e, L, args: self.become(S, L, self.mkdict(S) if not args else args[0])
        I.ctorhooks['pybind11::str'] = lambda I, S, fr, e, L, args: self.become(S, L, I.mkstr(S, self.text(S, args[0]) if args else ''))
        I.hooks['pybind11::str::operator basic_string'] = lambda I, S, fr, e, o, args: I.mkstr(S, self.text(S, o))
        I.hooks['pybind11::detail::object_api::operator[]'] = lambda I, S, fr, e, o, args: self.item(S, o, args[0])
        for n in ('index_error', 'value_error', 'key_error', 'type_error'):
            I.ctorhooks['pybind11::' + n] = lambda I, S, fr, e, L, args: I.alloc(S, 'opaque', 'exception', None)

    def become(self, S, L, src):
        """make the object under construction a copy of src"""
        if not isinstance(L, Loc):
            return src
        a, b = S.w(L.o), S.get(src.o)
        a.kind, a.cls, a.d, a.x = b.kind, b.cls, b.d.copy(), dict(b.x)
        return L

    def where(self, e):
        a = e['a'][0]
        while 'e' in a and 'l' not in a:
            a = a['e']
        return a.get('l', e['l'])

    def mkdict(self, S, items=()):
        vt = next(i for i, t in enumerate(program().tus[self.TU]['types']) if t.get('r') == 'std::basic_string' and not t.get('ref'))
        return self.c.I.alloc(S, 'map', 'pybind11::dict', {k: self.c.I.mkstr(S, str(v)) for k, v in items}, tu=self.TU, vt=vt, kt=None)

    def item(self, S, o, k):
        return ('item', o, self.text(S, k))

    def store(self, I, S, fr, e, o, args):
        o = self.deref(S, o)
        if isinstance(o, tuple) and o[0] == 'item':
            v = args[0]
            v = self.deref(S, v)
            d = o[1]
            d = self.deref(S, d)
            S.w(d.o).d[o[2]] = self.c.I.copy_obj(S, v) if isinstance(v, Loc) else v
        return None

    # ---- calls from Python
    def signature(self, b):
        """-> ([parameter types], return type)"""
        P = program()
        if b.types is None:
            if b.kind == 'init':
                f = b.fn[2]
                if f is None:
                    b.types = (list(b.fn[1]), {'c': 'rec', 'r': b.owner, 's': b.owner})
                else:
                    b.types = ([P.ty(f.tu, p['t']) for p in f.node['p']], {'c': 'rec', 'r': b.owner, 's': b.owner})
            elif isinstance(b.fn, Fn) and b.ref:
                ps = [P.ty(self.TU, p) for p in b.ref['p']]
                if b.ref.get('r') and not b.ref.get('st'):
                    ps = [{'c': 'rec', 'r': b.owner, 's': b.owner, 'ref': True, 'self': True}] + ps
                b.types = (ps, P.ty(self.TU, b.ref['rt']))
            elif getattr(b.fn, 'node', None):
                n = b.fn.node
                b.types = ([P.ty(b.fn.tu, p['t']) for p in n['p']], P.ty(b.fn.tu, n['rt']) if 'rt' in n else {'c': 'other', 's': '?'})
            else:
                raise Unsupported('what %s calls' % b.name)
        return b.types

    def converts(self, t, result=False):
        """can values of this type cross between Python and C++"""
        P = program()
        c = t['c']
        if c in ('int', 'bool', 'float', 'void'):
            return True
        if c == 'enum':
            return (t.get('n') or t.get('r') or t['s']) in self.enums or t['s'] in self.enums
        if c == 'ptr':
            return self.converts(P.ty(self.TU, t['p']))
        if c == 'rec':
            r = t['r']
            if t.get('self') or r in self.classes or t['s'] in self.classes:
                return True
            if r == 'std::shared_ptr':
                x = P.ty(self.TU, t['a'][0]['t'])
                return self.holders.get(x.get('r'), False)
            if r in ('std::basic_string', 'pybind11::dict', 'pybind11::list', 'pybind11::object', 'pybind11::str', 'pybind11::tuple'):
                return True
            if r == 'std::vector':
                return self.converts(P.ty(self.TU, t['a'][0]['t']))
        return False

    def is_a(self, cls, q):
        return cls == q or any(self.is_a(b, q) for b in self.bases.get(cls, ()))

    NO = object()

    def accept(self, t, v):
        """the C++ argument for v, NO if the type does not take it"""
        c, P = self.c, program()
        k = t['c']
        if isinstance(v, bool):
            return v if k in ('bool', 'int') else self.NO
        if isinstance(v, int):
            if k == 'int':
                if t.get('u') and v < 0:
                    return self.NO
                return self.place(t, v)
            return self.place(t, float(v)) if k == 'float' else self.NO
        if isinstance(v, (float, E)):
            return self.place(t, v) if k == 'float' else self.NO
        if isinstance(v, str):
            return c.string(v) if k == 'rec' and t['r'] == 'std::basic_string' else self.NO
        if isinstance(v, list):
            if k == 'rec' and t['r'] == 'std::vector':
                return c.I.alloc(c.S, 'vector', t['s'], list(v), tu=self.TU, et=t['a'][0]['t'])
            return self.NO
        if isinstance(v, dict):
            return self.mkdict(c.S, v.items()) if k == 'rec' and t['r'] == 'pybind11::dict' else self.NO
        if isinstance(v, Value):
            return self.place(t, v.v) if k == 'enum' and v.enum in (t.get('n'), t.get('r'), t['s']) else self.NO
        if v is None:
            if k == 'ptr':
                return NULL
            if k == 'rec' and t['r'] == 'std::shared_ptr':
                return c.sptr(NULL)
            return self.NO
        if isinstance(v, Obj):
            if k == 'ptr':
                x = P.ty(self.TU, t['p'])
                return v.at if self.is_a(v.cls, x.get('r')) or v.cls == x['s'] else self.NO
            if k == 'rec' and t['r'] == 'std::shared_ptr':
                x = P.ty(self.TU, t['a'][0]['t'])
                return c.sptr(v.at) if self.is_a(v.cls, x.get('r')) else self.NO
            if k == 'rec' and (t.get('self') or self.is_a(v.cls, t['r']) or v.cls == t['s']):
                return v.at if t.get('ref') else c.I.copy_obj(c.S, v.at)
        return self.NO

    def place(self, t, v):
        if t.get('ref'):
            L = self.c.I.alloc(self.c.S, 'cell', t['s'], {'v': v})
            return Loc(L.o, 'v')
        return v

    def overloads(self, owner, name):
        return [b for b in self.bound if b.owner == owner and b.name == name]

    def cls(self, name):
        for q, (n, l) in self.classes.items():
            if n == name:
                return q
        raise Refused('no class ' + name)

    def call(self, owner, name, *args):
        """owner is the Python name of a class, '' for a function of the module"""
        q = self.cls(owner) if owner else ''
        bs = self.overloads(q, name)
        if not bs:
            raise Refused('no %s%s' % (owner and owner + '.', name))
        for b in bs:
            ps, rt = self.signature(b)
            if len(args) > len(ps) or len(ps) - len(args) > len(b.defaults):
                continue
            if not all(self.converts(p) for p in ps):
                continue
            a = [self.accept(p, v) for p, v in zip(ps, args)]
            if any(x is self.NO for x in a):
                continue
            for p, d in list(zip(ps, b.defaults[-len(ps):] if b.defaults else []))[len(args):] if b.defaults else ():
                if d[0] != 'default':
                    a = None
                    break
                v = d[2]
                t = self.text(self.c.S, v)
                a.append(self.c.string(t) if p['c'] == 'rec' and p['r'] == 'std::basic_string' else v)
            if a is None:
                continue
            return self.invoke(b, ps, rt, a)
        raise Refused('no overload of %s takes these arguments' % name)

    def method(self, o, name, *args):
        return self.call(self.classes[o.cls][0], name, o, *args)

    def invoke(self, b, ps, rt, a):
        c, P = self.c, program()
        self.last = b
        if b.kind == 'init' and b.fn[2] is None:
            r = P.rec(self.TU, b.owner)
            if b.owner.startswith('Eigen'):
                if not a:
                    return Obj(b.owner, c.vec([]))
                return Obj(b.owner, c.I.copy_obj(c.S, a[0]))
            try:
                L = c.new(self.TU, b.owner, a, pred=lambda tu, m: all(untemplate(P.ty(tu, x)['s']) == untemplate(y['s']) for x, y in zip(m['p'], ps)))
            except Noret as x:
                raise self.ended(x.exits)
            return Obj(b.owner, L)
        fn = b.fn[2] if b.kind == 'init' else b.fn
        this = None
        if isinstance(fn, Fn) and b.ref and b.ref.get('r') and not b.ref.get('st'):
            this, a = a[0], a[1:]
            k = c.S.get(this.o)
            if k.x.get('cn') and b.ref.get('v'):
                x = P.resolve(k.x['tu'], k.x['cn'], b.ref['u'])
                if x:
                    fn = P.find(x[0], x[1]['u'])
        if isinstance(fn, Fn) and fn.node is None:
            raise Unsupported('%s has no body' % b.name)
        if isinstance(fn, Lam):
            f = Fn(fn.tu, fn.node)
            f.lam = fn
            k, v = c.runfn(f, fn.this, a)
        else:
            k, v = c.runfn(fn, this, a)
        if k == 'noret':
            raise self.ended(v)
        if c.exits:
            raise Unsupported('%s fails on some values' % b.name)
        return self.result(rt, v) if b.kind != 'init' else Obj(b.owner, v)

    def ended(self, exits):
        if len(exits) == 1:
            self.c.S = exits[0][1]
        if exits and all(e[0] == 'throw' for e in exits):
            return Refused(', '.join(sorted({str(getattr(e[2], 'type', e[2])) for e in exits})))
        return Dies(', '.join('%s %s' % (e[0], e[2]) for e in exits)[:150])

    def result(self, rt, v):
        c, P = self.c, program()
        k = rt['c']
        if k == 'void':
            return None
        if k == 'rec' and rt['r'] == 'std::shared_ptr':
            x = P.ty(self.TU, rt['a'][0]['t'])
            p = c.S.get(v.o).d['p'] if isinstance(v, Loc) and v.o and c.S.get(v.o).kind == 'sptr' else v
            if not self.converts(x):
                raise Refused('the result has no Python type')
            return Obj(x.get('r'), p) if isinstance(p, Loc) and p.o else None
        if k == 'rec' and rt['r'] == 'std::basic_string':
            return list(c.S.get(v.o).d)
        if k == 'rec' and rt['r'] == 'pybind11::dict':
            return dict(c.S.get(v.o).d)
        if k == 'rec':
            q = rt['s'] if rt['s'] in self.classes else rt['r']
            if q not in self.classes:
                raise Refused('the result has no Python type')
            return Obj(q, v)
        if k == '?' or k == 'other':
            return v
        return self.deref(c.S, v)

    def takes_self(self, b, t):
        P = program()
        if t['c'] == 'ptr':
            t = P.ty(self.TU, t['p'])
        if t['c'] == 'rec' and t['r'] == 'std::shared_ptr':
            t = P.ty(self.TU, t['a'][0]['t'])
        return t['c'] == 'rec' and (t.get('self') or t['s'] == b.owner or self.is_a(b.owner, t.get('r')))

    # ---- shortcuts
    def vec(self, values):
        return self.call('vec', '__init__', [float(x) if isinstance(x, (int, float)) else x for x in values])

    def values(self, o):
        return self.c.mvals(o.at)

    def param(self, nX, nY, inp, out):
        i, o = enum(INT)[inp], enum(OUTT)[out]
        return self.call('parameters', '__init__', nX, nY, Value(INT, i), Value(OUTT, o))


FUNC, DATA, VECH, ARGS = 'sources/python/alta.cpp', 'sources/python/wrapper_data.h', 'sources/python/wrapper_vec.h', 'sources/python/wrapper_args.h'
OFFERED = {'': ['get_function', 'load_function', 'get_data', 'load_data', 'get_fitter', 'data2data', 'data2stats', 'brdf2data', 'norm'],
           'vec': ['__init__', '__add__', '__sub__', '__len__', '__getitem__', '__setitem__', '__str__'],
           'arguments': ['__init__', '__getitem__', 'update'], 'parameters': ['__init__'],
           'data': ['__getitem__', '__setitem__', '__len__', 'size', 'get', 'set', 'value', 'save', 'parametrization'],
           'function': ['__add__', '__mul__', '__rmul__', 'value', 'load', 'save', 'set', 'get'], 'fitter': ['fit_data']}


def offered(R):
    with R.guard('names', TU):
        p = Python()
        R.saw(p.c)
        R.check('import', not p.import_fails, 'loading the module fails', TU, fp='import')
        names = {n for n, l in p.classes.values()} | {n for n, v, l in p.enums.values()}
        for cls in OFFERED:
            if cls and not R.check('class ' + cls, cls in names, 'the module has no class ' + cls, TU, fp=cls):
                continue
            for f in OFFERED[cls]:
                R.check('%s.%s' % (cls or 'module', f), p.overloads(p.cls(cls) if cls else '', f), 'the module has no %s%s' % (cls and cls + '.', f), TU, fp=f)
                R.count('names')
        for b in p.bound:
            label = '%s.%s at %s' % (b.owner or 'module', b.name, b.loc.rsplit(':', 2)[0])
            with R.guard(label, b.loc):
                ps, rt = p.signature(b)
                bad = [t['s'] for t in ps if not p.converts(t)]
                R.check(label + '/arguments', not bad, '%s takes %s, which no Python object converts to' % (b.name, ', '.join(bad)), b.loc, fp=bad)
                R.check(label + '/result', p.converts(rt), '%s returns %s, which has no Python type' % (b.name, rt['s']), b.loc, fp=rt['s'])
                if not b.ref or not b.ref.get('r') or b.ref.get('st') or b.kind == 'init':
                    R.check(label + '/self', b.kind == 'init' or not b.owner or ps and p.takes_self(b, ps[0]), '%s does not take the object it is called on' % b.name, b.loc, fp='self')
                R.count('signatures')
        for q, py, getter, first in ((INT, 'input_parametrization', 'get_name', 0), (OUTT, 'output_parametrization', 'get_name', 1)):
            have = p.enums.get(q)
            if not R.check(py, have and have[0] == py, 'the module has no enumeration ' + py, TU, fp=py):
                continue
            used = {}
            for n, v in sorted(enum(q).items(), key=lambda x: x[1]):
                lib = library_name(q, v)
                lib = lib if n == 'UNKNOWN_INPUT' or n == 'UNKNOWN_OUTPUT' or not lib.startswith('UNKNOWN') else n
                x = have[1].get(lib, [])
                R.count('parametrizations')
                R.check('%s.%s' % (py, lib), len(x) == 1 and x[0][0] == v, '%s.%s %s' % (py, lib, 'stands for %s' % [enumname(q, y[0]) for y in x] if x else 'is not offered'), x[0][1] if x else have[2], fp=lib)
                used[lib] = 1
            extra = sorted(set(have[1]) - set(used))
            R.check(py + '/others', not extra, 'the module offers %s, which the library does not have' % extra, have[2], fp=extra)


_lib = {}


def library_name(q, v):
    """name of a parametrization in files"""
    if (q, v) not in _lib:
        c = Ctx()
        t = c.call('alta::params::get_name', [v], nargs=1, pred=lambda x: q.rsplit('::')[-1] in str(program().ty(x[0], x[1]['p'][0]['t'])))
        k = c.S.get(t.o)
        _lib[q, v] = ''.join(k.d)
    return _lib[q, v]


def refused(R, label, f, what, loc, kinds=None):
    """f() must raise a Python exception"""
    try:
        v = f()
        R.check(label, False, '%s is accepted' % what, loc, fp='accepted')
    except Refused as x:
        R.check(label, kinds is None or any(k in str(x.what) for k in kinds), '%s raises %s' % (what, x.what), loc, fp='kind')
    except Dies as x:
        R.check(label, False, '%s ends the interpreter (%s)' % (what, x), loc, fp='dies')
    R.count('refusals')


INDEX = ('index_error', 'out_of_range')


def same_list(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def vectors(R):
    for n in (0, 1, 2, 3, 5, 8):
        label = 'vec of %d' % n
        with R.guard(label, VECH):
            p = Python()
            c = p.c
            A, B = [var('a%d' % i) for i in range(n)], [var('b%d' % i) for i in range(n)]
            a, b = p.vec(A), p.vec(B)
            R.check(label + '/list', same_list(p.values(a), A), 'vec(list) holds %s' % [show(x)[:20] for x in p.values(a)], VECH, fp='list')
            k = p.call('vec', '__init__', a)
            R.check(label + '/copy', same_list(p.values(k), A) and k.at.o != a.at.o, 'vec(vec) is not a copy', VECH, fp='copy')
            R.check(label + '/len', p.method(a, '__len__') == n, 'len is %s' % p.method(a, '__len__'), VECH, fp='len')
            for i in range(n):
                R.check('%s/item %d' % (label, i), same(p.method(a, '__getitem__', i), A[i]), 'item %d is %s' % (i, show(p.method(a, '__getitem__', i))[:40]), VECH, fp='item')
            for op, f in (('__add__', sym.add), ('__sub__', sym.sub)):
                r = p.method(a, op, b)
                compare(R, c, '%s/%s' % (label, op), p.values(r), [f(x, y) for x, y in zip(A, B)], 'a %s b' % op, VECH)
                R.check('%s/%s/operands' % (label, op), same_list(p.values(a), A) and same_list(p.values(b), B), '%s changes its operands' % op, VECH, fp=op)
                for m in (n - 1, n + 1, n + 3):
                    if m >= 0:
                        refused(R, '%s/%s %d' % (label, op, m), lambda: p.method(a, op, p.vec([0.5] * m)), '%s with a vector of %d numbers' % (op, m), VECH)
            for i in (n, n + 1, n + 7, 2 ** 31 - 1):
                refused(R, '%s/get %d' % (label, i), lambda: p.method(a, '__getitem__', i), 'item %d' % i, VECH, INDEX)
            for i in (n, n + 1, n + 7, -1, -n, -n - 1, 2 ** 31 - 1):
                if i < 0 or i >= n:
                    refused(R, '%s/set %d' % (label, i), lambda: p.method(a, '__setitem__', i, 0.5), 'setting item %d' % i, VECH) if i >= n or n == 0 else negative(R, '%s/set %d' % (label, i), p, a, A, i)
            R.check(label + '/after', same_list(p.values(a), A), 'a refused operation changes the vector', VECH, fp='after')
            for i in range(n):
                v = var('s%d' % i)
                p.method(a, '__setitem__', i, v)
                A[i] = v
                R.check('%s/set %d' % (label, i), same_list(p.values(a), A), 'setting item %d gives %s' % (i, [show(x)[:20] for x in p.values(a)]), VECH, fp='set')
            t = p.method(p.vec(A), '__str__')
            got = shape(t)
            R.check(label + '/str', got == ['['] + sum([[', ', x] if i else [x] for i, x in enumerate(A)], []) + [']'] if n else got == ['[]'], 'the text is %s' % (got,), VECH, fp='str')
            if n:
                a = p.vec(A)
                r = p.call('', 'norm', a)
                q = 0.0
                for x in A:
                    q = sym.add(q, sym.mul(x, x))
                compare(R, c, label + '/norm', [r], [sym.fun('sqrt', q)], 'the norm', VECH)
            events(R, c, label, VECH)
            R.saw(c)
            R.count('vectors')


def negative(R, label, p, a, A, i):
    """a negative index is refused, or counts from the end as in Python"""
    try:
        p.method(a, '__setitem__', i, 0.5)
    except Refused:
        R.check(label, same_list(p.values(a), A), 'a refused operation changes the vector', VECH, fp='after')
        return
    except Dies as x:
        R.check(label, False, 'setting item %d ends the interpreter (%s)' % (i, x), VECH, fp='dies')
        return
    w = list(A)
    if -i <= len(w):
        w[i] = 0.5
        R.check(label, same_list(p.values(a), w), 'setting item %d changes another one' % i, VECH, fp='negative')
        p.method(a, '__setitem__', i + len(w), A[i])
    else:
        R.check(label, False, 'setting item %d is accepted' % i, VECH, fp='accepted')


def shape(t):
    """text atoms merged"""
    out = []
    for x in [y for x in t for y in (x.atoms if isinstance(x, Rich) else [x])]:
        if isinstance(x, Num):
            out.append(x.v)
        elif out and isinstance(out[-1], str) and isinstance(x, str):
            out[-1] += x
        else:
            out.append(x)
    return out


def options(R):
    sets = [{}, {'a': 'b'}, {'param': 'STARK_2D', 'nb-cores': 4, 'cos-plot': ''}, {'x': '1', 'xx': '[1, 2]', 'X': 'y z'}]
    for d in sets:
        label = 'arguments %s' % sorted(d)
        with R.guard(label, ARGS):
            p = Python()
            a = p.call('arguments', '__init__', d)
            w = {k: str(v) for k, v in d.items()}

            def have(extra=()):
                for k in list(w) + ['none', 'A', ''] + list(extra):
                    t = ''.join(p.method(a, '__getitem__', k))
                    R.check('%s/%s' % (label, k), t == w.get(k, ''), 'the option %s is %r' % (k, t), ARGS, fp=k)
                    b = p.c.mcall(a.at, 'is_defined', [p.c.string(k)])
                    R.check('%s/%s/defined' % (label, k), (b in (1, True)) == (k in w), 'the option %s is %sdefined' % (k, '' if b in (1, True) else 'not '), ARGS, fp=k)
            have()
            for k, v in (('new', 'value'), ('a', 'other'), ('x', '')):
                p.method(a, 'update', k, v)
                w[k] = v
            have()
            R.saw(p.c)
            R.count('options')
    with R.guard('arguments()', ARGS):
        p = Python()
        a = p.call('arguments', '__init__')
        p.method(a, 'update', 'k', 'v')
        R.check('arguments()', p.method(a, '__getitem__', 'k') == ['v'], 'update does not set the option', ARGS, fp='update')
        R.saw(p.c)


def parametrizations(R):
    D = DIMS()
    for n in list(D) + ['UNKNOWN_INPUT']:
        for o in enum(OUTT):
            label = 'parameters %s %s' % (n, o)
            with R.guard(label, TU):
                p = Python()
                k = p.param(max(D.get(n, 3), 1), 2, n, o)
                c = p.c
                got = tuple(c.mcall(k.at, x, []) for x in ('dimX', 'dimY', 'input_parametrization', 'output_parametrization'))
                R.check(label, got == (max(D.get(n, 3), 1), 2, enum(INT)[n], enum(OUTT)[o]), 'parameters(%d, 2, %s, %s) is %s' % (D.get(n, 3), n, o, got), TU, fp=label)
                R.saw(c)
                R.count('descriptors')
            if n not in ('CARTESIAN', 'RUSIN_TH_TD'):
                break


def setp(c, f, name):
    n = c.mcall(f, 'nbParameters', [])
    v = [var('%s%d' % (name, i)) for i in range(n)]
    c.mcall(f, 'setParameters', [c.vec(v)])
    return v


LOBES = ['nonlinear_function_blinn', 'nonlinear_function_ward', 'nonlinear_function_beckmann', 'nonlinear_function_lafortune', 'nonlinear_fresnel_schlick']


def outcome(f):
    try:
        return 'ok', f()
    except Refused as x:
        return 'refused', x
    except Dies as x:
        return 'dies', x


def bounded(c, *objs):
    c.I.assumef = bounds.decider(lambda n: (0.1, 1.2))


def functions(R):
    X = [0.6, 0.0, 0.8, 0.0, 0.28, 0.96]
    for name in LOBES + ['nonlinear_function_diffuse', 'rational_function_legendre', 'rational_function_cosine']:
        for nY in (1, 3):
            label = 'get_function %s x%d' % (name, nY)
            with R.guard(label, FUNC):
                p = Python()
                c = p.c
                c.I.env = {}
                bounded(c)
                k = p.param(6, nY, 'CARTESIAN', 'INV_STERADIAN')
                f = p.call('', 'get_function', name, k)
                w = provide(c, next(t for t in sorted(program().plugins()[name]) if any(x[0] == t for x in program().byq['provide_function'])), nY)
                if not R.check(label, f is not None and c.S.get(f.at.o).cls == c.S.get(w.o).cls, 'the function is %s' % (f and c.S.get(f.at.o).cls), FUNC, fp='class'):
                    continue
                g = p.call('', 'get_function', p.call('arguments', '__init__', {'func': name}), k)
                R.check(label + '/arguments', g is not None and c.S.get(g.at.o).cls == c.S.get(w.o).cls, 'with an arguments object the function is %s' % (g and c.S.get(g.at.o).cls), FUNC, fp='args')
                R.count('functions')
                R.saw(c)
                d = lambda f: tuple(dims(c, f))
                R.check(label + '/parametrization', d(f.at) == d(w), 'the function has parametrization %s' % (d(f.at),), FUNC, fp='param')
                if name.startswith('rational'):
                    continue
                v = setp(c, w, 'p')
                setp(c, f.at, 'q')
                before = p.values(p.method(f, 'get'))
                for m in {0, 1, len(v) - 1, len(v) + 1, len(v) + 4} - {len(v), -1}:
                    r = outcome(lambda: p.method(f, 'set', p.vec([0.5] * m)))
                    R.check('%s/set %d' % (label, m), r[0] != 'dies' and same_list(p.values(p.method(f, 'get')), before), 'setting %d parameters instead of %d %s' % (m, len(v), 'ends the interpreter' if r[0] == 'dies' else 'changes the function'), FUNC, fp='set size')
                p.method(f, 'set', p.vec(v))
                got = p.values(p.method(f, 'get'))
                compare(R, c, label + '/get', got, v, 'what get gives after set', FUNC)
                compare(R, c, label + '/value', p.values(p.method(f, 'value', p.vec(X))), c.mvals(c.mcall(w, 'value', [c.vec(X)])), 'the value', FUNC, small)
                p.method(f, 'save', 'a.func')
                c.mcall(w, 'save', [c.string('b.func'), c.new(CORE, 'alta::arguments')])
                sametext(R, c, label + '/save', 'a.func', 'b.func')
                if name != 'nonlinear_fresnel_schlick':
                    for e in ('matlab', 'C++', 'shader'):
                        p.method(f, 'save', 'a.' + e, p.call('arguments', '__init__', {'export': e}))
                        c.mcall(w, 'save', [c.string('b.' + e), cmd(c, '--export ' + e)])
                        sametext(R, c, label + '/export ' + e, 'a.' + e, 'b.' + e)
                events(R, c, label, FUNC)
    with R.guard('get_function/unknown', FUNC):
        p = Python()
        p.c.I.env = {}
        r = outcome(lambda: p.call('', 'get_function', 'no_such_function', p.param(6, 1, 'CARTESIAN', 'INV_STERADIAN')))
        R.check('get_function/unknown', r[0] == 'refused' or r == ('ok', None), 'an unknown function %s' % ('ends the interpreter' if r[0] == 'dies' else 'gives an object'), FUNC, fp='unknown')
        R.saw(p.c)
    with R.guard('get_function/default', FUNC):
        p = Python()
        p.c.I.env = {}
        f = p.call('', 'get_function')
        R.check('get_function/default', f is not None and p.c.S.get(f.at.o).cls == 'diffuse_function', 'the default function is %s' % (f and p.c.S.get(f.at.o).cls), FUNC, fp='default')


def small(*xs):
    return rangevars(0.15, 1.1, *xs)


def sametext(R, c, label, a, b):
    x, y = written(c, a), written(c, b)
    if not R.check(label, x is not None and y is not None, 'nothing is written', FUNC, fp='none'):
        return
    x, y = [z for z in shape(x)], [z for z in shape(y)]
    ok = len(x) == len(y) and all((u == v if isinstance(u, str) or isinstance(v, str) else same(u, v) if not hasattr(u, 'size') else u == v) for u, v in zip(x, y))
    R.check(label, ok, 'the file is not the one the library writes', FUNC, fp='text')
    R.count('files')


def combined(R):
    X = [0.6, 0.0, 0.8, 0.0, 0.28, 0.96]
    at = lambda c, f: through(X, 'CARTESIAN', enumname(INT, dims(c, f)[2]))
    for n1, n2 in (('nonlinear_function_blinn', 'nonlinear_function_ward'), ('nonlinear_function_ward', 'nonlinear_function_blinn'), ('nonlinear_function_diffuse', 'nonlinear_function_beckmann'), ('nonlinear_function_blinn', 'nonlinear_fresnel_schlick'), ('nonlinear_function_beckmann', 'nonlinear_function_beckmann')):
        for nY in (1, 3):
            for op in ('__add__', '__mul__', '__rmul__'):
                label = '%s %s %s x%d' % (n1, op, n2, nY)
                with R.guard(label, FUNC):
                    p = Python()
                    c = p.c
                    c.I.env = {}
                    bounded(c)
                    k = p.param(6, nY, 'CARTESIAN', 'INV_STERADIAN')
                    f, g = p.call('', 'get_function', n1, k), p.call('', 'get_function', n2, k)
                    a, b = setp(c, f.at, 'a'), setp(c, g.at, 'b')
                    if n1.endswith('diffuse'):
                        a = []
                    y1, y2 = [c.mvals(c.mcall(x.at, 'value', [c.vec(at(c, x.at))])) for x in (f, g)]
                    h = p.method(f, op, g)
                    if not R.check(label, h is not None, 'the result is None', FUNC, fp='none'):
                        continue
                    R.saw(c)
                    R.count('combinations')
                    ab = a + b
                    got = p.values(p.method(h, 'get'))
                    if op == '__rmul__' and not same_list(got, ab):
                        ab = b + a
                    compare(R, c, label + '/get', got, ab, 'the vector of parameters', FUNC)
                    compare(R, c, label + '/value', p.values(p.method(h, 'value', p.vec(at(c, h.at)))), [(sym.add if op == '__add__' else sym.mul)(u, v) for u, v in zip(y1, y2)], 'the value', FUNC, small)
                    new = [var('n%d' % i) for i in range(len(ab))]
                    p.method(h, 'set', p.vec(new))
                    compare(R, c, label + '/set', p.values(p.method(h, 'get')), new, 'the vector of parameters after set', FUNC)
                    cut = len(a) if ab[:len(a)] == a else len(b)
                    first, second = (f, g) if ab[:len(a)] == a else (g, f)
                    compare(R, c, label + '/first part', p.values(p.method(first, 'get')), new[:cut], 'the parameters of the first part', FUNC)
                    compare(R, c, label + '/second part', p.values(p.method(second, 'get')), new[cut:], 'the parameters of the second part', FUNC)
                    events(R, c, label, FUNC)
    for n1, n2 in (('nonlinear_function_blinn', 'rational_function_legendre'), ('rational_function_legendre', 'nonlinear_function_blinn'), ('nonlinear_function_blinn', None), ('rational_function_cosine', 'rational_function_cosine')):
        for op in ('__add__', '__mul__', '__rmul__'):
            label = '%s %s %s' % (n1, op, n2)
            with R.guard(label, FUNC):
                p = Python()
                p.c.I.env = {}
                k = p.param(6, 1, 'CARTESIAN', 'INV_STERADIAN')
                f, g = [n and p.call('', 'get_function', n, k) for n in (n1, n2)]
                r = outcome(lambda: p.method(f, op, g))
                R.check(label, r[0] == 'refused' or r == ('ok', None), 'a function that is not non-linear %s' % ('ends the interpreter: %s' % r[1] if r[0] == 'dies' else 'is accepted'), FUNC, fp='kind')
                R.count('refusals')
                events(R, p.c, label, FUNC)


def files(R):
    X = [0.6, 0.0, 0.8, 0.0, 0.28, 0.96]
    for line in ('--func nonlinear_function_blinn', '--func nonlinear_function_ward', '--func [nonlinear_function_diffuse, nonlinear_function_beckmann]', '--func nonlinear_function_blinn --fresnel nonlinear_fresnel_schlick'):
        for nY in (1, 3):
            label = 'load %s x%d' % (line, nY)
            with R.guard(label, FUNC):
                text = function_file(line, 6, nY)
                p = Python()
                c = p.c
                c.I.env = {}
                c.I.files['f.func'] = list(text)
                c.I.file_ok = lambda c, n: n != 'missing.func'
                w = c.call('alta::plugins_manager::load_function', [c.string('f.func')], nargs=1)
                want = c.mvals(c.mcall(w, 'value', [c.vec(X)])) if not isinstance(w, Loc) or c.S.get(w.o).kind != 'sptr' else c.mvals(c.mcall(c.S.get(w.o).d['p'], 'value', [c.vec(X)]))
                for args in ((), (p.call('arguments', '__init__', {}),)):
                    f = p.call('', 'load_function', 'f.func', *args)
                    if R.check('%s/load_function %d' % (label, len(args)), f is not None, 'load_function gives None', FUNC, fp='none'):
                        compare(R, c, '%s/load_function %d/value' % (label, len(args)), p.values(p.method(f, 'value', p.vec(X))), want, 'the value of the loaded function', FUNC)
                    R.count('loads')
                    if '[' in line or 'fresnel' in line:
                        continue
                    g = p.call('', 'get_function', line.split()[-1], p.param(6, nY, 'CARTESIAN', 'INV_STERADIAN'))
                    setp(c, g.at, 'q')
                    p.method(g, 'load', 'f.func', *args)
                    compare(R, c, '%s/load %d/value' % (label, len(args)), p.values(p.method(g, 'value', p.vec(X))), want, 'the value of the loaded function', FUNC)
                    m = p.values(p.method(g, 'get'))
                    r = outcome(lambda: p.method(g, 'load', 'missing.func', *args))
                    R.check('%s/load %d/missing' % (label, len(args)), r[0] != 'dies' and same_list(p.values(p.method(g, 'get')), m), 'loading a file that does not exist %s' % ('ends the interpreter' if r[0] == 'dies' else 'changes the function'), FUNC, fp='missing')
                events(R, c, label, FUNC)
                R.saw(c)


TABLES = [('CARTESIAN', 6), ('RUSIN_TH_TD', 2), ('SPHERICAL_TL_PL_TV_PV', 4)]


def table(c, p, inp, nY, kind, name='v', n=4):
    """a file of samples with symbolic values -> its text, rows, lower and upper bounds"""
    xs = c22.sample_rows(inp, nY, n)[0]
    vals = [[var('%s%d_%d' % (name, i, j)) for j in range(nY)] for i in range(len(xs))]
    ci = [[var('%s%s%d_%d' % (name, 'lu'[s], i, j)) for j in range(nY) for s in (0, 1)] if kind == 2 else [] for i in range(len(xs))]
    return [header(len(xs[0]), nY, inp, 'INV_STERADIAN', '#VS %s\n' % ' '.join([str(kind)] * nY) if kind else '')] + lines([a + b + d for a, b, d in zip(xs, vals, ci)]), xs, vals, ci


def datasets(R):
    for inp, nX in TABLES:
        for nY in (1, 3):
            for kind in (0, 2):
                label = 'data %s x%d%s' % (inp, nY, ' with intervals' if kind else '')
                with R.guard(label, DATA):
                    p = Python()
                    c = p.c
                    text, xs, vals, ci = table(c, p, inp, nY, kind)
                    c.I.files['d.dat'] = list(text)
                    d = p.call('', 'load_data', 'vertical_segment', 'd.dat')
                    if not R.check(label, d is not None, 'load_data gives None', DATA, fp='none'):
                        continue
                    access(R, p, d, label, [a + b for a, b in zip(xs, vals)], nX, nY, inp)
                    p.method(d, 'save', 'a.dat')
                    c.mcall(d.at, 'save', [c.string('b.dat')])
                    sametext(R, c, label + '/save', 'a.dat', 'b.dat')
                    events(R, c, label, DATA)
                    R.saw(c)
    for inp, sz in (('RUSIN_TH_TD', [3, 2]), ('COS_TH', [4]), ('STARK_3D', [2, 2, 2])):
        for nY in (1, 3):
            label = 'grid %s x%d' % (inp, nY)
            with R.guard(label, DATA):
                p = Python()
                c = p.c
                c.I.env = {}
                c.I.files['g.dat'] = list(grid_text(inp, nY, 'INV_STERADIAN', sz, 'g'))
                d = p.call('', 'load_data', 'data_grid', 'g.dat')
                if not R.check(label, d is not None, 'load_data gives None', DATA, fp='none'):
                    continue
                w = load(c, c.I.files['g.dat'], '', 'data_grid', 'g2.dat')
                access(R, p, d, label, rows_of(c, w), DIMS()[inp], nY, inp)
                w = load(c, c.I.files['g.dat'], '', 'data_grid', 'g2.dat')
                d = p.call('', 'load_data', 'data_grid', 'g.dat')
                for x in ([0.3] * DIMS()[inp], [0.11 * (i + 1) for i in range(DIMS()[inp])]):
                    compare(R, c, label + '/value', p.values(p.method(d, 'value', p.vec(x))), c.mvals(c.mcall(w, 'value', [c.vec(x)])), 'the value at %s' % x, DATA)
                events(R, c, label, DATA)
                R.saw(c)
    for n in (1, 4):
        for nY in (1, 3):
            label = 'get_data of %d x%d' % (n, nY)
            with R.guard(label, DATA):
                p = Python()
                c = p.c
                c.I.env = {}
                k = p.param(2, nY, 'RUSIN_TH_TD', 'RGB_COLOR')
                for args in ((), (p.call('arguments', '__init__', {'grid-size': '[3,2]'}),)):
                    for t in ('vertical_segment', 'data_grid'):
                        if t == 'data_grid' and not args:
                            continue
                        d = p.call('', 'get_data', t, n, k, *args)
                        l = '%s/%s %d' % (label, t, len(args))
                        if R.check(l, d is not None, 'get_data gives None', DATA, fp='none'):
                            want = n if t != 'data_grid' else 6
                            R.check(l + '/size', p.method(d, 'size') == want, 'the data set has %s samples instead of %d' % (p.method(d, 'size'), want), DATA, fp='size')
                            R.check(l + '/parametrization', describe(c, d.at) == (2, nY, enum(INT)['RUSIN_TH_TD'], enum(OUTT)['RGB_COLOR']), 'the data set is described as %s' % (describe(c, d.at),), DATA, fp='param')
                        R.count('data sets')
                R.saw(c)


def access(R, p, d, label, rows, nX, nY, inp):
    c = p.c
    n = len(rows)
    R.count('data sets')
    R.check(label + '/len', p.method(d, '__len__') == n and p.method(d, 'size') == n, 'the data set has %s samples instead of %d' % (p.method(d, '__len__'), n), DATA, fp='len')
    k = p.method(d, 'parametrization')
    got = tuple(c.mcall(k.at, x, []) for x in ('dimX', 'dimY', 'input_parametrization'))
    R.check(label + '/parametrization', got == (nX, nY, enum(INT)[inp]), 'the parametrization is %s' % (got,), DATA, fp='param')
    state = lambda: [row(c, d.at, i) for i in range(n)]
    for get, set_ in (('__getitem__', '__setitem__'), ('get', 'set')):
        for i in range(n):
            compare(R, c, '%s/%s %d' % (label, get, i), p.values(p.method(d, get, i)), rows[i], 'sample %d' % i, DATA)
        for i in (n, n + 1, n + 100, -1, -n - 1):
            if i < 0:
                r = outcome(lambda: p.values(p.method(d, get, i)))
                ok = r[0] == 'refused' or r[0] == 'ok' and -i <= n and same_list(r[1], rows[i])
                R.check('%s/%s %d' % (label, get, i), ok, 'sample %d %s' % (i, 'ends the interpreter' if r[0] == 'dies' else 'is accepted'), DATA, fp='negative')
            else:
                refused(R, '%s/%s %d' % (label, get, i), lambda: p.method(d, get, i), 'sample %d of %d' % (i, n), DATA, INDEX)
        for i in (n, n + 100, -n - 1):
            refused(R, '%s/%s %d' % (label, set_, i), lambda: p.method(d, set_, i, p.vec(rows[0])), 'setting sample %d of %d' % (i, n), DATA)
        for m in (0, nX, nX + nY - 1):
            refused(R, '%s/%s size %d' % (label, set_, m), lambda: p.method(d, set_, 0, p.vec([0.5] * m)), 'a sample of %d numbers' % m, DATA)
        now = state()
        R.check('%s/%s/refused' % (label, set_), len(now) == n and all(same_list(a, b) for a, b in zip(now, rows)), 'a refused operation changes the data set', DATA, fp='after')
        for i in range(n):
            v = rows[i][:nX] + [var('%s%d_%d' % (set_.strip('_'), i, j)) for j in range(nY)]
            p.method(d, set_, i, p.vec(v))
            rows[i] = v
            now = state()
            R.check('%s/%s %d' % (label, set_, i), all(same_list(a, b) for a, b in zip(now, rows)), 'setting sample %d does not give the new sample and only that' % i, DATA, fp='set')


def fits(R):
    for with_args in (False, True):
        for ok in (True, False):
            label = 'fit_data%s/%s' % (' with arguments' if with_args else '', ok)
            with R.guard(label, FUNC):
                p = Python()
                c = p.c
                c.I.env = {}
                calls = []
                k = p.param(6, 1, 'CARTESIAN', 'INV_STERADIAN')
                f = p.call('', 'get_function', 'nonlinear_function_blinn', k)
                d = p.call('', 'get_data', 'vertical_segment', 3, k)
                t = p.call('', 'get_fitter', 'nonlinear_fitter_eigen')
                if not R.check(label + '/objects', f and d and t, 'there is no function, data set or fitter', FUNC, fp='objects'):
                    continue
                a = p.call('arguments', '__init__', {'some': 'value'})

                def target(L):
                    for _ in range(4):
                        if isinstance(L, Loc) and L.o and c.S.get(L.o).kind == 'sptr':
                            L = c.S.get(L.o).d['p']
                        elif isinstance(L, Loc) and L.k is not None:
                            L = c.I.load(c.S, L)
                    return L

                def some(L):
                    return ''.join(c.S.get(c.mcall(L, 'operator[]', [c.string('some')]).o).d)

                def hook(what):
                    def h(I, S, fr, e, o, args):
                        calls.append((what, target(o), [target(x) for x in args[:2]] if what == 'fit' else [], some(args[-1])))
                        return ok if what == 'fit' else None
                    return h
                for q in set(q for q in program().byq if q.endswith('::fit_data')) | {'alta::fitter::fit_data'}:
                    c.I.hooks[q] = hook('fit')
                for q in set(q for q in program().byq if q.endswith('::set_parameters')) | {'alta::fitter::set_parameters'}:
                    c.I.hooks[q] = hook('set')
                r = p.method(t, 'fit_data', d, f, *([a] if with_args else []))
                fit = [x for x in calls if x[0] == 'fit']
                R.check(label, len(fit) == 1 and fit[0][1].o == t.at.o and [x.o for x in fit[0][2]] == [d.at.o, f.at.o], 'the fitter is not run once on the data set and the function', FUNC, fp='run')
                R.check(label + '/result', bool(r) == ok and not isinstance(r, E), 'fit_data gives %s when the fitter reports %s' % (r, ok), FUNC, fp='result')
                if with_args:
                    R.check(label + '/arguments', [x[0] for x in calls] == ['set', 'fit'] and all(x[3] == 'value' for x in calls), 'the fitter is not set up and run with the arguments', FUNC, fp='arguments')
                R.saw(c)
                R.count('fits')


def conversions(R):
    D = DIMS()
    pairs = [('CARTESIAN', 'SPHERICAL_TL_PL_TV_PV'), ('CARTESIAN', 'RUSIN_TH_PH_TD_PD'), ('SPHERICAL_TL_PL_TV_PV', 'CARTESIAN'), ('RUSIN_TH_PH_TD_PD', 'STEREOGRAPHIC'), ('CARTESIAN', 'RUSIN_TH_TD'), ('RUSIN_TH_TD', 'COS_TH_TD'), ('CARTESIAN', 'CARTESIAN'), ('STEREOGRAPHIC', 'ISOTROPIC_TV_TL_DPHI')]
    for src, dst in pairs:
        for n1, n2 in ((1, 1), (3, 3), (3, 1), (1, 3)):
            for kind in (0, 2):
                for same_out in (('INV_STERADIAN', 'INV_STERADIAN'), ('RGB_COLOR', 'RGB_COLOR')):
                    if same_out[0] != 'INV_STERADIAN' and (n1, n2) != (3, 3):
                        continue
                    if n1 != n2 and src != 'CARTESIAN':
                        continue
                    label = 'data2data %s x%d to %s x%d%s %s' % (src, n1, dst, n2, ' with intervals' if kind else '', same_out[0])
                    with R.guard(label, FUNC):
                        p = Python()
                        c = p.c
                        bounded(c)
                        text, xs, vals, ci = table(c, p, src, n1, kind)
                        text[0] = text[0].replace('INV_STERADIAN', same_out[0])
                        c.I.files['d.dat'] = list(text)
                        d = p.call('', 'load_data', 'vertical_segment', 'd.dat')
                        before = rows_of(c, d.at)
                        k = p.param(D[dst], n2, dst, same_out[1])
                        oe = enum(OUTT)

                        def out(v):
                            o = c.cells([UNDEF] * n2)
                            c.call('alta::params::convert', [c.cells(list(v)), oe[same_out[0]], n1, oe[same_out[1]], n2, o], nargs=6)
                            return list(c.S.get(o.o).d)
                        r0 = outcome(lambda: [out(v) for v in vals])
                        try:
                            want = [out(v) for v in vals]
                        except Noret:
                            continue
                        bnd = [[out([w for w in interval2(c, d.at, i)[s]]) for i in range(len(xs))] for s in (0, 1)] if kind else None
                        r = p.call('', 'data2data', d, k)
                        if not R.check(label, r is not None, 'data2data gives None', FUNC, fp='none'):
                            continue
                        R.saw(c)
                        R.count('conversions')
                        R.check(label + '/descriptor', describe(c, r.at) == (D[dst], n2, enum(INT)[dst], oe[same_out[1]]), 'the result is described as %s' % (describe(c, r.at),), FUNC, fp='descriptor')
                        got = rows_of(c, r.at)
                        if not R.check(label + '/size', len(got) == len(xs), 'the result has %d samples instead of %d' % (len(got), len(xs)), FUNC, fp='size'):
                            continue
                        for i, g in enumerate(got):
                            y = through(xs[i], src, dst)
                            bad = [j for j in range(D[dst]) if isinstance(g[j], E) or g[j] is UNDEF or abs(g[j] - y[j]) > 1e-9 * max(1, abs(y[j]))]
                            R.check('%s/sample %d/configuration' % (label, i), not bad, 'sample %d is at %s instead of %s' % (i, [show(v)[:20] for v in g[:D[dst]]], y), FUNC, fp=bad)
                            compare(R, c, '%s/sample %d/value' % (label, i), g[D[dst]:], want[i], 'the value of sample %d' % i, FUNC)
                            if kind:
                                lo, hi = interval2(c, r.at, i)
                                compare(R, c, '%s/sample %d/interval' % (label, i), lo + hi, bnd[0][i] + bnd[1][i], 'the interval of sample %d' % i, FUNC)
                        R.check(label + '/input', all(same_list(a, b) for a, b in zip(rows_of(c, d.at), before)), 'data2data changes its input', FUNC, fp='input')
                        events(R, c, label, FUNC)


def evaluations(R):
    for name in ('nonlinear_function_blinn', 'nonlinear_function_ward', 'nonlinear_function_lafortune'):
        for inp, nX in TABLES + [('ISOTROPIC_TV_TL_DPHI', 3)]:
            for nY in (1, 3):
                label = 'brdf2data %s at %s x%d' % (name, inp, nY)
                with R.guard(label, FUNC):
                    p = Python()
                    c = p.c
                    c.I.env = {}
                    bounded(c)
                    f = p.call('', 'get_function', name, p.param(6, nY, 'CARTESIAN', 'INV_STERADIAN'))
                    setp(c, f.at, 'p')
                    text, xs, vals, ci = table(c, p, inp, nY, 0)
                    c.I.files['d.dat'] = list(text)
                    d = p.call('', 'load_data', 'vertical_segment', 'd.dat')
                    fi = dims(c, f.at)[2]
                    want = [c.mvals(c.mcall(f.at, 'value', [c.vec(through(x, inp, enumname(INT, fi)))])) for x in xs]
                    p.call('', 'brdf2data', f, d)
                    R.saw(c)
                    for i, g in enumerate(rows_of(c, d.at)):
                        compare(R, c, '%s/sample %d' % (label, i), g, xs[i] + want[i], 'sample %d' % i, FUNC, small)
                        R.count('evaluations')
                    events(R, c, label, FUNC)
    for n1, n2 in ((1, 3), (3, 1)):
        label = 'brdf2data x%d on x%d' % (n1, n2)
        with R.guard(label, FUNC):
            p = Python()
            c = p.c
            c.I.env = {}
            bounded(c)
            f = p.call('', 'get_function', 'nonlinear_function_blinn', p.param(6, n1, 'CARTESIAN', 'INV_STERADIAN'))
            setp(c, f.at, 'p')
            text, xs, vals, ci = table(c, p, 'CARTESIAN', n2, 0)
            c.I.files['d.dat'] = list(text)
            d = p.call('', 'load_data', 'vertical_segment', 'd.dat')
            r = outcome(lambda: p.call('', 'brdf2data', f, d))
            ev = [x for x in c.I.events if x[0] in ('oob', 'shape', 'uninit')]
            R.check(label, r[0] != 'dies' and not ev, 'a function with %d outputs on data with %d: %s' % (n1, n2, ev[0][1] if ev else r[1]), ev[0][2] if ev else FUNC, fp='outputs')
            if n1 < n2:
                R.check(label + '/after', all(same_list(a, x + v) for a, x, v in zip(rows_of(c, d.at), xs, vals)), 'the data set is changed', FUNC, fp='after')


def distances(R):
    for src, (dst, sz) in (('RUSIN_TH_TD', ('RUSIN_TH_TD', [3, 2])), ('CARTESIAN', ('RUSIN_TH_TD', [2, 3])), ('CARTESIAN', ('STARK_3D', [2, 2, 2]))):
        for nY in (1, 3):
            label = 'data2stats %s on %s x%d' % (src, dst, nY)
            with R.guard(label, FUNC):
                p = Python()
                c = p.c
                c.I.env = {}
                g = grid_text(dst, nY, 'INV_STERADIAN', sz, 'g')
                text, xs, vals, ci = table(c, p, src, nY, 0)
                c.I.files.update({'g.dat': list(g), 'd.dat': list(text)})
                a, b = p.call('', 'load_data', 'data_grid', 'g.dat'), p.call('', 'load_data', 'vertical_segment', 'd.dat')
                r = p.call('', 'data2stats', a, b)
                R.saw(c)
                have = c22.at_grid(g, dst, src, xs)
                want = c22.metrics([[sym.sub(u, v) for u, v in zip(s, t)] for s, t in zip(have, vals)])
                for k in want:
                    h = next((v for n, v in r.items() if ''.join(filter(str.isalnum, n)).upper() == k), None)
                    if R.check('%s/%s' % (label, k), h is not None, 'data2stats gives no %s' % k, FUNC, fp=k):
                        c22.numbers(R, '%s/%s' % (label, k), c.mvals(h), want[k], k, FUNC)
                events(R, c, label, FUNC)


def run(R):
    R.rule('the function that fills the Python module is interpreted and gives the table of Python names, overloads and enumerations; every type in a signature must convert; then the callables found under the documented names are interpreted, with overloads chosen '
           'as pybind11 chooses them, on vectors, options, functions, data sets and fitters with symbolic contents: results equal those of the library on the same objects; out-of-range indices and operands of other sizes raise an exception and leave the object as it was')
    for k, n in (('names', 34), ('signatures', 38), ('parametrizations', 30), ('vectors', 5), ('refusals', 200), ('functions', 12), ('combinations', 25), ('loads', 14), ('data sets', 20), ('fits', 4), ('conversions', 30), ('evaluations', 60), ('distances', 60), ('options', 4), ('descriptors', 30)):
        R.floor(k, n)
    offered(R)
    vectors(R)
    options(R)
    parametrizations(R)
    functions(R)
    combined(R)
    files(R)
    datasets(R)
    fits(R)
    conversions(R)
    evaluations(R)
    distances(R)
