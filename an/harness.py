"""Helpers to analyse alta functions on abstract arguments."""
import facts
from facts import AnalysisError
import interp, libmodel, sym
from interp import Interp, State, Loc, NULL, UNDEF, Fn, Unsupported, Dead, Gated, Cont, Num
from sym import E, mk, var

_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = interp.Program(facts.load())
    return _prog


class Ctx:
    """One abstract machine."""

    def __init__(self, P=None):
        self.P = P or program()
        self.I = Interp(self.P)
        self.I.files = {}
        self.I.opened = []
        self.S = State()
        self.exits = []

    # -- values
    def vec(self, vals, cls='Eigen::Matrix<double, -1, 1>'):
        vals = list(vals)
        return self.I.mkmat(self.S, vals, len(vals), 1, cls)

    def cells(self, vals, cls='double', heap=None):
        L = self.I.alloc(self.S, 'arr', cls, list(vals))
        return Loc(L.o, 0)

    def string(self, s):
        return self.I.mkstr(self.S, s)

    def sptr(self, L):
        return self.I.alloc(self.S, 'sptr', 'std::shared_ptr', {'p': L})

    def val(self, L):
        return self.I.load(self.S, L) if isinstance(L, (Loc, Gated)) else L

    def mvals(self, L):
        return self.I.matvals(self.S, L)

    def ostream(self):
        return self.I.alloc(self.S, 'ostr', 'std::basic_ostringstream', [], name='test', prec=6, open=True, fail=False)

    def istream(self, atoms):
        return self.I.alloc(self.S, 'istr', 'std::basic_istringstream', list(atoms), pos=(0, 0), fail=False, eof=False)

    def text(self, L):
        return list(self.S.get(L.o).d)

    # -- functions
    def findfn(self, q, nargs=None, pred=None):
        c = [x for x in self.P.byq.get(q, []) if (nargs is None or len(x[1]['p']) == nargs) and (pred is None or pred(x))]
        if not c:
            raise AnalysisError('no function %s with %s parameters' % (q, nargs))
        return Fn(*c[0])

    def runfn(self, fn, this, args):
        """-> ('ret', value) | ('noret', exits)"""
        r = self.I.run(fn, this, args, self.S)
        if r[0] == 'noret':
            self.exits = r[1]
            return 'noret', r[1]
        self.exits = r[2]
        return 'ret', r[1]

    def call(self, q, args, nargs=None, pred=None, this=None):
        fn = self.findfn(q, len(args) if nargs is None else nargs, pred)
        k, v = self.runfn(fn, this, args)
        if k == 'noret':
            raise Noret(q, v)
        return v

    def method(self, cls, name, nargs, tu=None, pred=None):
        """(tu, fnode) of the most derived definition of a method of class cls"""
        r = self.P.rec(tu, cls) if tu else self.P.rec(next(iter(self.P.tus)), cls)
        if r is None:
            raise AnalysisError('no class ' + cls)
        return self._method(r, name, nargs, pred)

    def _method(self, r, name, nargs, pred=None):
        tu, rec = r
        for m in rec['m']:
            if m['n'] == name and (nargs is None or len(m.get('p', [])) == nargs) and (pred is None or pred(tu, m)):
                return tu, m
        for b in rec['b']:
            if 'n' in b:
                rr = self.P.rec(tu, b['n'])
                if rr:
                    x = self._method(rr, name, nargs, pred)
                    if x:
                        return x
        return None

    def mcall(self, obj, name, args, pred=None, soft=False):
        c = self.S.get(obj.o)
        x = self._method(self.P.rec(c.x['tu'], c.x['cn']), name, len(args), pred)
        if x is None:
            raise AnalysisError('class %s has no method %s/%d' % (c.x['cn'], name, len(args)))
        tu, m = x
        # dispatch
        m2 = self.P.resolve(c.x['tu'], c.x['cn'], m['u'])
        if m2:
            tu, m = m2
        fn = self.P.find(tu, m['u'])
        if fn is None:
            raise AnalysisError('%s::%s has no body' % (c.x['cn'], name))
        k, v = self.runfn(fn, obj, args)
        if k == 'noret':
            raise Noret(name, v)
        return v

    def new(self, tu, cls, args=(), pred=None):
        t = {'c': 'rec', 'r': cls, 's': cls, 'a': []}
        L = self.I.new_rec(self.S, tu, t)
        r = self.P.rec(tu, cls)
        if r is None:
            raise AnalysisError('no class ' + cls)
        for m in r[1]['m']:
            if m.get('ctor') and not m.get('copy') and len(m.get('p', [])) == len(args) and (pred is None or pred(r[0], m)):
                fn = self.P.find(r[0], m['u'])
                if fn is None or fn.node.get('def') or fn.node.get('impl'):
                    continue
                k, v = self.runfn(fn, L, list(args))
                if k == 'noret':
                    raise Noret(cls, v)
                return L
        if not args:
            self.I.default_fields(self.S, L)
            return L
        raise AnalysisError('no constructor of %s with %d parameters' % (cls, len(args)))

    def field(self, obj, key):
        return self.S.get(obj.o).d[key]


class Noret(Exception):
    def __init__(self, q, exits):
        Exception.__init__(self, '%s does not return' % q)
        self.exits = exits


def _argvec(c, tu, ti, n):
    t = dict(c.P.ty(tu, ti))
    t.pop('ref', None)
    L = c.I.new_rec(c.S, tu, t)
    return L


def mkcompound(c, fs, fixed=None, core='sources/core/function.cpp'):
    """alta::compound_function over already built functions"""
    r = c.P.rec(core, 'alta::compound_function')
    m = [m for m in r[1]['m'] if m.get('ctor') and len(m['p']) == 2 and not m.get('copy')][0]
    a = _argvec(c, r[0], m['p'][0], len(fs))
    b = _argvec(c, r[0], m['p'][1], len(fs))
    c.S.w(a.o).d = [c.sptr(f) for f in fs]
    args = []
    for i in range(len(fs)):
        x = c.new(core, 'alta::arguments')
        if fixed and fixed[i]:
            c.mcall(x, 'update', [c.string('fixed'), c.string('')])
        args.append(x)
    c.S.w(b.o).d = args
    return c.new(core, 'alta::compound_function', [a, b])


def mkproduct(c, f, g, fixed=(0, 0), core='sources/core/function.cpp'):
    return c.new(core, 'alta::product_function', [c.sptr(f), c.sptr(g), bool(fixed[0]), bool(fixed[1])], pred=lambda tu, m: len(m['p']) == 4)


CORETU = 'sources/core/function.cpp'


def cmd(c, text):
    """alta::arguments from a command line, through alta's own parser"""
    return c.call('alta::arguments::create_arguments', [c.string(text)], nargs=1)


def getfn(c, args, params):
    """plugins_manager::get_function(arguments, parameters)"""
    return c.call('alta::plugins_manager::get_function', [args, params], nargs=2, pred=lambda x: 'arguments' in str(c.P.ty(x[0], x[1]['p'][0]['t'])))


def written(c, path):
    """content of a file as the analysed code left it, None when it never opened it"""
    out = None
    for o in sorted(c.S.mem):
        k = c.S.mem[o]
        if k.kind == 'ostr' and k.x.get('path') == path:
            out = k.d
    return out


def mkdata(c, nX, nY, rows, inp, out, core='sources/core/vertical_segment.cpp'):
    """alta::vertical_segment with the given rows (lists of nX + nY values)"""
    p = c.new(CORETU, 'alta::parameters', [nX, nY, inp, out])
    d = c.new(core, 'alta::vertical_segment', [p, len(rows)])
    for i, r in enumerate(rows):
        c.mcall(d, 'set', [i, c.vec(r)])
    return d
