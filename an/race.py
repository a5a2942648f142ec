"""Accesses of the iterations of OpenMP loops to the objects that outlive them.

Within a parallel region the cells of every object made before it are kept in
containers that note who reads and writes them: two iterations that touch one
cell, at least one of them writing, must do so in critical sections of one
name.  (Standard streams synchronise themselves.)"""
import interp

LOG = None          # the region being followed
EXEMPT = ('sink', 'lit')


def _note(c, k, w):
    L = LOG
    if L is not None and not L.off:
        L.note(c, k, w)


class LList(list):
    __slots__ = ('o',)

    def copy(self):
        r = LList(list.__iter__(self))
        r.o = self.o
        return r

    def _keys(self, i):
        return range(*i.indices(list.__len__(self))) if isinstance(i, slice) else (i % max(list.__len__(self), 1),) if isinstance(i, int) else ('*',)

    def __getitem__(self, i):
        for k in self._keys(i):
            _note(self.o, k, False)
        r = list.__getitem__(self, i)
        return r

    def __setitem__(self, i, v):
        n = list.__len__(self)
        for k in self._keys(i):
            _note(self.o, k, True)
        list.__setitem__(self, i, v)
        if list.__len__(self) != n:
            _note(self.o, '#', True)

    def __delitem__(self, i):
        self._all(True)
        list.__delitem__(self, i)

    def _all(self, w):
        for k in range(list.__len__(self)):
            _note(self.o, k, w)
        _note(self.o, '#', w)

    def __iter__(self):
        self._all(False)
        return list.__iter__(self)

    def __len__(self):
        _note(self.o, '#', False)
        return list.__len__(self)

    def __add__(self, b):
        return list(self) + list(b)

    def __radd__(self, b):
        return list(b) + list(self)

    def __iadd__(self, b):
        self.extend(b)
        return self

    def __contains__(self, v):
        self._all(False)
        return list.__contains__(self, v)

    def __eq__(self, b):
        self._all(False)
        return list.__eq__(self, b)

    def __ne__(self, b):
        return not self == b

    __hash__ = None


def _mut(name):
    f = getattr(list, name)

    def g(self, *a):
        if name == 'append':
            _note(self.o, list.__len__(self), True)
            _note(self.o, '#', True)
        else:
            self._all(True)
        return f(self, *a)
    return g


for _n in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse'):
    setattr(LList, _n, _mut(_n))


class LDict(dict):
    __slots__ = ('o',)

    def copy(self):
        r = LDict(dict.items(self))
        r.o = self.o
        return r

    def __getitem__(self, k):
        _note(self.o, k, False)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        _note(self.o, k, False)
        return dict.get(self, k, d)

    def __setitem__(self, k, v):
        _note(self.o, k, True)
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        _note(self.o, k, True)
        dict.__delitem__(self, k)

    def pop(self, k, *d):
        _note(self.o, k, True)
        return dict.pop(self, k, *d)

    def setdefault(self, k, d=None):
        if not dict.__contains__(self, k):
            _note(self.o, k, True)
        _note(self.o, k, False)
        return dict.setdefault(self, k, d)

    def update(self, *a, **b):
        for k, v in dict(*a, **b).items():
            self[k] = v

    def __contains__(self, k):
        _note(self.o, k, False)
        return dict.__contains__(self, k)

    def _all(self):
        for k in dict.keys(self):
            _note(self.o, k, False)

    def values(self):
        self._all()
        return dict.values(self)

    def items(self):
        self._all()
        return dict.items(self)

    def __iter__(self):
        self._all()
        return dict.__iter__(self)


class Region:
    def __init__(self, I, node, private):
        self.I, self.node, self.private = I, node, private
        self.off = 0
        self.iter = 0
        self.locks = ()
        self.acc = {}       # (object, key) -> {(iteration, write, locks): location}
        self.iterations = 0
        self.desc = {}

    def note(self, o, k, w):
        if self.iter == 0:
            return
        a = self.acc.setdefault((o, k), {})
        a.setdefault((self.iter, w, frozenset(self.locks)), self.I.curloc)

    def wrap(self, o, c):
        if o in self.private or c.kind in EXEMPT or c.d is None or isinstance(c.d, (LList, LDict)):
            return
        if isinstance(c.d, list):
            c.d = LList(c.d)
        elif isinstance(c.d, dict):
            c.d = LDict(c.d)
        else:
            return
        c.d.o = o
        self.desc.setdefault(o, '%s %s' % (c.kind, c.cls))

    def enter(self, S):
        for o in sorted(S.mem):
            self.wrap(o, S.mem[o])
        self.known = set(S.mem)

    def check_replaced(self, S):
        """containers whose content was replaced as a whole since the last look"""
        for o in self.known:
            c = S.mem.get(o)
            if c is None or c.kind in EXEMPT or c.d is None or o in self.private or isinstance(c.d, (LList, LDict)) or not isinstance(c.d, (list, dict)):
                continue
            for k in (range(len(c.d)) if isinstance(c.d, list) else c.d):
                self.note(o, k, True)
            self.note(o, '#', True)
            self.wrap(o, c)

    def leave(self, S):
        for c in S.mem.values():
            if isinstance(c.d, LList):
                c.d = list(list.__iter__(c.d))
            elif isinstance(c.d, LDict):
                c.d = dict(dict.items(c.d))

    def conflicts(self):
        out = []
        for (o, k), a in sorted(self.acc.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            L = sorted(a, key=lambda x: (x[0], not x[1], sorted(x[2])))
            for p in L:
                if not p[1]:
                    continue
                for q in L:
                    if q[0] != p[0] and not (p[2] & q[2]):
                        out.append((o, k, a[p], a[q], q[1]))
                        break
                else:
                    continue
                break
        return out


def private_vars(s):
    return [v['d'] for c in s.get('cl', []) if c['k'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear') for v in c['v']]


class Watch:
    """installed as Interp.omp"""

    def __init__(self, I):
        self.I, self.regions, self.cur = I, [], None

    def stmt(self, s, S, fr):
        global LOG
        d = s.get('d', '')
        if 'parallel' in d and self.cur is None:
            pv = set()
            for v in private_vars(s):
                L = fr.env.get(v)
                if isinstance(L, interp.Loc):
                    pv.add(L.o)
            r = self.cur = Region(self.I, s, pv)
            self.regions.append(r)
            r.enter(S)
            LOG = r
            try:
                ok = self.I.ex(s.get('b'), S, fr)
                r.check_replaced(S)
            finally:
                LOG, self.cur = None, None
                r.leave(S)
                for k, st, v in fr.exits:
                    r.leave(st)
            return ok
        if d in ('critical', 'atomic') and self.cur:
            r = self.cur
            r.check_replaced(S)
            old = r.locks
            r.locks = old + (('critical ' + s.get('name', '')) if d == 'critical' else 'atomic',)
            try:
                ok = self.I.ex(s.get('b'), S, fr)
                r.check_replaced(S)
            finally:
                r.locks = old
            return ok
        return self.I.ex(s.get('b'), S, fr)

    def iteration(self, s, S):
        """the body of loop s is about to be entered"""
        r = self.cur
        if r and s is r.node.get('b'):
            r.check_replaced(S)
            for o in sorted(S.mem):
                if o not in r.known:
                    r.known.add(o)
                    r.wrap(o, S.mem[o])
            r.iter = r.iterations = r.iterations + 1

    def between(self, s, S):
        r = self.cur
        if r and s is r.node.get('b'):
            r.check_replaced(S)
            r.iter = 0


class Off:
    def __enter__(self):
        if LOG is not None:
            LOG.off += 1
            self.l = LOG
        else:
            self.l = None

    def __exit__(self, *a):
        if self.l is not None:
            self.l.off -= 1
