"""Model of the nearest-neighbour library of the scattered-data interpolant."""
from harness import *
from interp import Unsupported, Loc, NULL
from libmodel import scal, obj, vec_resize
import sym


class Flann:
    """neighbours: the positions knnSearch is to answer (in this order)"""

    def __init__(self, c, neighbours):
        self.c, self.neighbours = c, neighbours
        self.asked = None
        ch, h = c.I.ctorhooks, c.I.hooks
        ch['flann::Matrix'] = self.matrix
        ch['flann::Index'] = self.index
        for n in ('flann::KDTreeIndexParams', 'flann::SearchParams', 'flann::LinearIndexParams', 'flann::KDTreeSingleIndexParams', 'flann::KMeansIndexParams', 'flann::L2'):
            ch[n] = lambda I, S, fr, e, L, a=None: None
        h['flann::Matrix::operator[]'] = self.at
        h['flann::Matrix::ptr'] = lambda I, S, fr, e, o, a: self.at(I, S, fr, e, o, [0])
        h['flann::Index::buildIndex'] = lambda I, S, fr, e, o, a: None
        h['flann::Index::knnSearch'] = self.search

    def matrix(self, I, S, fr, e, L, a=None):
        if a is None:
            a = [I.ev(x, S, fr) for x in e['a'] if x.get('k') != 'defarg']
        c = S.w(L.o)
        if len(a) == 1:
            src = S.get(obj(I, S, a[0]).o)
            c.x['mat'] = src.x['mat']
            return
        rows, cols = scal(I, S, a[1]), scal(I, S, a[2])
        if not isinstance(rows, int) or not isinstance(cols, int):
            raise Unsupported('flann matrix of symbolic size')
        c.x['mat'] = (a[0], rows, cols)

    def at(self, I, S, fr, e, o, a):
        p, rows, cols = S.get(obj(I, S, o).o).x['mat']
        i = scal(I, S, a[0])
        if isinstance(i, int) and not 0 <= i < rows:
            I.event('oob', 'row %d of %d points' % (i, rows), e['l'], S)
        return I.padd(p, i * cols)

    def index(self, I, S, fr, e, L, a=None):
        if a is None:
            a = [I.ev(x, S, fr) for x in e['a'] if x.get('k') != 'defarg']
        S.w(L.o).x['mat'] = S.get(obj(I, S, a[0]).o).x['mat']

    def search(self, I, S, fr, e, o, a):
        p, rows, cols = S.get(obj(I, S, o).o).x['mat']
        qp, qr, qc = S.get(obj(I, S, a[0]).o).x['mat']
        k = scal(I, S, a[3])
        if not isinstance(k, int):
            raise Unsupported('number of neighbours')
        if qc != cols:
            I.event('mismatch', 'a query of %d numbers among points of %d' % (qc, cols), e['l'], S)
        self.asked = k
        ids = [n for n in self.neighbours if n < rows][:k]
        for out, f in ((a[1], lambda r, n: n), (a[2], lambda r, n: self.dist(I, S, I.padd(p, n * cols), I.padd(qp, r * cols), cols, e['l']))):
            L = obj(I, S, out)
            vec_resize(I, S, L, 0, None, e['l'])
            vec_resize(I, S, L, qr, None, e['l'])
            for r in range(qr):
                inner = obj(I, S, I.load(S, Loc(L.o, r)))
                vec_resize(I, S, inner, len(ids), None, e['l'])
                for j, n in enumerate(ids):
                    I.store(S, Loc(inner.o, j), f(r, n), e['l'])
        return qr

    def dist(self, I, S, a, b, n, loc):
        acc = 0.0
        for j in range(n):
            d = sym.sub(I.load(S, I.padd(a, j), loc), I.load(S, I.padd(b, j), loc))
            acc = sym.add(acc, sym.mul(d, d))
        return acc
