"""Rational fitters: the program handed to the solver states the data, and its solution becomes the function."""
from models import *
from dataset import segment
from sym import fun
import sym
import interp

RF = 'sources/core/rational_function.cpp'
FIT = {'quadprog': 'sources/plugins/rational_fitters/quadprog.cpp', 'parallel': 'sources/plugins/rational_fitters/quadprog_parallel.cpp',
       'eigen': 'sources/plugins/rational_fitters/eigen.cpp', 'leastsquare': 'sources/plugins/rational_fitters/leastsquare.cpp'}
INF = float('inf')


class Prob:
    """a rational function, samples with symbolic values and intervals, and a fitter"""

    def __init__(self, kind, plug, nX, nY, m, opts, concrete=None, ci=2):
        self.c = c = Ctx()
        c.I.env = {}
        self.kind, self.nX, self.nY, self.m = kind, nX, nY, m
        self.args = cmd(c, ('--func ' + plug + ' ' if plug != 'rational_function' else '') + opts)
        self.par = mkparams(c, nX, nY, 'UNKNOWN_INPUT')
        if plug == 'rational_function':
            self.f = c.new(RF, 'alta::rational_function', [self.par, 0, 0], pred=lambda t, k: len(k['p']) == 3)
        else:
            self.f = getfn(c, self.args, self.par)
        self.xs = [[round(-0.9 + 1.9 * ((i * (k + 2) + k) % m) / m + 0.013 * i, 6) for k in range(nX)] for i in range(m)]
        ie, oe = enum('alta::params::input'), enum('alta::params::output')
        rows = []
        for i in range(m):
            rows += self.xs[i] + [self.at('y', i, j) if concrete is None else concrete(i, j)[0] for j in range(nY)]
            if ci == 2:
                rows += [self.at('l', i, j) if concrete is None else concrete(i, j)[1] for j in range(nY)]
            if ci:
                rows += [self.at('u', i, j) if concrete is None else concrete(i, j)[2] for j in range(nY)]
        self.d = segment(c, nX, nY, ie['UNKNOWN_INPUT'], oe['UNKNOWN_OUTPUT'], rows, ci)
        x = [y for y in c.P.byq.get('provide_fitter', []) if y[0] == FIT[kind]]
        if not x:
            raise AnalysisError('%s exports no provide_fitter' % FIT[kind])
        self.fit = c.runfn(Fn(*x[0]), None, [])[1]

    def at(self, n, i, j):
        return var('%s%d_%d' % (n, i, j))

    def run(self):
        c = self.c
        c.mcall(self.fit, 'set_parameters', [self.args])
        fit = c.sptr(self.f)
        return c.mcall(self.fit, 'fit_data', [c.sptr(self.d), fit, self.args])

    def get(self, j):
        return self.c.mcall(self.f, 'get', [j], pred=lambda t, k: not k.get('const'))

    def basis(self, j, np, nq):
        """values of the basis functions of channel j at every sample, in the function as the fit leaves it"""
        c, r = self.c, self.get(j)
        pick = lambda t, k: len(k['p']) == 2
        out = []
        for x in self.xs:
            v = c.vec(x)
            out.append(([c.mcall(r, 'p', [v, k], pred=pick) for k in range(np)], [c.mcall(r, 'q', [v, k], pred=pick) for k in range(nq)]))
        return out

    def coefs(self, j):
        c, r = self.c, self.get(j)
        return c.mvals(c.mcall(r, 'getP', [])), c.mvals(c.mcall(r, 'getQ', []))

    def sampler(self, rng):
        e = {}
        for i in range(self.m):
            for j in range(self.nY):
                y = rng.uniform(0.2, 2.0) * rng.choice((-1.0, 1.0))
                e['y%d_%d' % (i, j)], e['l%d_%d' % (i, j)], e['u%d_%d' % (i, j)] = y, y - rng.uniform(0.01, 0.2), y + rng.uniform(0.01, 0.2)
        e.update(('r%d_%d' % (k, i), rng.uniform(0.3, 1.5)) for k in range(40) for i in range(24))
        return e


def mat(c, L):
    k = c.I.matc(c.S, L)
    return k.x['rows'], k.x['cols'], c.I.matvals(c.S, L)


class QP:
    """stand-in for the quadratic programming library"""

    def __init__(self, p, script):
        self.p, self.script, self.calls, self.G0 = p, script, [], None
        I = p.c.I
        I.hooks['QuadProgPP::init_qp'] = self.init
        I.hooks['QuadProgPP::solve_quadprog'] = self.solve
        I.hooks['QuadProgPP::solve_quadprog_with_guess'] = self.solve

    def init(self, I, S, fr, e, o, a):
        self.G0 = mat(self.p.c, a[0])
        self.factored = a[0]

    def solve(self, I, S, fr, e, o, a):
        c = self.p.c
        G, g, CE, ce, CI, ci = [mat(c, x) for x in a[:6]]
        if e['f']['q'].endswith('_with_guess'):
            G, self.G0 = self.G0, None
            if G is None:
                raise AnalysisError('solve_quadprog_with_guess without init_qp')
        x = a[6]
        n = mat(c, x)[0]
        k = len(self.calls)
        v, cost = self.script(k, n, dict(G=G, g=g, CE=CE, ce=ce, CI=CI, ci=ci))
        self.calls.append(dict(G=G, g=g, CE=CE, ce=ce, CI=CI, ci=ci, x=v, cost=cost))
        for i in range(n):
            I.store(S, Loc(x.o, i), v[i], 'solver')
        return cost


def columns(q):
    r, n, v = q['CI']
    return [(v[k * r:(k + 1) * r], q['ci'][2][k]) for k in range(n)]


def numeric(x, env):
    if x is UNDEF:
        return None
    return sym.evalx(x, env) if isinstance(x, sym.E) else float(x)


def expected(B, i, l, u, delta):
    p, q = B[i]
    out = []
    for s, y in ((1.0, u), (-1.0, l)):
        row = [s * t for t in p] + [-s * y * t for t in q]
        n = sum((t * t for t in row), 0.0)
        out.append((row, 0.0 - delta * sym.fun('sqrt', n)))
    return out


def program(R, P, lab, q, B, j, delta, ls, smp, only=None):
    """the quadratic program has the two constraints of each sample (of `only`), once, and the energy asked for"""
    import random
    tu = FIT[P.kind]
    env = smp(random.Random(5))
    N = len(B[0][0]) + len(B[0][1])
    cols = columns(q)
    undef = [k for k, (v, b) in enumerate(cols) if any(t is UNDEF for t in v) or b is UNDEF]
    if not R.check(lab + '/filled', not undef, 'constraint %s is not filled' % undef[:3], tu, fp='undef'):
        return None
    have = [([numeric(t, env) for t in v], numeric(b, env)) for v, b in cols]
    used, where = {}, {}
    want = []
    for i in range(P.m):
        y, l, u = P.vals(i, j)
        for s, w in enumerate(expected(B, i, l, u, delta)):
            want.append((i, s, w, ([numeric(t, env) for t in w[0]], numeric(w[1], env))))
    for k, h in enumerate(have):
        hit = [(i, s) for i, s, w, wn in want if (i, s) not in used and all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(h[0] + [h[1]], wn[0] + [wn[1]]))]
        if not hit:
            near = [(i, s) for i, s, w, wn in want if (i, s) not in used and all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(h[0], wn[0]))]
            R.check(lab + '/constraint%d' % k, False, 'is the constraint of no interval bound, or one stated twice' + (': sample %d with margin %.6g' % (near[0][0], h[1]) if near else ''), tu, fp='margin' if near else 'row')
            continue
        used[hit[0]] = k
    for (i, s), k in sorted(used.items()):
        w = [x for x in want if x[0] == i and x[1] == s][0][2]
        v, b = cols[k]
        ok = all(sym.equal(a, t, smp).equal for a, t in zip(v, w[0])) and sym.equal(b, w[1], smp).equal
        R.check(lab + '/sample%d %s' % (i, 'lower' if s else 'upper'), ok, 'constraint differs from the bound', tu, fp='graph')
    got = {i for i, s in used}
    half = [i for i in got if not ((i, 0) in used and (i, 1) in used)]
    R.check(lab + '/pairs', not half, 'only one bound of samples %s is stated' % half[:4], tu, fp='half')
    if only is not None:
        R.check(lab + '/samples', got == only, 'samples %s are missing from the program' % sorted(only - got)[:6], tu, fp=sorted(only - got)[:6])
    r, n, G = q['G']
    bad = []
    cls = [[t for t in B[i][0]] + [-0.5 * (P.vals(i, j)[1] + P.vals(i, j)[2]) * t for t in B[i][1]] for i in range(P.m)]
    for a in range(N):
        for b in range(N):
            w = 1.0 if a == b else 0.0
            if ls:
                w = w + 100.0 * sum((cls[i][a] * cls[i][b] for i in range(P.m)), 0.0)
            if G[b * r + a] is UNDEF or not sym.equal(G[b * r + a], w, smp).equal:
                bad.append((a, b))
    R.check(lab + '/energy', (r, n) == (N, N) and not bad, 'quadratic energy is wrong at %s' % bad[:3], tu, fp='energy')
    g = q['g'][2]
    bad = [k for k in range(len(g)) if g[k] is UNDEF or g[k] != 0.0]
    R.check(lab + '/linear energy', len(g) == N and not bad, 'elements %s of the linear energy are %s' % (bad[:3], 'not set' if bad and g[bad[0]] is UNDEF else 'not 0'), tu, fp='linear')
    R.check(lab + '/equalities', q['CE'][1] == 0 and len(q['ce'][2]) == 0, 'there are equality constraints', tu, fp='eq')
    return got


def events(R, P, lab):
    for kk, msg, loc, pc in list(P.c.I.events):
        if kk in ('oob', 'uninit', 'null-deref', 'shape', 'mismatch', 'double-free', 'assert', 'throw', 'div0'):
            R.check('%s/%s' % (lab, kk), False, msg, loc, fp=msg[:40])
    R.saw(P.c)


def result(R, P, lab, j, np, nq, sol, smp):
    a, b = P.coefs(j)
    tu = FIT[P.kind]
    if not R.check(lab + '/size', (len(a), len(b)) == (np, nq), 'the function has %d and %d coefficients' % (len(a), len(b)), tu, fp=(len(a), len(b))):
        return
    c0 = sol[np]
    bad = [k for k, (x, w) in enumerate(zip(a + b, sol)) if x is UNDEF or not sym.equal(x, sym.div(w, c0), smp).equal]
    if j == 0:
        for n in ('min', 'max'):
            have, want = (P.c.mvals(P.c.mcall(o, n, [])) for o in (P.f, P.d))
            R.check('%s/%s' % (lab, n), len(have) == len(want) and all(x is not UNDEF and (x == y or sym.equal(x, y, smp).equal) for x, y in zip(have, want)), 'the domain of the function (%s) is not that of the data' % n, tu, fp=n)
    R.check(lab + '/coefficients', not bad, 'coefficients %s are not those of the solution' % bad[:4], tu, fp=bad[:4])


def quadprog(R, plug, nX, nY, m, np, nq, opts='', delta=1.0, ls=False):
    lab = 'quadprog/%s nX=%d nY=%d m=%d %d/%d %s' % (plug, nX, nY, m, np, nq, opts)
    with R.guard(lab, FIT['quadprog']):
        P = Prob('quadprog', plug, nX, nY, m, '--np %d --nq %d %s' % (np, nq, opts))
        P.vals = lambda i, j: (P.at('y', i, j), P.at('l', i, j), P.at('u', i, j))
        Q = QP(P, lambda k, n, q: ([var('r%d_%d' % (k, i)) for i in range(n)], 1.0))
        P.c.I.assumef = interp_assume
        r = P.run()
        R.check(lab + '/result', r is True or r == 1, 'fit_data gives %s for a solved program' % (r,), FIT['quadprog'], fp='%s' % (r,))
        R.check(lab + '/programs', len(Q.calls) == nY, '%d programs are solved for %d channels' % (len(Q.calls), nY), FIT['quadprog'], fp=len(Q.calls))
        for j, q in enumerate(Q.calls[:nY]):
            B = P.basis(j, np, nq)
            program(R, P, lab + '/channel%d' % j, q, B, j, delta, ls, P.sampler, set(range(m)))
            result(R, P, lab + '/channel%d' % j, j, np, nq, q['x'], P.sampler)
        events(R, P, lab)
        R.count('programs', len(Q.calls))




def failing(R, kind, how):
    """a program without solution, or a solution that is not a number, makes the fit fail"""
    lab = '%s/%s' % (kind, how)
    tu = FIT[kind]
    with R.guard(lab, tu):
        P = Prob(kind, 'rational_function', 1, 2, 3, '--np 2 --nq 2' if kind == 'quadprog' else '--np 3 --min-np 2', lambda i, j: (1.0 + 0.1 * i, 0.9 + 0.1 * i, 1.1 + 0.1 * i))

        def script(k, n, q):
            if how == 'infeasible in the second channel':
                return [1.0] + [0.0] * (n - 2) + [1.0], (INF if k % 2 else 1.0)
            return {'infeasible': ([0.5] * n, INF), 'not a number': ([float('nan')] + [0.5] * (n - 1), 1.0), 'infinite': ([0.5] * (n - 1) + [INF], 1.0), 'all zero': ([0.0] * n, 1.0)}[how]
        Q = QP(P, script)
        P.c.I.assumef = interp_assume
        r = P.run()
        R.check(lab + '/result', r is False or r == 0, 'fit_data gives %s' % (r,), tu, fp='%s' % (r,))
        R.check(lab + '/programs', bool(Q.calls), 'no program is solved', tu, fp='none')
        events(R, P, lab)
        R.count('failures')


def growing(R):
    """quadprog tries larger and larger expansions up to the numbers asked for"""
    lab = 'quadprog/growing'
    tu = FIT['quadprog']
    with R.guard(lab, tu):
        for good in (2, 4, 9):
            P = Prob('quadprog', 'rational_function', 1, 1, 4, '--min-np 1 --np 3 --min-nq 1 --nq 2', lambda i, j: (1.0, 0.9, 1.1))
            Q = QP(P, lambda k, n, q: ([1.0] + [0.0] * (n - 2) + [1.0], 1.0 if n >= good else INF))
            P.c.I.assumef = interp_assume
            r = P.run()
            want = [n for n in (2, 4, 5) if n <= good]
            R.check('%s/%d tried' % (lab, good), [q['G'][0] for q in Q.calls] == want, 'numbers of coefficients %s are tried instead of %s' % ([q['G'][0] for q in Q.calls], want), tu, fp='sizes')
            R.check('%s/%d result' % (lab, good), bool(r) == (good <= 5), 'fit_data gives %s' % (r,), tu, fp='%s' % (r,))
            events(R, P, '%s/%d' % (lab, good))
            R.count('failures')


def refuse(R, kind):
    """other kinds of functions and data without intervals"""
    tu = FIT[kind]
    with R.guard(kind + '/refuses', tu):
        P = Prob(kind, 'rational_function', 1, 1, 3, '--np 2 --nq 1', lambda i, j: (1.0, 0.9, 1.1))
        Q = QP(P, lambda k, n, q: ([1.0] * n, 1.0))
        P.f = getfn(P.c, cmd(P.c, '--func nonlinear_function_blinn'), mkparams(P.c, 6, 1))
        r = P.run()
        R.check(kind + '/non-rational function', r is False or r == 0, 'fit_data gives %s' % (r,), tu, fp='%s' % (r,))
        events(R, P, kind + '/refuses')
        R.count('failures')


def split(P, q, refs, m, delta):
    """(np, nq, channel) the program is one of"""
    import random
    cols = columns(q)
    N = q['G'][0]
    env = P.sampler(random.Random(5))
    out = []
    for np in range(1, N):
        for j in range(P.nY):
            ok = True
            for v, b in cols:
                hit = False
                for i in range(m):
                    y, l, u = P.vals(i, j)
                    pb, qb = refs[j][i]
                    for s, t in ((1.0, u), (-1.0, l)):
                        w = [s * x for x in pb[:np]] + [-s * t * x for x in qb[:N - np]]
                        if all(x is not UNDEF and abs(numeric(x, env) - numeric(z, env)) < 1e-9 * (1 + abs(numeric(z, env))) for x, z in zip(v, w)):
                            hit = True
                if not hit:
                    ok = False
                    break
            if ok:
                out.append((np, N - np, j))
    return out


class Stop(Exception):
    pass


def parallel(R, plug, nX, nY, m, N, opts, levels, need, start=None, expect=True, ci=2, given=None, svd=None):
    """levels[j]: constants returned by successive programs of channel j; need(i, j): interval of sample i"""
    lab = 'parallel/%s nX=%d nY=%d m=%d N=%d %s%s' % (plug, nX, nY, m, N, opts, '' if ci == 2 else ' ci=%d' % ci)
    tu = FIT['parallel']
    with R.guard(lab, tu):
        vals = lambda i, j: (need(i, j)[0],) + tuple(need(i, j))[1:]
        P = Prob('parallel', plug, nX, nY, m, '--min-np %d %s' % (N, opts), given or vals, ci)
        P.vals = vals
        ref = Prob('parallel', plug, nX, nY, m, '', vals)
        c2 = ref.c
        c2.mcall(ref.f, 'setMin', [c2.mcall(ref.d, 'min', [])])
        c2.mcall(ref.f, 'setMax', [c2.mcall(ref.d, 'max', [])])
        c2.mcall(ref.f, 'setSize', [N, N])
        refs = [ref.basis(j, N, N) for j in range(nY)]
        hist = {}
        deltas, mats = [], []
        if svd:
            I = P.c.I

            def ctor(I, S, fr, e, L, args):
                k = S.w(L.o)
                k.d, k.x['open'] = {}, True
                A = mat(P.c, args[0])
                d = svd(len(deltas))
                n = min(A[0], A[1])
                k.x['sv'] = I.mkmat(S, [3.0 * d] + [3.0 * (d + 1) / 2] * (n - 2) + [3.0], n, 1, 'Eigen::Matrix<double, -1, 1>')
                deltas.append(d)
                mats.append(A)
            for n in ('JacobiSVD', 'BDCSVD'):
                I.ctorhooks['Eigen::' + n] = ctor
            for n in ('JacobiSVD', 'BDCSVD', 'SVDBase'):
                I.hooks['Eigen::%s::singularValues' % n] = lambda I, S, fr, e, o, a: S.get(o.o).x['sv']

        def script(k, n, q):
            sp = split(P, q, refs, m, 1.0)
            if len(sp) != 1:
                R.check('%s/program%d' % (lab, k), bool(sp), 'constraints are not those of one number of coefficients and channel', tu, fp='rows')
                raise Stop()
            t = sp[0]
            h = hist.setdefault(t, [])
            lv = levels(t, len(h))
            x = [lv] + [0.0] * (t[0] - 1) + [1.0] + [0.0] * (t[1] - 1) if lv is not None else [0.5] * n
            h.append((q, lv, deltas[-1] if svd else 1.0))
            if svd:
                r, n2, v = q['CI']
                A = mats[-1]
                ok = A[:2] == (n2, r) and all(A[2][b * n2 + a] == v[a * r + b] for a in range(n2) for b in range(r)) or A[:2] == (r, n2) and list(A[2]) == list(v)
                R.check('%s/program%d matrix' % (lab, k), len(deltas) == k + 1 and ok, 'the condition number is not that of the constraints', tu, fp='svd')
            return x, (1.0 if lv is not None else INF)
        Q = QP(P, script)
        P.c.I.assumef = interp_assume
        try:
            r = P.run()
        except Stop:
            return
        R.check(lab + '/result', bool(r) == expect, 'fit_data gives %s' % (r,), tu, fp='%s' % (r,))
        best, dl = {}, {}
        for t, h in sorted(hist.items()):
            B = [(refs[t[2]][i][0][:t[0]], refs[t[2]][i][1][:t[1]]) for i in range(m)]
            prev = None
            for k, (q, lv, delta) in enumerate(h):
                l2 = '%s/%d+%d channel %d/%d' % (lab, t[0], t[1], t[2], k)
                got = program(R, P, l2, q, B, t[2], delta, False, P.sampler)
                if got is None:
                    break
                if k == 0 and start:
                    R.check(l2 + '/start', len(got) == start, 'the first program has %d of %d samples, %d are asked for' % (len(got), m, start), tu, fp=len(got))
                if prev is not None:
                    R.check(l2 + '/kept', prev[0] <= got, 'constraints of samples %s are lost' % sorted(prev[0] - got), tu, fp='lost')
                    new = got - prev[0]
                    R.check(l2 + '/added', bool(new) and new <= prev[1], 'samples %s are added, outside their intervals are %s' % (sorted(new), sorted(prev[1])), tu, fp='added')
                bad = {i for i in range(m) if i not in got and lv is not None and not need(i, t[2])[1] <= lv <= need(i, t[2])[2]}
                prev = (got, bad)
            if prev is None:
                continue
            lv = h[-1][1]
            if lv is not None:
                R.check('%s/%d+%d channel %d/accepted' % (lab, t[0], t[1], t[2]), not prev[1], 'a solution is final although samples %s lie outside their intervals' % sorted(prev[1]), tu, fp='outside')
                best[t], dl[t] = lv, h[-1][2]
        if expect and r:
            cand = [(np, N - np) for np in range(1, N) if all((np, N - np, j) in best for j in range(nY))]
            err = {s: sum((need(i, j)[0] - best[s + (j,)]) ** 2 for i in range(m) for j in range(nY)) for s in cand}
            if svd:
                err = {s: dl[s + (nY - 1,)] for s in cand}
            top = min(err.values()) if err else 0
            a, b = P.coefs(0)
            s = (len(a), len(b))
            if R.check(lab + '/chosen', s in err and err[s] <= top + 1e-12, 'the function with %s coefficients is kept, %s are %s' % (s, 'condition numbers' if svd else 'squared distances', err), tu, fp='chosen'):
                for j in range(nY):
                    result(R, P, '%s/channel%d' % (lab, j), j, s[0], s[1], [best[s + (j,)]] + [0.0] * (s[0] - 1) + [1.0] + [0.0] * (s[1] - 1), P.sampler)
        events(R, P, lab)
        R.count('programs', len(Q.calls))
        R.count('searches')


def eigen(R, plug, nX, nY, m, np, nq, info=0):
    lab = 'eigen/%s nX=%d nY=%d m=%d %d/%d info=%d' % (plug, nX, nY, m, np, nq, info)
    tu = FIT['eigen']
    with R.guard(lab, tu):
        P = Prob('eigen', plug, nX, nY, m, '--np %d --nq %d' % (np, nq))
        c, I = P.c, P.c.I
        calls = []

        def ctor(I, S, fr, e, L, args):
            M = mat(c, args[0])
            k = S.w(L.o)
            k.d, k.x['open'] = {}, True
            n = M[0]
            z = len(calls)
            k.x['ev'] = I.mkmat(S, [0.25 * (i + 1) for i in range(n)], n, 1, 'Eigen::Matrix<double, -1, 1>')
            V = [var('r%d_%d' % (z * n + b, a)) for b in range(n) for a in range(n)]
            k.x['vec'] = I.mkmat(S, V, n, n, 'Eigen::Matrix<double, -1, -1>')
            calls.append((M, V[:n]))
        I.ctorhooks['Eigen::SelfAdjointEigenSolver'] = ctor
        I.hooks['Eigen::SelfAdjointEigenSolver::info'] = lambda I, S, fr, e, o, a: info
        I.hooks['Eigen::SelfAdjointEigenSolver::eigenvalues'] = lambda I, S, fr, e, o, a: S.get(o.o).x['ev']
        I.hooks['Eigen::SelfAdjointEigenSolver::eigenvectors'] = lambda I, S, fr, e, o, a: S.get(o.o).x['vec']
        I.assumef = interp_assume
        r = P.run()
        R.check(lab + '/result', bool(r) == (info == 0), 'fit_data gives %s' % (r,), tu, fp='%s' % (r,))
        if info == 0:
            R.check(lab + '/decompositions', len(calls) == nY, '%d matrices are decomposed for %d channels' % (len(calls), nY), tu, fp=len(calls))
            for j, (M, sol) in enumerate(calls[:nY]):
                B = P.basis(j, np, nq)
                rows = [B[i][0] + [0.0 - P.at('y', i, j) * t for t in B[i][1]] for i in range(m)]
                N = np + nq
                bad = [(a, b) for a in range(N) for b in range(a + 1) if M[:2] != (N, N) or M[2][b * N + a] is UNDEF or not sym.equal(M[2][b * N + a], sum((w[a] * w[b] for w in rows), 0.0), P.sampler).equal]
                R.check('%s/channel%d matrix' % (lab, j), not bad, 'the squared residual p - y q is not the decomposed form at %s' % bad[:3], tu, fp=bad[:3])
                result(R, P, '%s/channel%d' % (lab, j), j, np, nq, sol, P.sampler)
        events(R, P, lab)
        R.count('programs', len(calls))


def leastsquare(R, plug, nX, nY, m, np, nq, iters):
    lab = 'leastsquare/%s nX=%d nY=%d m=%d %d/%d iterations=%d' % (plug, nX, nY, m, np, nq, iters)
    tu = FIT['leastsquare']
    with R.guard(lab, tu):
        P = Prob('leastsquare', plug, nX, nY, m, '--np %d --nq %d%s' % (np, nq, ' --max-iter %d' % iters if iters != 1 else ''))
        c, I = P.c, P.c.I
        calls = []

        def qr(I, S, fr, e, o, a):
            return I.alloc(S, 'opaque', 'decomposition', {}, A=mat(c, o), open=True)
        for n in ('colPivHouseholderQr', 'fullPivHouseholderQr', 'householderQr', 'completeOrthogonalDecomposition', 'jacobiSvd', 'bdcSvd'):
            I.hooks['Eigen::MatrixBase::' + n] = qr

        def solve(I, S, fr, e, o, a):
            A, b = S.get(o.o).x['A'], mat(c, a[0])
            sol = [var('r%d_%d' % (len(calls), i)) for i in range(A[1])]
            calls.append((A, b, sol))
            return I.mkmat(S, sol, A[1], 1, 'Eigen::Matrix<double, -1, 1>')
        I.hooks['Eigen::SolverBase::solve'] = solve
        I.assumef = interp_assume
        r = P.run()
        R.check(lab + '/result', r is True or r == 1, 'fit_data gives %s' % (r,), tu, fp='%s' % (r,))
        if not R.check(lab + '/solves', len(calls) == 2 * nY * iters, '%d systems are solved' % len(calls), tu, fp=len(calls)):
            return
        smp = P.sampler
        for j in range(nY):
            B = P.basis(j, np, nq)
            num = [1.0] + [0.0] * (np - 1)
            for k in range(iters):
                (A1, b1, q), (A2, b2, p) = calls[2 * (j * iters + k)], calls[2 * (j * iters + k) + 1]
                y = [P.at('y', i, j) for i in range(m)]
                l2 = '%s/channel%d/%d' % (lab, j, k)
                pv = [sum((a * t for a, t in zip(num, B[i][0])), 0.0) for i in range(m)]
                qv = [sum((a * t for a, t in zip(q, B[i][1])), 0.0) for i in range(m)]
                for what, A, n, w in (('denominator', A1, nq, lambda i, t: y[i] * y[i] * B[i][1][t]), ('numerator', A2, np, lambda i, t: sym.div(B[i][0][t], qv[i]))):
                    bad = [(i, t) for i in range(m) for t in range(n) if A[:2] != (m, n) or A[2][t * m + i] is UNDEF or not sym.equal(A[2][t * m + i], w(i, t), smp).equal]
                    R.check('%s/%s' % (l2, what), not bad, 'the system for the %s is wrong at %s' % (what, bad[:3]), tu, fp=bad[:3])
                for what, b, w in (('denominator', b1, lambda i: y[i] * pv[i]), ('numerator', b2, lambda i: y[i])):
                    bad = [i for i in range(m) if len(b[2]) != m or b[2][i] is UNDEF or not sym.equal(b[2][i], w(i), smp).equal]
                    R.check('%s/%s values' % (l2, what), not bad, 'right hand side for the %s is wrong at samples %s' % (what, bad[:3]), tu, fp=bad[:3])
                num = p
            result(R, P, '%s/channel%d' % (lab, j), j, np, nq, list(p) + list(q), smp)
        events(R, P, lab)
        R.count('programs', len(calls))


import bounds
interp_assume = bounds.decider(lambda n: (0.3, 1.5) if n[0] == 'r' else (-10.0, 10.0))


def run(R):
    R.rule('each rational fitter is run on samples with symbolic values and intervals, with stand-ins for the quadratic programming and linear algebra solvers: every program has the two constraints of every sample once and nothing else, '
           'the energy asked for, and its solution becomes the coefficients of the channel')
    quadprog(R, 'rational_function', 1, 1, 5, 2, 2)
    quadprog(R, 'rational_function_legendre', 2, 2, 6, 3, 2)
    quadprog(R, 'rational_function_chebychev', 1, 1, 4, 2, 3, '--add-ls-energy', ls=True)
    quadprog(R, 'rational_function', 1, 1, 40, 2, 1, '--delta 0.5', delta=0.5)
    quadprog(R, 'rational_function', 1, 1, 67, 1, 1, '--scheduling-mode WorstSetFirst')
    for how in ('infeasible', 'infeasible in the second channel', 'not a number', 'infinite', 'all zero'):
        failing(R, 'quadprog', how)
    for how in ('infeasible', 'infeasible in the second channel', 'all zero'):
        failing(R, 'parallel', how)
    growing(R)
    for k in FIT:
        refuse(R, k)
    wide = lambda i, j: (1.0, 0.5 - 0.001 * i, 1.5 + 0.002 * i)
    parallel(R, 'rational_function', 1, 1, 5, 2, '', lambda t, k: 1.0, wide)
    parallel(R, 'rational_function', 1, 2, 5, 3, '', lambda t, k: 1.0 + 0.1 * t[0] + 0.05 * t[2], wide)
    parallel(R, 'rational_function', 1, 2, 5, 3, '', lambda t, k: 1.0 + 0.1 * t[1] + 0.05 * t[2], wide)
    step = lambda i, j: (1.0, {3: 0.9, 6: 1.05}.get(i, 0.5 - 0.001 * i), 1.5 + 0.002 * i)
    parallel(R, 'rational_function', 1, 1, 9, 2, '--nb-starting-points 3', lambda t, k: (0.8, 1.0, 1.2)[min(k, 2)], step, start=3)
    parallel(R, 'rational_function_legendre', 2, 1, 9, 3, '--nb-starting-points 3', lambda t, k: None if t[0] == 1 else (1.0, 1.2)[min(k, 1)], step, start=3)
    parallel(R, 'rational_function', 1, 1, 9, 2, '--nb-starting-points 5', lambda t, k: 0.8 if k == 0 else None, step, start=5, expect=False)
    two = lambda i, j: (1.0, {3: 0.9, 6: 1.05}.get(i, 0.5 - 0.001 * i) if j else 0.4 - 0.001 * i, 1.5 + 0.002 * i + 0.01 * j)
    swap = lambda i, j: two(i, 1 - j)
    for n in (two, swap):
        parallel(R, 'rational_function', 1, 2, 9, 2, '--nb-starting-points 3', lambda t, k: (0.8, 1.0, 1.2)[min(k, 2)], n, start=3)
    last = lambda i, j: (1.0, 0.9 if i == 1 else 0.5 - 0.001 * i, 1.5 + 0.002 * i)
    parallel(R, 'rational_function', 1, 1, 3, 2, '--nb-starting-points 2', lambda t, k: (0.8, 1.0)[min(k, 1)], last, start=2)
    parallel(R, 'rational_function', 1, 1, 3, 2, '--nb-starting-points 1', lambda t, k: 1.0, last)
    parallel(R, 'rational_function', 1, 1, 5, 3, '--use_delta', lambda t, k: 1.0 + 0.1 * t[0], wide, svd=lambda k: 2.0 + k)
    parallel(R, 'rational_function', 1, 1, 5, 3, '--use_delta', lambda t, k: 1.0 + 0.1 * t[0], wide, svd=lambda k: 5.0 - k)
    for ci in (0, 1):
        y = lambda i, j: 1.0 + 0.0625 * i + 0.25 * j
        parallel(R, 'rational_function', 2, 2, 4, 2, '--dt 0.25', lambda t, k: 1.125 + 0.25 * t[2], lambda i, j: (y(i, j), 0.75 * y(i, j), 1.25 * y(i, j)), ci=ci, given=lambda i, j: (y(i, j), 0.125, 0.125))
    eigen(R, 'rational_function', 1, 1, 5, 2, 2)
    eigen(R, 'rational_function_legendre', 2, 2, 6, 3, 2)
    eigen(R, 'rational_function', 1, 1, 3, 2, 2, 1)
    leastsquare(R, 'rational_function', 1, 1, 5, 2, 2, 1)
    leastsquare(R, 'rational_function_chebychev', 2, 2, 5, 3, 2, 1)
    leastsquare(R, 'rational_function', 1, 1, 4, 2, 2, 2)
    if R.tier != 'quick':
        for plug, nX in (('rational_function', 3), ('rational_function_legendre', 1), ('rational_function_chebychev', 2)):
            for np, nq in ((4, 1), (1, 4), (3, 3)):
                quadprog(R, plug, nX, 3, 7, np, nq)
                quadprog(R, plug, nX, 1, 35, np, nq, '--add-ls-energy --delta 2', delta=2.0, ls=True)
                eigen(R, plug, nX, 3, 7, np, nq)
                leastsquare(R, plug, nX, 3, 5, np, nq, 1)
                leastsquare(R, plug, nX, 1, 5, np, nq, 3)
        for m in (31, 32, 33, 64, 65, 97):
            quadprog(R, 'rational_function', 1, 1, m, 1, 1)
        for st in (2, 3, 4, 7, 12):
            parallel(R, 'rational_function', 1, 1, 12, 3, '--nb-starting-points %d' % st, lambda t, k: (0.8, 1.0, 1.2)[min(k, 2)], step)
            parallel(R, 'rational_function_legendre', 2, 2, 12, 4, '--nb-starting-points %d' % st, lambda t, k: None if t[1] == 2 and t[2] else (0.8, 1.0, 1.2)[min(k, 2)], step)
    R.floor('programs', 36)
    R.floor('failures', 14)
    R.floor('searches', 9)
