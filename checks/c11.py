"""Non-linear fitters minimise the residual between the function and the data."""
from models import *
from c18 import unit, through
from bounds import decider
from sym import diff, mk, ite
import interp
from interp import Unsupported

FITTERS = {'nlopt': 'sources/plugins/nonlinear_fitter_nlopt/fitter.cpp', 'ceres': 'sources/plugins/nonlinear_fitter_ceres/fitter.cpp', 'eigen': 'sources/plugins/nonlinear_fitter_eigen/fitter.cpp'}
FUNCS = [('blinn', '--func nonlinear_function_blinn'), ('beckmann', '--func nonlinear_function_beckmann'), ('diffuse', '--func nonlinear_function_diffuse'),
         ('lafortune', '--func nonlinear_function_lafortune'), ('sum', '--func [nonlinear_function_diffuse, nonlinear_function_blinn]'),
         ('product', '--func nonlinear_function_blinn --fresnel nonlinear_fresnel_schlick'), ('ward', '--func nonlinear_function_ward'), ('schlick', '--func nonlinear_fresnel_schlick')]
PTS = [[0.30, 0.10, 0.85], [-0.25, 0.20, 0.80], [0.05, -0.40, 0.70], [0.45, 0.35, 0.60], [-0.15, -0.30, 0.90], [0.60, -0.10, 0.50]]


def unitv(v):
    n = math.sqrt(sum(a * a for a in v))
    return [a / n for a in v]


ROWS = [unitv(PTS[0]) + unitv(PTS[1]), unitv(PTS[2]) + unitv(PTS[3]), unitv(PTS[4]) + unitv(PTS[5])]
RUSIN = [[0.3, 0.1, 0.6, 0.9], [0.5, 0.2, 0.4, 1.3], [0.2, 0.7, 0.3, 0.4]]


class Setup:
    def __init__(self, line, nY, inp, m):
        self.c = c = Ctx()
        c.I.env = {}
        ie, oe = enum('alta::params::input'), enum('alta::params::output')
        self.nY, self.m, self.inp = nY, m, inp
        self.nX = nX = {'CARTESIAN': 6, 'RUSIN_TH_PH_TD_PD': 4}[inp]
        self.args = cmd(c, line)
        self.f = getfn(c, self.args, mkparams(c, nX, nY, inp))
        self.rows = (ROWS if inp == 'CARTESIAN' else RUSIN)[:m]
        self.d = mkdata(c, nX, nY, [self.rows[s] + [var('d%d_%d' % (s, j)) for j in range(nY)] for s in range(m)], ie[inp], oe['INV_STERADIAN'])

    def fitter(self, tu):
        x = [y for y in self.c.P.byq.get('provide_fitter', []) if y[0] == tu]
        if not x:
            raise AnalysisError('%s exports no provide_fitter' % tu)
        return self.c.runfn(Fn(*x[0]), None, [])[1]

    def sampler(self, n):
        def s(rng):
            env = {'d%d_%d' % (i, j): rng.uniform(0.05, 2) for i in range(self.m) for j in range(self.nY)}
            env.update(('q%d' % i, rng.uniform(0.25, 0.9)) for i in range(n))
            return env
        return s


def documented(line, nY, inp, m):
    """values at each sample for parameters q, in the parametrization of the function; start and bounds of the parameters"""
    s = Setup(line, nY, inp, m)
    c = s.c
    c.mcall(s.f, 'bootstrap', [c.sptr(s.d), s.args])
    n = c.mcall(s.f, 'nbParameters', [])
    out = {'n': n, 'start': c.mvals(c.mcall(s.f, 'parameters', [])), 'lo': c.mvals(c.mcall(s.f, 'getParametersMin', [])), 'hi': c.mvals(c.mcall(s.f, 'getParametersMax', []))}
    q = [var('q%d' % i) for i in range(n)]
    c.mcall(s.f, 'setParameters', [c.vec(q)])
    fd = dims(c, s.f)
    ie = enum('alta::params::input')
    vals, cosl = [], []
    for x in s.rows:
        xin, xf, xc = c.cells(x), c.cells([UNDEF] * fd[0]), c.cells([UNDEF] * 6)
        c.call('alta::params::convert', [xin, ie[inp], fd[2], xf], nargs=4)
        c.call('alta::params::convert', [xin, ie[inp], ie['CARTESIAN'], xc], nargs=4)
        vals.append(c.mvals(c.mcall(s.f, 'value', [c.vec([c.val(Loc(xf.o, i)) for i in range(fd[0])])])))
        cosl.append(c.val(Loc(xc.o, 5)))
    out['value'], out['cos'] = vals, cosl
    return out


def cell(I, S, L, i):
    return I.load(S, Loc(L.o, (L.k or 0) + i))


class Solver:
    """stand-ins for the three solver libraries: they record what they are given and move the parameters to r0, r1, .."""

    def __init__(self, s, kind, status):
        self.s, self.kind, self.status = s, kind, status
        self.calls, self.rec, self.n = [], {}, None
        getattr(self, kind)(s.c.I)

    def quiet(self, I, *names):
        for n in names:
            I.hooks[n] = (lambda n: lambda I, S, fr, e, o, args: (self.rec.setdefault(n, []).append((args, [self.peek(I, S, a) for a in args])), 1)[1])(n)

    def peek(self, I, S, a):
        try:
            if isinstance(a, Loc) and a.o and isinstance(a.k, int):
                return [cell(I, S, a, i) for i in range(len(S.get(a.o).d) - a.k)]
            return I.load(S, a) if isinstance(a, Loc) and a.k is not None else a
        except Exception:
            return None

    def final(self, I, S, p, n):
        for i in range(n):
            I.store(S, Loc(p.o, (p.k or 0) + i), var('r%d' % i), 'solver')

    def nlopt(self, I):
        h = self.s.c.cells([0.0])
        I.hooks['nlopt_create'] = lambda I, S, fr, e, o, args: (self.rec.setdefault('nlopt_create', []).append((args, None)), h)[1]
        self.quiet(I, 'nlopt_set_lower_bounds', 'nlopt_set_upper_bounds', 'nlopt_set_maxeval', 'nlopt_set_xtol_rel', 'nlopt_set_xtol_abs', 'nlopt_set_ftol_abs', 'nlopt_set_ftol_rel',
                   'nlopt_set_maxtime', 'nlopt_set_min_objective', 'nlopt_set_max_objective', 'nlopt_destroy', 'nlopt_set_stopval')

        def optimize(I, S, fr, e, o, args):
            (fargs, _), = self.rec['nlopt_set_min_objective']
            fn = fargs[1]
            fn = I.load(S, fn) if isinstance(fn, Loc) else fn
            n = self.rec['nlopt_create'][0][0][1]
            p = args[1]
            self.start = [cell(I, S, p, i) for i in range(n)]
            for deriv in (True, False):
                q, dy = self.s.c.cells([var('q%d' % i) for i in range(n)]), self.s.c.cells([UNDEF] * n)
                r = I.call_value(S, fr, fn, [n, q, dy if deriv else interp.NULL, fargs[2]], e)
                self.calls.append((r, [cell(I, S, dy, i) for i in range(n)] if deriv else None))
            self.n = n
            self.final(I, S, p, n)
            I.store(S, args[2], var('fend'), e['l'])
            return self.status
        I.hooks['nlopt_optimize'] = optimize

    def ceres(self, I):
        def base(I, S, fr, e, L, args):
            S.w(L.o).x['blocks'] = I.alloc(S, 'vector', 'std::vector<int>', [], tu=fr.tu, et=[t['s'] for t in I.P.tus[fr.tu]['types']].index('int'))
        I.ctorhooks['ceres::CostFunction'] = base

        def nothing(I, S, fr, e, L, args):
            k = S.w(L.o)
            k.d, k.x['open'] = {}, True
            if e['f']['q'].endswith('::Summary'):
                k.d['ceres::Solver::Summary::message'] = I.mkstr(S, 'stopped')
        for n in ('ceres::Problem', 'ceres::Solver::Options', 'ceres::Solver::Summary'):
            I.ctorhooks[n] = nothing
        I.hooks['ceres::CostFunction::mutable_parameter_block_sizes'] = lambda I, S, fr, e, o, a: S.get(o.o).x['blocks']

        def residuals(I, S, fr, e, o, a):
            S.w(o.o).x['nres'] = a[0]
        I.hooks['ceres::CostFunction::set_num_residuals'] = residuals
        self.blocks = []

        def add(I, S, fr, e, o, a):
            self.blocks.append(a)
        I.hooks['ceres::Problem::AddResidualBlock'] = add

        def solve(I, S, fr, e, o, a):
            c = self.s.c
            opt = S.get(a[0].o)
            self.options = {k.rsplit('::', 1)[1]: v for k, v in (opt.d or {}).items()}
            p = self.blocks[0][2]
            p = I.load(S, p) if isinstance(p, Loc) and not isinstance(p.k, int) else p
            sizes = []
            self.loss = [b[1] for b in self.blocks]
            for b in self.blocks:
                g = b[0]
                k = S.get(g.o)
                bl = [I.load(S, Loc(k.x['blocks'].o, i)) for i in range(len(S.get(k.x['blocks'].o).d))]
                sizes.append((k.x.get('nres'), bl))
                n, r = bl[0], k.x['nres']
                if b is self.blocks[0]:
                    self.start = [cell(I, S, p, i) for i in range(n)]
                for deriv in (True, False):
                    q = c.cells([var('q%d' % i) for i in range(n)])
                    qq, y, dy = c.cells([q]), c.cells([UNDEF] * r), c.cells([UNDEF] * (r * n))
                    ok = c.mcall(g, 'Evaluate', [qq, y, c.cells([dy]) if deriv else interp.NULL])
                    self.calls.append((ok, [cell(I, S, y, i) for i in range(r)], [cell(I, S, dy, i) for i in range(r * n)] if deriv else None))
            self.sizes, self.n = sizes, n
            self.final(I, S, p, n)
            return None
        I.hooks['ceres::Solve'] = solve
        I.hooks['ceres::Solver::Summary::IsSolutionUsable'] = lambda I, S, fr, e, o, a: self.status == 0

    def eigen(self, I):
        def base(I, S, fr, e, L, args):
            S.w(L.o).x['shape'] = args
        I.ctorhooks['Eigen::DenseFunctor'] = base
        I.hooks['Eigen::DenseFunctor::inputs'] = lambda I, S, fr, e, o, a: S.get(o.o).x['shape'][0]
        I.hooks['Eigen::DenseFunctor::values'] = lambda I, S, fr, e, o, a: S.get(o.o).x['shape'][1]

        def lm(I, S, fr, e, L, args):
            S.w(L.o).x['functor'] = args[0]
        I.ctorhooks['Eigen::LevenbergMarquardt'] = lm
        I.hooks['Eigen::LevenbergMarquardt::iterations'] = lambda I, S, fr, e, o, a: 1

        def minimize(I, S, fr, e, o, a):
            c = self.s.c
            g = S.get(o.o).x['functor']
            n, m = S.get(g.o).x['shape']
            self.start = c.mvals(a[0])
            q = c.vec([var('q%d' % i) for i in range(n)])
            y = c.vec([UNDEF] * m)
            J = I.mkmat(S, [UNDEF] * (m * n), m, n, 'Eigen::Matrix<double, -1, -1>')
            r = c.mcall(g, 'operator()', [q, y])
            r2 = c.mcall(g, 'df', [q, J])
            self.calls.append((r, c.mvals(y), r2, c.mvals(J)))
            self.n, self.m = n, m
            for i in range(n):
                I.store(S, Loc(a[0].o, i), var('r%d' % i), 'solver')
            return self.status
        I.hooks['Eigen::LevenbergMarquardt::minimize'] = minimize


def same(R, key, have, want, smp, loc, fp='differs'):
    if have is UNDEF:
        return R.check(key, False, 'never set', loc, fp='undef')
    r = equal(have, want, smp)
    return R.check(key, r.equal, r.equal is False and 'is %.9g, the definition gives %.9g' % tuple(r.witness[1:3]) or r.how, loc, fp=fp)


def rng(lo, hi):
    def f(name):
        if name[0] == 'q':
            return (0.2, 0.95)
        if name[0] == 'd':
            return (0.0, 10.0)
        return (-1e9, 1e9)
    return f


STATUS = {'nlopt': ((1, True), (3, True), (6, True), (-1, False), (-5, False)), 'ceres': ((0, True), (1, False)), 'eigen': ((1, True), (2, True), (5, True), (0, False), (9, False))}


def fit(R, kind, flabel, line, opts, nY, inp, m, status, ok, full=True):
    lab = '%s%s/%s nY=%d %s m=%d status=%s' % (kind, opts and ' ' + opts, flabel, nY, inp, m, status)
    tu = FITTERS[kind]
    with R.guard(lab, tu):
        line = (line + ' ' + opts).strip()
        D = documented(line, nY, inp, m)
        n = D['n']
        s = Setup(line, nY, inp, m)
        c = s.c
        c.I.assumef = decider(rng(0, 1))
        sol = Solver(s, kind, status)
        F = s.fitter(tu)
        c.mcall(F, 'set_parameters', [s.args])
        fit = c.sptr(s.f)
        r = c.mcall(F, 'fit_data', [c.sptr(s.d), fit, s.args])
        R.check(lab + '/result', r is ok or r == ok, 'fit_data gives %s' % (r,), tu, fp='%s' % (r,))
        smp = s.sampler(n)
        if n == 0 and sol.n is None:
            R.saw(c)
            return R.count('fits')
        R.check(lab + '/parameters', sol.n == n, '%s parameters are optimised, the function has %d' % (sol.n, n), tu, fp=sol.n)
        for i in range(n):
            same(R, lab + '/start%d' % i, sol.start[i], D['start'][i], smp, tu)
        options(R, lab, kind, sol, opts, tu)
        if ok:
            p = c.mvals(c.mcall(s.f, 'parameters', []))
            wrong = [i for i in range(n) if p[i] is not var('r%d' % i)]
            R.check(lab + '/outcome', not wrong, 'parameters %s of the function are not those found by the solver' % wrong, tu, fp=wrong)
        w = D['cos'] if 'fit-with-cosine' in opts else [1.0] * m
        f = [[w[k] * D['value'][k][j] for j in range(nY)] for k in range(m)]
        d = [[var('d%d_%d' % (k, j)) for j in range(nY)] for k in range(m)]
        if 'log-fit' in opts:
            lg = lambda t: sym.fun('log', 1.0 + t)
            f, d = [[lg(t) for t in x] for x in f], [[lg(t) for t in x] for x in d]
        q = [var('q%d' % i) for i in range(n)]
        if full:
            res = {(k, j): f[k][j] - d[k][j] for k in range(m) for j in range(nY)}
            if kind == 'nlopt':
                obj = sum((res[t] * res[t] for t in sorted(res)), 0.0)
                for v, g in sol.calls:
                    same(R, lab + '/objective', v, obj, smp, tu)
                    if g:
                        for i in range(n):
                            same(R, lab + '/gradient%d' % i, g[i], diff(obj, 'q%d' % i), smp, tu)
                for side, name in (('lo', 'nlopt_set_lower_bounds'), ('hi', 'nlopt_set_upper_bounds')):
                    have = sol.rec.get(name)
                    if R.check(lab + '/' + name, bool(have), 'the solver is not told the bounds of the parameters', tu, fp='none'):
                        if R.check(lab + '/%s/length' % name, len(have[-1][1][1]) >= n, 'the solver is given %d bounds for %d parameters' % (len(have[-1][1][1]), n), tu, fp='short'):
                          for i in range(n):
                            same(R, lab + '/%s%d' % (name, i), have[-1][1][1][i], D[side][i], smp, tu)
            else:
                got, jac = {}, {}
                if kind == 'ceres':
                    R.check(lab + '/blocks', len(sol.sizes) == m and all(t == (nY, [n]) for t in sol.sizes), 'residual blocks %s for %d samples of %d channels and %d parameters' % (sol.sizes[:3], m, nY, n), tu, fp='blocks')
                    for b, (okk, y, dy) in enumerate(sol.calls):
                        R.check(lab + '/accepted%d' % b, okk is True or okk == 1, 'parameters inside the bounds are refused', tu, fp='refused')
                        for j in range(nY):
                            got[b // 2, j, b % 2] = y[j]
                            if dy:
                                for i in range(n):
                                    jac[b // 2, j, i] = dy[j * n + i]
                else:
                    okk, y, ok2, J = sol.calls[0]
                    R.check(lab + '/accepted', okk == 0 and ok2 == 0, 'parameters inside the bounds are refused', tu, fp='refused')
                    R.check(lab + '/rows', len(y) == m * nY, '%d residuals for %d samples of %d channels' % (len(y), m, nY), tu, fp=len(y))
                    # which residual a row holds is the fitter's choice; rows and Jacobian have to agree
                    left = dict(res)
                    for row in range(len(y)):
                        hit = [t for t in sorted(left) if y[row] is not UNDEF and (equal(y[row], -left[t], smp).equal or equal(y[row], left[t], smp).equal)]
                        if R.check(lab + '/row%d' % row, bool(hit), 'row %d is no residual of a sample and channel, or one that occurs twice' % row, tu, fp='row'):
                            t = hit[0]
                            del left[t]
                            got[t[0], t[1], 0] = y[row]
                            for i in range(n):
                                jac[t[0], t[1], i] = J[row * n + i] if jac_rowmajor(s) else J[i * len(y) + row]
                for (k, j, v), y in sorted(got.items()):
                    sgn = [g for g in (1.0, -1.0) if y is not UNDEF and equal(y, g * res[k, j], smp).equal]
                    R.check(lab + '/residual%d_%d_%d' % (k, j, v), bool(sgn), 'residual of sample %d channel %d is not the difference of function and data' % (k, j), tu, fp='residual')
                    for i in range(n):
                        if sgn and v == 0:
                            same(R, lab + '/jacobian%d_%d_%d' % (k, j, i), jac[k, j, i], diff(sgn[0] * res[k, j], 'q%d' % i), smp, tu)
        for kk, msg, loc, pc in list(c.I.events):
            if kk in ('oob', 'uninit', 'null-deref', 'shape', 'mismatch', 'double-free', 'assert', 'throw') and 'fend' not in msg:
                R.check('%s/%s' % (lab, kk), False, msg, loc, fp=msg[:40])
        R.saw(c)
        R.count('fits')


def options(R, lab, kind, sol, opts, tu):
    """the settings named on the command line are those the solver is given"""
    w = opts.split()
    for k, a in enumerate(w):
        v = w[k + 1] if k + 1 < len(w) else None
        if kind == 'nlopt' and a in NLSET:
            for name in sorted(set(NLSET.values())):
                have = sol.rec.get(name, [([None, None], None)])[-1][0][1]
                if name == NLSET[a]:
                    R.check('%s/%s' % (lab, a), have is not None and have == float(v), '%s %s gives %s(%s)' % (a, v, name, have), tu, fp='%s' % (have,))
                else:
                    R.check('%s/%s not %s' % (lab, a, name), have is None or have != float(v), '%s %s gives %s(%s)' % (a, v, name, have), tu, fp='%s' % (have,))
        if kind == 'nlopt' and a == '--nlopt-optimizer':
            have = sol.rec['nlopt_create'][0][0][0]
            R.check('%s/%s' % (lab, a), have == enum('nlopt_algorithm')[NLALG[v]], 'optimizer %s is %s' % (v, have), tu, fp='%s' % (have,))
        if kind == 'ceres' and a in CESET:
            for b, name in sorted(CESET.items()):
                have = sol.options.get(name)
                if b == a:
                    R.check('%s/%s' % (lab, a), have is not None and have is not UNDEF and have == float(v), '%s %s gives %s = %s' % (a, v, name, have), tu, fp='%s' % (have,))
                else:
                    R.check('%s/%s not %s' % (lab, a, name), have is None or have is UNDEF or have != float(v), '%s %s gives %s = %s' % (a, v, name, have), tu, fp='%s' % (have,))
        if kind == 'ceres' and a == '--ceres-factorization':
            want = enum('ceres::LinearSolverType')[{'normal-cholesky': 'DENSE_NORMAL_CHOLESKY', 'qr': 'DENSE_QR'}[v]]
            have = sol.options.get('linear_solver_type')
            R.check('%s/%s' % (lab, a), have == want, '%s %s gives %s' % (a, v, have), tu, fp='%s' % (have,))


NLSET = {'--nlop-max-num-iterations': 'nlopt_set_maxeval', '--nlop-relative-function-tolerance': 'nlopt_set_ftol_rel', '--nlop-abs-function-tolerance': 'nlopt_set_ftol_abs', 'x': 'nlopt_set_xtol_rel'}
NLALG = {'local-COBYLA': 'NLOPT_LN_COBYLA', 'local-BOBYQA': 'NLOPT_LN_BOBYQA', 'local-NEWUOA': 'NLOPT_LN_NEWUOA_BOUND', 'local-PRAXIS': 'NLOPT_LN_PRAXIS', 'local-Nelder-Mead': 'NLOPT_LN_NELDERMEAD',
         'global-crs': 'NLOPT_GN_CRS2_LM', 'global-stogo': 'NLOPT_GD_STOGO', 'global-isres': 'NLOPT_GN_ISRES', 'local-mma': 'NLOPT_LD_MMA', 'local-sqp': 'NLOPT_LD_SLSQP', 'none-such': 'NLOPT_LD_SLSQP'}
CESET = {'--ceres-max-num-iterations': 'max_num_iterations', '--ceres-function-tolerance': 'function_tolerance', '--ceres-gradient-tolerance': 'gradient_tolerance', '--ceres-parameter-tolerance': 'parameter_tolerance'}


def wrongkind(R, kind):
    """a function that is not non-linear is refused"""
    tu = FITTERS[kind]
    with R.guard(kind + '/wrong kind of function', tu):
        s = Setup('--func rational_function_legendre', 1, 'RUSIN_TH_PH_TD_PD', 1)
        c = s.c
        sol = Solver(s, kind, 0)
        r = c.mcall(s.fitter(tu), 'fit_data', [c.sptr(s.d), c.sptr(s.f), s.args])
        R.check(kind + '/rational function', r is False or r == 0, 'fit_data of a rational function gives %s' % (r,), tu, fp='%s' % (r,))
        R.check(kind + '/rational function: no solve', sol.n is None, 'the solver is run', tu, fp='solved')
        R.count('fits')


def jac_rowmajor(s):
    return False


def run(R):
    R.rule('each fitter is run on symbolic data values and parameters with stand-ins for the solver libraries: the objective or residuals handed to the solver are the differences between the '
           'function (evaluated in its own parametrization) and the data, the gradient or Jacobian is their derivative, solver start, bounds and result are those of the function, and failure is reported')
    deep = R.tier != 'quick'
    for kind in FITTERS:
        for flabel, line in FUNCS if deep else FUNCS[:6]:
            fit(R, kind, flabel, line, '', 2, 'CARTESIAN', 2, *STATUS[kind][0])
        fit(R, kind, 'blinn', FUNCS[0][1], '', 3, 'RUSIN_TH_PH_TD_PD', 3, *STATUS[kind][0])
        fit(R, kind, 'beckmann', FUNCS[1][1], '', 1, 'RUSIN_TH_PH_TD_PD', 3, *STATUS[kind][0])
        for st, ok in STATUS[kind][1:]:
            fit(R, kind, 'blinn', FUNCS[0][1], '', 1, 'CARTESIAN', 1, st, ok, False)
        wrongkind(R, kind)
    for a in sorted(NLSET)[:3]:
        fit(R, 'nlopt', 'blinn', FUNCS[0][1], a + (' 7' if 'num' in a else ' 0.015625'), 1, 'CARTESIAN', 1, 1, True, False)
    for a in sorted(NLALG):
        fit(R, 'nlopt', 'blinn', FUNCS[0][1], '--nlopt-optimizer ' + a, 1, 'CARTESIAN', 1, 1, True, False)
    for a in sorted(CESET):
        fit(R, 'ceres', 'blinn', FUNCS[0][1], a + (' 7' if 'num' in a else ' 0.015625'), 1, 'CARTESIAN', 1, 0, True, False)
    for a in ('normal-cholesky', 'qr'):
        fit(R, 'ceres', 'blinn', FUNCS[0][1], '--ceres-factorization ' + a, 1, 'CARTESIAN', 1, 0, True, False)
    for flabel, line in FUNCS[:3]:
        fit(R, 'ceres', flabel, line, '--log-fit', 2, 'CARTESIAN', 2, 0, True)
        fit(R, 'eigen', flabel, line, '--fit-with-cosine', 2, 'CARTESIAN', 2, 1, True)
    fit(R, 'eigen', 'blinn', FUNCS[0][1], '--fit-with-cosine', 2, 'RUSIN_TH_PH_TD_PD', 2, 1, True)
    for src, line, nY, m in (('SPHERICAL_TL_PL_TV_PV', FUNCS[0][1], 2, 3), ('RUSIN_TH_PH_TD_PD', FUNCS[0][1], 1, 2), ('CARTESIAN', FUNCS[0][1], 3, 1), ('RUSIN_TH_PH_TD_PD', FUNCS[1][1], 3, 2), ('SPHERICAL_TL_PL_TV_PV', FUNCS[1][1], 1, 4)):
        reparametrized(R, src, line, nY, m)
    R.floor('data sets', 5)
    R.floor('fits', 56)


def reparametrized(R, src, line, nY, m):
    """--change-param: the data in the coordinates of the function"""
    lab, loc = 'change-param %s -> %s nY=%d' % (src, line[7:], nY), 'sources/core/data.h'
    with R.guard(lab, loc):
        c = Ctx()
        c.I.env = {}
        ie, oe = enum('alta::params::input'), enum('alta::params::output')
        xs = [through(unit(0.5 + 0.3 * k, 0.2 - k) + unit(0.9 - 0.2 * k, 2.3 + k), 'CARTESIAN', src) for k in range(m)]
        nX = len(xs[0])
        a = cmd(c, line + ' --change-param')
        f = getfn(c, a, mkparams(c, nX, nY, src))
        want = dims(c, f)
        d = c.sptr(mkdata(c, nX, nY, [x + [var('d%d_%d' % (k, j)) for j in range(nY)] for k, x in enumerate(xs)], ie[src], oe['INV_STERADIAN']))
        try:
            c.call('alta::plugins_manager::check_compatibility', [d, c.sptr(f), a])
        except (Noret, Unsupported) as e:
            if isinstance(e, Unsupported) and 'undef' not in str(e):
                raise
            R.check(lab + '/completes', False, 'changing the coordinates never completes: %s' % e, loc, fp='noreturn')
            return
        g = c.S.get(d.o).d['p']
        R.saw(c)
        R.count('data sets')
        q = c.mcall(g, 'parametrization', [])
        have = tuple(c.mcall(q, t, []) for t in ('dimX', 'dimY', 'input_parametrization'))
        dst = enumname('alta::params::input', want[2])
        if not R.check(lab + '/parametrization', have == (want[0], nY, want[2]), 'the data have %s, the function %s' % (have, want), loc, fp='parametrization'):
            return
        if not R.check(lab + '/size', c.mcall(g, 'size', []) == m, 'samples are lost', loc, fp='size'):
            return
        cs = [through(x, src, dst) for x in xs]
        for k, x in enumerate(xs):
            try:
                got = c.mvals(c.mcall(g, 'get', [k]))
            except (Noret, Unsupported) as e:
                if isinstance(e, Unsupported) and 'undef' not in str(e):
                    raise
                R.check('%s/sample%d' % (lab, k), False, 'sample %d cannot be read' % k, loc, fp='unreadable')
                continue
            exp = cs[k] + [var('d%d_%d' % (k, j)) for j in range(nY)]
            if R.check('%s/sample%d' % (lab, k), len(got) == len(exp), 'sample %d has %d numbers instead of %d' % (k, len(got), len(exp)), loc, fp='length'):
                for j, (u, v) in enumerate(zip(got, exp)):
                    good = u is v or isinstance(u, (int, float)) and isinstance(v, (int, float)) and abs(u - v) < 1e-9
                    R.check('%s/sample%d/%d' % (lab, k, j), good, 'number %d of sample %d is %s instead of %s' % (j, k, show(u)[:50] if u is not UNDEF else 'unset', show(v)[:50]), loc, fp='number')
        for name, pick in (('min', min), ('max', max)):
            b = c.mvals(c.mcall(g, name, []))
            R.check(lab + '/' + name, len(b) == want[0] and all(isinstance(u, (int, float)) and abs(u - pick(x[j] for x in cs)) < 1e-9 for j, u in enumerate(b)), 'the domain is %s' % ([show(u)[:20] if u is not UNDEF else None for u in b],), loc, fp=name)
