"""The iterations of parallel loops do not race on objects they share."""
from models import *
from dataset import segment
import graph
import race
import interp
import c10

D2D = 'sources/softs/data2data/main.cpp'


def critical(x):
    return x['k'] == 'omp' and x.get('d') in ('critical', 'atomic')


def label(x):
    return 'critical(%s)' % x.get('name', '') if x['d'] == 'critical' else 'atomic'


def without_criticals(n):
    """copy of a body in which critical sections are empty"""
    if isinstance(n, list):
        return [without_criticals(v) for v in n]
    if isinstance(n, dict):
        if n.get('k') == 'omp' and critical(n):
            return {'k': 'null', 'l': n['l']}
        return {k: without_criticals(v) for k, v in n.items()}
    return n


def static(R):
    G = graph.Graph()
    regs = G.regions()
    for f, fn, x in regs:
        lab = '%s/%s' % (f.split('/')[-2] + '/' + f.split('/')[-1], fn['n'])
        ctx = [('', without_criticals(x['b']))] + [(label(y), y['b']) for y in graph.walk(x['b']) if y['k'] == 'omp' and critical(y)]
        uses, bodies = {}, 0
        for name, body in ctx:
            reach = G.reach(f, body)
            todo = [(f, body, x['l'])] + [(t, n, n['l']) for t, n, l in reach.values()]
            bodies += len(todo)
            for t, n, l in todo:
                for g, w, loc in G.uses(t, n):
                    uses.setdefault(g, []).append((name, w, loc, n.get('q', fn['q'])))
                for q, loc in G.unsafe_calls(n):
                    uses.setdefault(('state of %s' % q, '', ''), []).append((name, True, loc, n.get('q', fn['q'])))
            R.functions.update('%s @ %s' % (n.get('q', fn['q']), n['l']) for t, n, l in todo)
        for g, us in sorted(uses.items()):
            bad = [(a, b) for a in us if a[1] for b in us if not (a[0] and a[0] == b[0])]
            R.check('%s/static %s' % (lab, g[0]), not bad, '%s writes it in every iteration%s' % ((bad[0][0][3], ' of a section that does not exclude %s' % bad[0][1][2] if bad[0][0][0] else '') if bad else ('', '')),
                    bad[0][0][2] if bad else None, fp=g[0])
            R.count('static variables')
        # variables of the enclosing function that the body assigns directly
        inside = {v['d'] for y in graph.walk(x['b']) for v in decls(y)}
        priv = set(race.private_vars(x))
        accesses = {}
        for name, body in ctx:
            for y in graph.walk(body):
                if y['k'] in ('asg', 'casg') or y['k'] == 'un' and ('++' in y['op'] or '--' in y['op']):
                    t = y['a'] if y['k'] != 'un' else y['e']
                    if t['k'] == 'ref' and 'g' not in t and t['d'] not in inside and t['d'] not in priv:
                        accesses.setdefault((t['d'], t['n']), []).append((name, y['l']))
        for (d, n), a in sorted(accesses.items()):
            bad = [y for y in a if not y[0]] or ([a[0]] if len({y[0] for y in a}) > 1 else [])
            R.check('%s/shared %s' % (lab, n), not bad, 'every iteration writes it' + ('' if not bad or not bad[0][0] else ' in sections that do not exclude each other'), bad[0][1] if bad else None, fp=n)
            R.count('shared variables')
        R.count('regions')
        R.count('bodies', bodies)


def decls(y):
    if y['k'] == 'decl':
        return [v for v in y.get('v', y.get('d', [])) if isinstance(v, dict) and 'd' in v]
    if y['k'] in ('rfor',) and isinstance(y.get('v'), dict):
        return [y['v']]
    return []


def verdict(R, lab, w, I, least):
    if not R.check(lab + '/regions', len(w.regions) > 0, 'no parallel loop is run', None, fp='none'):
        return
    n = 0
    for r in w.regions:
        n = max(n, r.iterations)
        seen = set()
        for o, k, a, b, bw in r.conflicts():
            if (o, a, b) in seen:
                continue
            seen.add((o, a, b))
            R.check('%s/%s %s' % (lab, r.desc.get(o, 'object'), k), False, 'written in one iteration at %s and %s in another at %s without a common critical section' % (a, 'written' if bw else 'read', b), a, fp='%s %s' % (a.rsplit(':', 1)[0], k))
        R.check(lab + '/race free', not seen, '%d races' % len(seen), r.node['l'], fp='races')
        R.count('cells', len(r.acc))
    R.count('iterations', n)
    R.check(lab + '/iterations', n >= least, 'the parallel loop has only %d iterations' % n, w.regions[0].node['l'], fp=n)


def parallel(R, plug, nX, nY, m, N, opts):
    lab = 'parallel fitter/%s nX=%d nY=%d N=%d %s' % (plug, nX, nY, N, opts)
    with R.guard(lab, c10.FIT['parallel']):
        P = c10.Prob('parallel', plug, nX, nY, m, '--min-np %d --nb-starting-points 3 %s' % (N, opts), lambda i, j: (1.0, 0.5 - 0.001 * i + 0.1 * j, 1.5 + 0.002 * i + 0.1 * j))
        calls = []

        def script(k, n, q):
            calls.append(n)
            x = [0.25 + 0.5 * (len(calls) % 3)] + [0.0] * (n - 2) + [1.0] if len(calls) % 7 != 6 else None
            return x or [0.5] * n, (1.0 if x else c10.INF)
        c10.QP(P, script)
        P.c.I.assumef = c10.interp_assume
        if 'use_delta' in opts:
            I = P.c.I

            def ctor(I, S, fr, e, L, args):
                k = S.w(L.o)
                A = c10.mat(P.c, args[0])
                k.d, k.x['open'] = {}, True
                k.x['sv'] = I.mkmat(S, [3.0] * min(A[0], A[1]), min(A[0], A[1]), 1, 'Eigen::Matrix<double, -1, 1>')
            for n in ('JacobiSVD', 'BDCSVD'):
                I.ctorhooks['Eigen::' + n] = ctor
            for n in ('JacobiSVD', 'BDCSVD', 'SVDBase'):
                I.hooks['Eigen::%s::singularValues' % n] = lambda I, S, fr, e, o, a: S.get(o.o).x['sv']
        w = P.c.I.omp = race.Watch(P.c.I)
        try:
            P.run()
        finally:
            P.c.I.omp = None
        verdict(R, lab, w, P.c.I, N - 1)
        R.saw(P.c)


def conversion(R, inp, outp, nY):
    """data2data: the loop that evaluates the input at the coordinates of the output"""
    lab = 'data2data/%s to %s nY=%d' % (inp, outp, nY)
    with R.guard(lab, D2D):
        c = Ctx()
        c.I.env = {}
        ie, oe = enum('alta::params::input'), enum('alta::params::output')
        oname = {1: 'INV_STERADIAN', 3: 'RGB_COLOR'}[nY]
        di, do = dimensions(inp), dimensions(outp)
        rows = [[0.2 + 0.1 * (i + k) for k in range(do)] + [0.0] * nY for i in range(4)]
        if outp == 'CARTESIAN':
            rows = [unit(0.3 * i) + unit(-0.2 * i if i != 2 else 2.5) + [0.0] * nY for i in range(4)]
        src = mkdata(c, di, nY, [[0.1] * di + [1.0] * nY] * 3, ie[inp], oe[oname])
        dst = mkdata(c, do, nY, rows, ie[outp], oe[oname])
        # the value of the input is that of any data class: it only reads its object
        c.I.hooks['alta::vertical_segment::value'] = c.I.hooks['alta::data::value'] = lambda I, S, fr, e, o, a: value(c, S, o, nY)
        x = c.P.byq.get('convert_with_interpolation', [])
        if not x:
            # the loop may live in another function of the program
            g = graph.Graph()
            x = [(f, fn) for f, fn, n in g.regions() if f == D2D]
        w = c.I.omp = race.Watch(c.I)
        try:
            c.runfn(Fn(*x[0]), None, [c.sptr(src), c.sptr(dst)])
        finally:
            c.I.omp = None
        verdict(R, lab, w, c.I, 4)
        R.saw(c)


def dimensions(name):
    import conv
    return conv.dimension(enum('alta::params::input')[name])


def unit(t):
    return [math.sin(t), 0.0, math.cos(t)]


def value(c, S, o, nY):
    return c.I.mkmat(S, [var('v%d' % j) for j in range(nY)], nY, 1, 'Eigen::Matrix<double, -1, 1>')


def run(R):
    R.rule('for every parallel loop: (1) no function the body may call writes a variable with static storage, or calls a library function with hidden state, outside one critical section; '
           '(2) the body assigns no variable of the enclosing function outside a critical section or reduction; (3) executed on abstract data, two iterations touch one cell of an object made before the loop, one of them writing, '
           'only in critical sections of one name')
    static(R)
    parallel(R, 'rational_function', 1, 1, 5, 4, '')
    parallel(R, 'rational_function_legendre', 2, 2, 6, 5, '')
    parallel(R, 'rational_function_chebychev', 1, 2, 7, 4, '--use_delta')
    parallel(R, 'rational_function', 2, 1, 9, 7, '')
    conversion(R, 'RUSIN_TH_TD', 'CARTESIAN', 1)
    conversion(R, 'RUSIN_TH_TD_PD', 'CARTESIAN', 3)
    conversion(R, 'RUSIN_TH_TD_PD', 'RUSIN_TH_PH_TD_PD', 3)
    if R.tier != 'quick':
        for plug in ('rational_function', 'rational_function_legendre', 'rational_function_chebychev'):
            for nX, nY in ((1, 3), (3, 1), (2, 3)):
                parallel(R, plug, nX, nY, 11, 8, '')
                parallel(R, plug, nX, nY, 8, 6, '--use_delta')
        for a in ('RUSIN_TH_TD', 'STARK_2D', 'RETRO_TL_TVL_PROJ_DPHI', 'SPHERICAL_TL_PL_TV_PV', 'COS_TH'):
            for b in ('CARTESIAN', 'SPHERICAL_TL_PL_TV_PV', 'RUSIN_TH_TD_PD'):
                conversion(R, a, b, 3)
    R.floor('regions', 2)
    R.floor('bodies', 300)
    R.floor('iterations', 20)
    R.floor('cells', 300)
