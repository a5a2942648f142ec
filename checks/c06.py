"""Saving a function and loading the file gives the same function."""
from models import *

LINES = [
    '--func nonlinear_function_abc', '--func nonlinear_function_beckmann', '--func nonlinear_function_blinn', '--func nonlinear_function_diffuse',
    '--func nonlinear_function_lafortune', '--func nonlinear_function_sgd', '--func nonlinear_function_ward',
    '--func nonlinear_function_retrobeckmann', '--func nonlinear_function_retrobeckmann --retro', '--func nonlinear_function_retroblinn', '--func nonlinear_function_retroyoo',
    '--func nonlinear_fresnel_schlick', '--func nonlinear_fresnel_normalized_schlick', '--func nonlinear_fresnel_retroschlick',
    '--func nonlinear_shadowing_schlick', '--func nonlinear_shadowing_smith', '--func nonlinear_shadowing_walter_smith',
] + ['--func nonlinear_function_spherical_gaussian --sg-type ' + t for t in ('mirror', 'half', 'retro', 'back', 'moment')] + [
    '--func [nonlinear_function_blinn, nonlinear_function_diffuse]', '--func [nonlinear_function_diffuse, nonlinear_function_beckmann, nonlinear_function_ward]',
    '--func [nonlinear_function_beckmann, nonlinear_function_beckmann]',
    '--func nonlinear_function_ward --fresnel nonlinear_fresnel_schlick', '--func nonlinear_function_beckmann --fresnel [nonlinear_fresnel_schlick]',
    '--func [nonlinear_function_diffuse, nonlinear_function_blinn --fresnel nonlinear_fresnel_schlick]',
]
LOBES = (2, 3)


def roundtrip(R, label, line, nY, prep=None, path='out.func'):
    F = 'sources/core/function.cpp'
    with R.guard(label, F):
        c = Ctx()
        c.I.env = {}
        nX = 6
        a = cmd(c, line)
        f = getfn(c, a, mkparams(c, nX, nY))
        if not R.check(label + '/created', isinstance(f, Loc) and f.o != 0, 'no function for "%s"' % line, 'sources/core/plugins_manager.cpp', fp='null'):
            return
        loc = c.S.get(f.o).x['tu']
        if prep:
            prep(c, f)
        else:
            ie, oe = enum('alta::params::input'), enum('alta::params::output')
            d = mkdata(c, nX, nY, [[0.1, 0.2, 0.8, -0.3, 0.2, 0.7] + [var('d%d_%d' % (i, j)) for j in range(nY)] for i in range(2)], ie['CARTESIAN'], oe['INV_STERADIAN'])
            c.mcall(f, 'bootstrap', [c.sptr(d), a])
        n = c.mcall(f, 'nbParameters', [])
        p = [var('p%d' % i) for i in range(n)]
        c.mcall(f, 'setParameters', [c.vec(p)])
        fd = dims(c, f)
        x = [var('x%d' % i) for i in range(fd[0])]
        v = c.mvals(c.mcall(f, 'value', [c.vec(x)]))
        try:
            c.mcall(f, 'save', [c.string(path), a])
        except Noret as e:
            R.check(label + '/saves', False, 'save never completes', [x[2] for x in c.I.events if x[0] in ('noreturn', 'throw', 'assert')][-1:] and c.I.events[-1][2] or loc, fp='nosave')
            return
        text = written(c, path)
        if not R.check(label + '/written', text is not None, 'nothing was written', loc, fp='nofile'):
            return
        low = [t for t in text if isinstance(t, Num) and isinstance(t.prec, int) and t.prec < 6]
        R.check(label + '/digits', not low, 'numbers are written with fewer than 6 digits', loc, fp='digits')
        if any(isinstance(t, tuple) for t in text):
            R.undecided(label, 'the text depends on a condition')
            return
        c.I.files[path] = text
        try:
            g = c.call('alta::plugins_manager::load_function', [c.string(path)])
        except Noret as e:
            R.check(label + '/loads', False, 'loading the saved file never completes', c.I.events and c.I.events[-1][2] or loc, fp='noload')
            return
        R.saw(c)
        if not R.check(label + '/loads', isinstance(g, Loc) and g.o != 0, 'the file written by save is refused', loc, fp='refused'):
            return
        R.check(label + '/class', c.S.get(g.o).x['cn'] == c.S.get(f.o).x['cn'], 'saved %s, loaded %s' % (c.S.get(f.o).x['cn'], c.S.get(g.o).x['cn']), loc, fp='class')
        gd = dims(c, g)
        R.check(label + '/descriptor', gd == fd, 'dimensions and parametrizations %s become %s' % (fd, gd), loc, fp='descriptor')
        gp = c.mvals(c.mcall(g, 'parameters', []))
        R.check(label + '/count', len(gp) == n, '%d parameters become %d' % (n, len(gp)), loc, fp=len(gp))
        rng = sampler(c, fd, n)
        wrong = [i for i in range(min(n, len(gp))) if gp[i] is not p[i] and (gp[i] is UNDEF or equal(gp[i], p[i], rng).equal is False)]
        R.check(label + '/parameters', not wrong, 'parameters %s differ after loading: %s' % (wrong, [show(gp[i])[:30] for i in wrong[:4]]), loc, fp=wrong)
        w = c.mvals(c.mcall(g, 'value', [c.vec(x)]))
        for i in range(nY):
            if i >= len(v) or i >= len(w):
                R.check('%s/value%d' % (label, i), False, 'channel missing', loc, fp='missing')
                continue
            r = equal(v[i], w[i], rng)
            R.check('%s/value%d' % (label, i), r.equal, r.equal is False and 'value %.6g becomes %.6g after loading' % tuple(r.witness[1:3]) or r.how, loc, fp='differs')


def sampler(c, fd, n):
    inpn = enumname('alta::params::input', fd[2])

    def smp(rng, special=False):
        env = {'x%d' % i: t for i, t in enumerate((xspecial if special else xsample)(rng, inpn, fd[0]))}
        env.update(('p%d' % i, rng.uniform(0.15, 1.9)) for i in range(n))
        return env
    smp.special = lambda rng: smp(rng, True)
    return smp


def run(R):
    R.rule('for every analytic model (each lobe type and lobe count), sums and products given on a command line: the text that save writes for symbolic parameters, read back by the '
           'plugin manager through the same command line, gives an object of the same class, descriptor, parameters and value graph')
    for line in LINES:
        for nY in (1, 3) if R.tier == 'quick' else (1, 2, 3, 4):
            R.count('round trips')
            roundtrip(R, '%s/nY=%d' % (line[7:], nY), line, nY)
    for line in LINES[:2] + LINES[6:8] + LINES[-6:]:
        # the format of the library, asked for by name
        R.count('round trips')
        roundtrip(R, '%s/nY=1/export' % line[7:], line + ' --export alta', 1)
    for k in LOBES:
        for nY in (1, 3) if R.tier == 'quick' else (1, 2, 3, 4):
            R.count('round trips')
            roundtrip(R, 'lafortune lobes=%d/nY=%d' % (k, nY), '--func nonlinear_function_lafortune', nY, lambda c, f: c.mcall(f, 'setNbLobes', [k]))
    R.floor('round trips', 50)
    R.floor('discharged', 520)
