"""Parameter Jacobian = derivative of the value."""
from models import *


def modes():
    """(label, tu, prep) for every analytic model and every lobe type it offers"""
    for tu in plugin_tus():
        n = plugin_name(tu)
        if n == 'nonlinear_function_spherical_gaussian':
            for t in ('mirror', 'half', 'retro', 'back', 'moment'):
                yield n + '/' + t, tu, boot(('sg-type', t))
        elif n == 'nonlinear_function_retrobeckmann':
            yield n + '/back', tu, boot()
            yield n + '/retro', tu, boot(('retro', ''))
        elif n == 'nonlinear_function_lafortune':
            for v in (1, 2):
                yield n + '/lobes=%d' % v, tu, (lambda m, v=v: m.c.mcall(m.f, 'setNbLobes', [v]))
        else:
            yield n, tu, None


def boot(*kv):
    """choose the lobe type as the fitters do: through bootstrap and its arguments"""
    def prep(m):
        a = m.c.new(CORE, 'alta::arguments')
        for k, v in kv:
            m.c.mcall(a, 'update', [m.c.string(k), m.c.string(v)])
        m.c.mcall(m.f, 'bootstrap', [m.c.sptr(NULL), a])
    return prep


def where(tu):
    return tu


def entry(R, key, loc, v, j, i, k, m):
    with R.guard(key, loc):
        r = equal(j, diff(v, 'p%d' % k), m.sampler(), n=16 if R.tier == 'quick' else 60, extra=160 if R.tier == 'quick' else 600, skipnan=True)
        msg = ''
        if r.equal is False:
            e, x, y = r.witness
            msg = 'entry (channel %d, parameter %d) is %.6g, the derivative of the value is %.6g at %s' % (i, k, x, y, {a: round(b, 4) for a, b in e.items()})
        elif r.equal is None:
            msg = r.how
        R.check(key, r.equal, msg, loc, fp='differs')


def run(R):
    R.rule('for every analytic model, lobe type and channel count, the value graph is differentiated symbolically with respect to each parameter as numbered by setParameters '
           'and compared with entry [channel * nbParameters + parameter] of parametersJacobian; its size is channels * parameters; no entry is read before it is written or outside its vector')
    for label, tu, prep in modes():
        for nY in (1, 2, 3) if R.tier == 'quick' else (1, 2, 3, 4):
            key = '%s/nY=%d' % (label, nY)
            R.count('models')
            try:
                m = Model(tu, nY, prep)
                n = m.setp()
                v, j = m.value(), m.jac()
            except Exception as e:
                R.undecided(key, '%s: %s' % (type(e).__name__, e), tu)
                continue
            R.saw(m.c)
            bad = [e for e in m.c.I.events if e[0] in ('oob', 'uninit', 'null-deref')]
            R.check(key + '/memory', not bad, '; '.join('%s %s' % (e[0], e[1]) for e in bad[:3]), bad[0][2] if bad else tu, fp=sorted({e[0] for e in bad}))
            if not R.check(key + '/size', len(v) == nY and len(j) == nY * n, '%d values and %d derivatives for %d channels and %d parameters' % (len(v), len(j), nY, n), tu, fp=(len(v), len(j))):
                continue
            if n and all(isinstance(x, (int, float)) and x == 0 for x in j):
                if nY == 1:
                    R.check(label + '/implemented', False, 'every derivative is the constant 0', tu, fp='zero')
                continue
            for i in range(nY):
                for k in range(n):
                    R.count('derivatives')
                    entry(R, '%s/d%d,%d' % (key, i, k), tu, v[i], j[i * n + k], i, k, m)
    R.floor('models', 30)
    R.floor('discharged', 100)
