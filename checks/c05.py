"""Parameter vector: what is set is what is read, and every vector indexed by parameters has the same size."""
from models import *
from c04 import modes

E_PLUS = 1e300


def run(R):
    R.rule('for every analytic model, lobe type and channel count: parameters() after setParameters(p) is the graph vector p itself; parameters(), getParametersMin() and getParametersMax() '
           'have nbParameters() entries with min <= max; bootstrap leaves every parameter initialised; the value depends on no storage nobody wrote')
    for label, tu, prep in modes():
        for nY in (1, 2, 3) if R.tier == 'quick' else (1, 2, 3, 4, 5):
            key = '%s/nY=%d' % (label, nY)
            R.count('models')
            try:
                m = Model(tu, nY, prep)
                n = m.setp()
                c = m.c
                got = c.mvals(c.mcall(m.f, 'parameters', []))
                lo = c.mvals(c.mcall(m.f, 'getParametersMin', []))
                hi = c.mvals(c.mcall(m.f, 'getParametersMax', []))
            except Exception as e:
                R.undecided(key, '%s: %s' % (type(e).__name__, e), tu)
                continue
            R.saw(c)
            R.check(key + '/size', len(got) == n, 'parameters() has %d entries for %d parameters' % (len(got), n), tu, fp=(len(got), n))
            wrong = [i for i in range(min(n, len(got))) if got[i] is not m.p[i]]
            # a value that is not the very same node is compared by random interpretation
            wrong = [i for i in wrong if got[i] is UNDEF or equal(got[i], m.p[i], m.sampler()).equal is False]
            R.check(key + '/roundtrip', not wrong, 'parameters %s read back differ from what setParameters was given' % wrong, tu, fp=wrong)
            R.check(key + '/bounds', len(lo) == n and len(hi) == n, 'bounds have %d and %d entries for %d parameters' % (len(lo), len(hi), n), tu, fp=(len(lo), len(hi), n))
            if len(lo) == len(hi) == n:
                bad = [i for i in range(n) if lo[i] is UNDEF or hi[i] is UNDEF or (isinstance(lo[i], (int, float)) and isinstance(hi[i], (int, float)) and not lo[i] <= hi[i])]
                R.check(key + '/order', not bad, 'bounds of parameters %s are unset or crossed' % bad, tu, fp=bad)
            try:
                v = m.value()
                bad = [e for e in c.I.events if e[0] in ('oob', 'uninit', 'null-deref')]
                unset = [i for i, y in enumerate(v) if y is UNDEF]
                R.check(key + '/value', len(v) == nY and not unset and not bad, 'value has %d channels of %d; unset %s; %s' % (len(v), nY, unset, [e[:3] for e in bad[:3]]), tu, fp=sorted({e[0] for e in bad}))
            except Exception as e:
                R.undecided(key + '/value', '%s: %s' % (type(e).__name__, e), tu)
    R.floor('models', 30)
    R.floor('discharged', 100)
