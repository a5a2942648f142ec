"""Collects obligations of one property, compares them with the known findings,
writes the evidence file and prints the verdict."""
import contextlib, json, os, sys, time, traceback
import facts
from facts import AnalysisError

VERIF = facts.VERIF
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')


def known_findings(pid):
    out = []
    if not os.path.exists(KNOWN):
        return out
    for l in open(KNOWN):
        l = l.strip()
        if not l.startswith('known:'):
            continue
        head, _, what = l[6:].partition(' :: ')
        kv = dict(x.split('=', 1) for x in head.split())
        if kv['property'] == pid:
            out.append({'key': kv['key'], 'fp': kv['fp'], 'what': what, 'hit': False})
    return out


class Report:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obl = []          # (key, ok, msg, loc, fp)
        self.keys = set()
        self.counts = {}
        self.functions = set()
        self.notes = []
        self.rules = []
        self.t0 = time.time()
        self.floors = {}
        self.how = {}

    # ---- what was analysed
    def rule(self, text):
        self.rules.append(text)

    def count(self, kind, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n

    def floor(self, kind, n):
        """the analysis is broken when fewer than n instances of kind were found"""
        self.floors[kind] = n

    def saw(self, ctx):
        """record the functions a machine went through"""
        for l, q in ctx.I.analysed.items():
            self.functions.add('%s @ %s' % (q, l))

    # ---- obligations
    def check(self, key, ok, msg='', loc=None, fp=None):
        k, i = key, 2
        while k in self.keys:
            k = '%s#%d' % (key, i)
            i += 1
        self.keys.add(k)
        if fp is None:
            fp = ''
        self.obl.append((k, ok, msg, loc, str(fp).replace(' ', '_')))
        return ok

    def undecided(self, key, why, loc=None):
        return self.check(key, None, why, loc)

    @contextlib.contextmanager
    def guard(self, key, loc=None):
        """an obligation the engine cannot carry through is undecided, never a verdict"""
        try:
            yield
        except Exception as e:
            if os.environ.get('ALTA_TRACE'):
                traceback.print_exc()
            if type(e).__name__ == 'Noret':
                # every path ends in a throw or an abort although the inputs are valid
                ex = getattr(e, 'exits', None)
                self.check(key, False, '%s on every path%s' % (e, ' (%s)' % ', '.join(sorted({str(x[0]) for x in ex})) if ex else ''), loc, fp='noreturn')
            else:
                self.undecided(key, '%s: %s' % (type(e).__name__, e), loc)

    def finish(self):
        kn = known_findings(self.pid)
        viol, found, und = [], [], []
        for k, ok, msg, loc, fp in self.obl:
            if ok is None:
                und.append((k, msg))
            elif not ok:
                m = [x for x in kn if x['key'] == k and x['fp'] in (fp, '*')]
                if m:
                    m[0]['hit'] = True
                    found.append((k, m[0]['what']))
                else:
                    viol.append({'key': k, 'what': msg, 'where': loc, 'fingerprint': fp})
        total = len(self.obl)
        good = sum(1 for o in self.obl if o[1])
        for kind, n in self.floors.items():
            have = total if kind == 'obligations' else good if kind == 'discharged' else self.counts.get(kind, 0)
            if kind == 'discharged':
                have += len(viol) + len(found)
            if have < n and not viol:
                raise AnalysisError('only %d %s found, at least %d expected: the analysis no longer matches the code\n%s' % (have, kind, n, '\n'.join('  undecided %s: %s' % x for x in und[:20])))
        cov = {'explanation': 'Static analysis of the type-checked sources; nothing of alta is executed. Rules: ' + ' | '.join(self.rules),
               'obligations': total, 'discharged': good, 'undecided': len(und), 'known_findings': len(found),
               'functions_analysed': len(self.functions), 'instances': self.counts,
               'samples': [{'obligation': o[0], 'verdict': 'holds' if o[1] else 'undecided' if o[1] is None else 'broken', 'detail': o[2][:300]} for o in self.obl[:: max(1, total // 25)]],
               'functions': sorted(self.functions)[:400],
               'undecided_obligations': ['%s: %s' % x for x in und][:60], 'notes': self.notes}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'assumptions': ['clang 18 parses the sources as the build compiler does', 'library calls behave as their models in an/libmodel.py',
                              'real arithmetic stands for floating point', 'vector sizes beyond the instantiated ones behave alike'],
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        for k, w in found:
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, w, k))
        print('%s: %d obligations, %d hold, %d known findings, %d undecided, %d violations; %d functions analysed; %s; %.1f s' % (
            self.pid, total, good, len(found), len(und), len(viol), len(self.functions), self.counts, time.time() - self.t0))
        if os.environ.get('ALTA_VERBOSE'):
            for x in und:
                print('  undecided %s: %s' % x)
            for k, ok, msg, loc, fp in self.obl:
                if ok is False:
                    print('  BROKEN key=%s fp=%s :: %s  [%s]' % (k, fp, msg, loc))
        if viol:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.json')
            json.dump(viol, open(rp, 'w'), indent=1, default=str)
            for v in viol[:30]:
                print('  broken obligation %s at %s: %s' % (v['key'], v['where'], v['what']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0
