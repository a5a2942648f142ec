#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]"""
import argparse, importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'an'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    import report
    R = report.Report(a.pid, a.tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        importlib.import_module(a.pid.lower()).run(R)
        return R.finish()
    except report.AnalysisError as e:
        print('ANALYSIS-BROKEN %s: %s' % (a.pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN %s: internal error' % a.pid)
        return 2


if __name__ == '__main__':
    import threading
    sys.setrecursionlimit(100000)
    threading.stack_size(1 << 29)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
