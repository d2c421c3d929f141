#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current source by static analysis."""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from sa import report, props
    from sa.ir import AnalysisError
    fn = props.PROPS.get(pid)
    if fn is None:
        print('unknown property ' + pid, file=sys.stderr); return 3
    try:
        res = fn(tier)
    except AnalysisError as e:
        print('ERROR %s: %s' % (pid, e), file=sys.stderr); return 2
    except Exception:
        import traceback; traceback.print_exc(); return 2
    return report.finish(pid, tier, res, t0)


if __name__ == '__main__':
    sys.exit(main())
