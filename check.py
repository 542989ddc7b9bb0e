#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property statically from /repo's current sources."""
import importlib
import os
import sys
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':      # same answer and same order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'rules'))


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    import facts
    import report
    try:
        mod = importlib.import_module(pid.lower())
        P = facts.load()
        if not getattr(mod, 'RAW', False):
            import norm
            norm.normalize(P)
        return mod.run(P, tier)
    except (facts.AnalysisBroken, report.Broken) as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2


if __name__ == '__main__':
    sys.exit(main())
