#!/usr/bin/env python3
"""run.py PROPERTY: decide one property from /repo's current source."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vjs import ir, report
from vjs.checks import lookup


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prop = lookup(pid)
    res = report.Result(pid)
    try:
        try:
            prop['fn'](res, tier)
        except ir.AnalysisError as e:
            if not res.units and not res.violations:
                raise
            # one anchor is gone, the others were analysed
            res.undec(str(e))
        return report.finish(res, prop, tier, seed)
    except ir.AnalysisError as e:
        print('%s: analysis error: %s' % (pid, e))
        return 2


if __name__ == '__main__':
    sys.exit(main())
