#!/usr/bin/env python3
"""run.py --property Cxx: decides one property on /repo's working tree."""
import argparse, json, os, signal, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, report
from vlib.checks import REGISTRY, Ctx
import vlib.checks2, vlib.checks3, vlib.checks4, vlib.checks5


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    for attempt in (1, 2):
        c = Ctx(a.property, tier, seed)
        try:
            REGISTRY[a.property](c)
            rc = report.finish(c)
            return rc
        except (core.ToolError, core.BuildError, OSError, MemoryError) as e:
            print('attempt %d: %s' % (attempt, str(e)[:4000]), file=sys.stderr)
            if attempt == 2 or isinstance(e, core.BuildError):
                return 2
        finally:
            c.work.close()


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    sys.exit(main())
