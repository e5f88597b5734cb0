#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property of /repo."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    os.environ['VERIF_TIER'] = tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    import core, checks
    try:
        run = core.Run(prop, tier, seed)
        try:
            return checks.CHECKS[prop](run)
        except core.Enough:
            return run.finish(explanation='ended early: violations were found')
    except core.CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e), flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        print('CHECK-ERROR property=%s' % prop, flush=True)
        return 2


if __name__ == '__main__':
    sys.exit(main())
