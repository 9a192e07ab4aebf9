"""python -m harness.check C01 [--replay FILE]   (run in /verif)"""
import json
import os
import sys
import traceback

from . import core


def main(argv):
    prop = argv[1]
    replay = None
    if len(argv) > 3 and argv[2] == '--replay':
        with open(argv[3]) as fh:
            replay = json.load(fh)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return core.run_check(prop, tier, seed, replay)
    except core.MachineryError as e:
        print('MACHINERY-ERROR %s: %s' % (prop, e))
        return 3
    except Exception:
        traceback.print_exc()
        print('MACHINERY-ERROR %s' % prop)
        return 3


if __name__ == '__main__':
    sys.exit(main(sys.argv))
