import importlib
import os
import sys


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    if '--quick' in sys.argv:
        tier = 'quick'
    if len(args) != 1:
        print('usage: python3 -m reorsa PROPERTY [--quick|--thorough]')
        return 2
    mod = importlib.import_module('reorsa.checks.%s' % args[0].lower())
    return mod.main(tier)


sys.exit(main())
