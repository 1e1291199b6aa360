"""python -m checks.run <property id> [quick|thorough]"""
import importlib
import os
import sys
import traceback

from . import common


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.path.insert(0, common.REPO)
    from . import registry
    modname, fn = registry.CHECKS[pid]
    c = common.Check(pid, tier)
    try:
        mod = importlib.import_module('checks.' + modname)
        rc = getattr(mod, fn)(c)
    except Exception as e:
        traceback.print_exc()
        c.problem('driver', e)
        rc = c.finish()
    sys.exit(rc)


if __name__ == '__main__':
    main()
