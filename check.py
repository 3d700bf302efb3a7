#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property from /repo's current source.
Exit 0: holds.  Exit 1 + VIOLATION line: violated.  Exit 2: the analysis cannot decide."""
import os
import sys
import traceback
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
import base            # noqa: E402
import registry        # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        fn, level = registry.CHECKS[pid]
        return base.run(pid, tier, fn, level)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2


sys.exit(main())
