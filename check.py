#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]

Derives a closed-form summary of every function the property is anchored in from the
compiler's MIR of /repo's current tree and compares it with the specified function.
exit 0: no disagreement; exit 1 + VIOLATION line: a function's summary disagrees."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ec'))
sys.setrecursionlimit(20000)
import driver

if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # same order of exploration in every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    try:
        rc = driver.main(sys.argv[1:])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
