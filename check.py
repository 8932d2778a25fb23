#!/usr/bin/env python3-vt
"""check.py <property id>: decide one property on /repo's current source."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(20000)

if __name__ == '__main__':
    try:
        import props
        rc = props.main(sys.argv[1])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 5
    sys.exit(rc)
