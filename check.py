#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree.
check.py --replay <file>: decides one recorded scenario again."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import checks, runner

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--replay":
        sys.exit(runner.replay(sys.argv[2]))
    sys.exit(runner.main(pid, getattr(checks, pid.lower())))
