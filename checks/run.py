#!/usr/bin/env python3
"""run.py <property id>: decide one property on /repo's current source."""
import importlib
import os
import resource
import sys
import traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import threading


def main():
    pid = sys.argv[1]
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    try:
        mod = importlib.import_module("prop_" + pid.lower())
        return mod.check()
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-ERROR %s: %s: %s" % (pid, type(e).__name__, e))
        return 2


if __name__ == "__main__":
    sys.setrecursionlimit(40000)
    threading.stack_size(512 << 20)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
