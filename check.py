#!/usr/bin/env python3-vt
import sys, os, threading, resource
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from athvc import runner
if __name__ == "__main__":
    rc = [2]
    def go():
        rc[0] = runner.main(sys.argv[1:])
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    go()
    sys.stdout.flush()
    sys.exit(rc[0])
