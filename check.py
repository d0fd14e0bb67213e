#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's working tree. See DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vc import build, run, checks

def main():
    pid = sys.argv[1]
    fn = checks.CHECKS[pid]
    c = run.Check(pid)
    try:
        fn(c)
    except build.BuildError as e:
        c.errors.append('build: %s' % e)
    except Exception:
        c.errors.append(traceback.format_exc())
    return c.finish()

if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
