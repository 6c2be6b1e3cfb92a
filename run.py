#!/usr/bin/env python3
"""run.py C01: run one property's check (see MANIFEST.json). Exit 0 held, 1 violation, 2 error of the check."""
import importlib, os, shutil, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import vf
def main():
    pid = sys.argv[1]
    c = vf.Check(pid)
    try:
        importlib.import_module(pid.lower()).run(c)
        rc = c.finish()
    except BaseException:
        traceback.print_exc()
        rc = 2
        shutil.rmtree(c.dir, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
main()
