import sys, os, importlib, traceback
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)

def main():
    pid = sys.argv[1]
    from vf import core
    mod = importlib.import_module(f"checks.{pid}")
    rc = mod.main()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc)

try:
    main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(3)
