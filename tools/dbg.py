"""python3-vt tools/dbg.py cXX job [seconds]: run a job in-process with a stack dump"""
import sys, faulthandler, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
faulthandler.dump_traceback_later(int(sys.argv[3]) if len(sys.argv) > 3 else 30, exit=True)
os.environ["SYMX_TRACE"] = "1"
class Q:
    def put(self, r):
        for k, v in r.items():
            if k not in ("functions",):
                print(k, v)
sys.setrecursionlimit(20000)
import symx.loader

symx.loader.load()
import symx.runner as r
r._child(sys.argv[1], sys.argv[2], os.environ.get("VERIF_TIER", "quick"), Q())
