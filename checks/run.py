"""Entry point: run.py <property> [quick|thorough]."""
import os, sys, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vf import core, sem, common

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    chk = core.Check(pid, tier)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        chk.setup()
        mod.run(chk)
        common.flush(chk)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        chk.incomplete.append("check error: " + traceback.format_exc()[-600:])
        chk.failed = True
    chk.asserts += sem.Stat.queries
    chk.assert_solver_s += sem.Stat.secs
    chk.finish()

main()
