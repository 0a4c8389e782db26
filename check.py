#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough] [--replay FILE]"""
import importlib, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "props")]
import vf
def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    m = importlib.import_module(pid)
    parts = m.parts(tier)
    if "--part" in sys.argv: parts = [p for p in parts if p.name == sys.argv[sys.argv.index("--part") + 1]]
    if "--replay" in sys.argv:
        return vf.replay(pid, parts, sys.argv[sys.argv.index("--replay") + 1])
    return vf.run_check(pid, parts, tier, getattr(m, "ASSUMPTIONS", ()))
try: rc = main()
except Exception as x:      # no verdict
    import traceback
    traceback.print_exc(); print("CHECK-ERROR", x); rc = 2
sys.exit(rc)
