#!/usr/bin/env python3
"""check.py <property id> : decides one property from /repo's current source. Exit 0 held / 1 violated (VIOLATION line)."""
import importlib, os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
os.chdir(ROOT); sys.path.insert(0, ROOT)
MODULES = ["mp_ser", "mp_sess", "mp_fmt", "ser_err", "build", "mp_de", "mp_cur", "js_cur", "js_de", "js_mem", "js_ser", "js_safe", "js_bytes", "js_skip", "js_prim", "progress", "core_w", "entry", "errs", "errval", "mp_round", "config"]
def table():
    t = {}
    for m in MODULES:
        mod = importlib.import_module("checks." + m)
        for k, f in mod.CHECKS.items(): t[k] = f
    return t
def main():
    from checks.lib import Check
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    chk = Check(pid, tier)
    table()[pid](chk)
    return chk.finish()
if __name__ == "__main__":
    try: rc = main()
    except SystemExit: raise
    except BaseException:
        traceback.print_exc(); rc = 3
    sys.stdout.flush()
    sys.exit(rc)
