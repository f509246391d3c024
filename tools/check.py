#!/usr/bin/env python3
import os, subprocess, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, props
def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay": return driver.replay(a[1])
    if a and a[0] == "--setup":
        driver.build_symex(); driver.build_deps(); print("built"); return 0
    prop = a[0]
    tier = "thorough" if "--thorough" in a else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = props.PROPS[prop]
    return driver.run_check(prop, P["gen"], tier, seed, versions=P.get("versions"), opts=P.get("opts"), bounds=P["bounds"], assumptions=props.ASSUME + P.get("assume", []))
try: rc = main()
except driver.Broken as e: print("ERROR:", e); rc = 3
except subprocess.TimeoutExpired as e: print("ERROR: timeout", e); rc = 3
except Exception: traceback.print_exc(); rc = 3
sys.exit(rc)
