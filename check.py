#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decides one property of the CEX source in /repo.
exit 0: holds (known findings are printed), 1: violated, 2: the analysis could not give a verdict."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import framework
from frontend import Broken


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        k = a.index("--tier"); tier = a[k + 1]; del a[k:k + 2]
    rc = 0
    for pid in a:
        try:
            rc = max(rc, framework.run(pid, tier))
        except Broken as e:
            print(f"ANALYSIS-BROKEN property={pid} {e}")
            rc = max(rc, 2)
        except Exception:
            traceback.print_exc()
            print(f"ANALYSIS-BROKEN property={pid} internal error")
            rc = max(rc, 2)
    return rc


if __name__ == "__main__":
    sys.exit(main())
