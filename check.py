#!/usr/bin/env python3
"""check.py <PROPERTY> : decide one property from /repo's current sources."""
import importlib, os, pkgutil, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import core
from facts import CheckError
import checks


def main():
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    for m in pkgutil.iter_modules(checks.__path__):
        importlib.import_module("checks." + m.name)
    if sys.argv[1] == "--list":
        print("\n".join(sorted(core.REG)))
        return 0
    rc = 0
    ids = sorted(core.REG) if sys.argv[1] == "--all" else sys.argv[1:]
    for pid in ids:
        try:
            r = core.run(pid, tier)
        except CheckError as e:
            print(f"{pid}: NO ANSWER: {e}")
            r = 2
        except Exception:
            traceback.print_exc()
            print(f"{pid}: NO ANSWER: internal error")
            r = 2
        sys.stdout.flush()
        rc = max(rc, r) if rc != 1 and r != 1 else (1 if 1 in (rc, r) else max(rc, r))
    return rc


if __name__ == "__main__":
    sys.exit(main())
