#!/usr/bin/env python3
"""run.py PROPERTY | all  -  decides properties of /repo's working tree.

VERIF_TIER (quick, thorough) and VERIF_SEED select depth and random choices.
"""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib  # noqa: E402

MODULES = ["checks_dag", "checks_set", "checks_etx"]


def main():
    table = {}
    for m in MODULES:
        if os.path.exists(os.path.join(vlib.VERIF, "lib", m + ".py")):
            table.update(importlib.import_module(m).CHECKS)
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    worst = 0
    for prop in (sorted(table) if args == ["all"] else args):
        areas, fn = table[prop]
        c = vlib.Check(prop, areas)
        try:
            fn(c)
            rc = c.finish()
        except vlib.ToolError as e:
            print(f"{prop}: the check could not decide: {e}")
            rc = 3
        except Exception:
            traceback.print_exc()
            rc = 3
        finally:
            c.cleanup()
        worst = max(worst, rc)
    return worst


if __name__ == "__main__":
    sys.exit(main())
