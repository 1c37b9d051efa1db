#!/usr/bin/env python3
"""Decides one property: run.py <ID> [quick|thorough].  See DESIGN.md."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    run = core.Run(pid, tier)
    try:
        core_checks = importlib.import_module("checks")
        core_checks.CHECKS[pid](run)
    except core.Inconclusive as e:
        print(f"INCONCLUSIVE property={pid}: {e}")
        run.write()
        sys.exit(2)
    sys.exit(run.conclude())


main()
