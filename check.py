#!/usr/bin/env python3
"""check.py <PROPERTY> [--replay FILE] [--workers N]

Decides one property by monitoring the real code in /repo (see DESIGN.md).
VERIF_TIER (quick/thorough) and VERIF_SEED select the workload."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True



def main(argv):
    from mon import engine, registry
    pid = argv[1]
    prop = registry.PROPERTIES[pid]
    if "--replay" in argv:
        return engine.replay(pid, prop, argv[argv.index("--replay") + 1])
    workers = min(8, os.cpu_count() or 1)
    if "--workers" in argv:
        workers = int(argv[argv.index("--workers") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return engine.run_property(pid, prop, seed, tier, workers)


if __name__ == "__main__":
    try:
        code = main(sys.argv)
    except Exception:  # neither a pass nor a violation
        import traceback
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)
