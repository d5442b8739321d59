#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property, see DESIGN.md."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vt, stages


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    run = vt.Run(pid, tier, seed)
    try:
        for stage in stages.STAGES[pid]:
            stage(run)
        rc = run.finish()
    except vt.HarnessError as e:
        if run.violations:  # what was found stands
            return run.finish()
        print("ERROR of the check, no verdict:", e, flush=True)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    run.note("done, exit", rc)
    return rc


sys.exit(main())
