#!/usr/bin/env python3
"""check.py ID [quick|thorough] - decide one property on /repo's current source."""
import importlib, json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "fw"))
sys.path.insert(0, os.path.join(VERIF, "checks"))
sys.setrecursionlimit(100000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(run()))
    t.start()
    t.join()
    sys.exit(rc[0] if rc else 3)


def run():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    import rules
    try:
        ctx = rules.Ctx(pid, tier)
        if os.path.exists(os.path.join(VERIF, "specs", pid + ".tbl")):
            ctx.tables()
        if os.path.exists(os.path.join(VERIF, "checks", pid.lower() + ".py")):
            importlib.import_module(pid.lower()).check(ctx)
    except rules.MissingAnchor as e:
        # the code the property is anchored in is gone: the property is not established
        ctx.fail("anchor", f"anchor not found: {e}")
    except Exception:
        traceback.print_exc()
        return 3
    return ctx.finish(t0)


if __name__ == "__main__":
    main()
