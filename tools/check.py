#!/usr/bin/env python3
"""check.py <property> : decides one property. VERIF_TIER, VERIF_SEED from the environment."""
import os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import Ctx, CheckError, finish
import plans


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(prop, tier, seed)
    rc = 2
    try:
        try:
            assumptions = plans.PLANS[prop](ctx) or []
        except CheckError as e:
            if not ctx.violations:
                raise
            ctx.log("further checking stopped: %s" % e)
            assumptions = []
        rc = finish(ctx, assumptions=assumptions)
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e), flush=True)
    except Exception:
        traceback.print_exc()
    finally:
        if os.environ.get("FC_KEEP"):
            print("work kept in", ctx.work)
        else:
            shutil.rmtree(ctx.work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


main()
