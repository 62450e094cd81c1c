#!/usr/bin/env python3
"""check.py <property>: decide one property (tier and seed from VERIF_TIER / VERIF_SEED).
Exit 0: held on everything explored; 1: VIOLATION line; 2: no answer."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, props


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = core.Ctx(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        fn, level = props.CHECKS[pid]
        exhaustive = fn(ctx)
        return ctx.finish(level, exhaustive)
    except core.CheckError as e:
        core.log(f"ERROR {pid}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
