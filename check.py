#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of the code in /repo (VERIF_TIER, VERIF_SEED)."""
import os, sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "lib"), os.path.join(ROOT, "gen")]
sys.dont_write_bytecode = True
import vf, checks

if __name__ == "__main__":
    prop = sys.argv[1]
    level, body = checks.TABLE[prop]
    sys.stdout.reconfigure(line_buffering=True)
    rc = vf.Ctx(prop, level).run(body)
    sys.stdout.flush()
    os._exit(rc)
