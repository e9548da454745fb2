#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Decides one property. VERIF_TIER is quick or thorough, VERIF_SEED seeds all
random choices. Exit status: 0 held, 1 violated, 2 the check could not run.
"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True

import vp  # noqa: E402
import registry  # noqa: E402


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    only = None
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        only = [json.load(open(sys.argv[3]))["case"]]
    if prop not in registry.CHECKS or tier not in ("quick", "thorough"):
        print("unknown property or tier")
        return 2
    fn, level = registry.CHECKS[prop]
    c = vp.Check(prop, tier, seed, level, only)
    try:
        known = fn(c) or []
        return c.finish(known)
    except vp.ToolError as e:
        print("ERROR property=%s %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ERROR property=%s the check failed to run" % prop)
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
