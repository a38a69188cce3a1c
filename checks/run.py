#!/usr/bin/env python3
"""run.py <property> [--thorough]: decide one property on /repo's tree."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Check, ToolError, log  # noqa: E402
import props  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(prop, tier, seed)
    try:
        props.CHECKS[prop](c)
        code = c.finish(props.ASSUME.get(prop, ()) if hasattr(props, "ASSUME") else ())
    except ToolError as e:
        log("check error: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        c.close()
    return code


if __name__ == "__main__":
    sys.exit(main())
