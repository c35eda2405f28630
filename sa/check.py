#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's current source."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import framework  # noqa
from program import AnchorError  # noqa


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tier = os.environ.get("VERIF_TIER", "quick")
    for i, a in enumerate(sys.argv):
        if a == "--tier":
            tier = sys.argv[i + 1]
            args.remove(tier)
    prop = args[0]
    try:
        m = importlib.import_module("rules." + prop)
        return framework.run(prop, m, tier)
    except AnchorError as e:
        print("ERROR: {}: anchor not found: {}".format(prop, e))
        return 2
    except SyntaxError as e:
        print("ERROR: {}: {}".format(prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
