#!/usr/bin/env python3
"""run.py <property id> | replay <file> | setup | list"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from drv import base, checks  # noqa: E402


def main():
    what = sys.argv[1]
    if what == "setup":
        return checks.setup()
    if what == "replay":
        return checks.replay(json.load(open(sys.argv[2])))
    ck = base.Check(what)
    try:
        checks.CHECKS[what](ck)
    except base.ToolError as e:
        ck.error(e)
    except Exception as e:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        ck.error(repr(e))
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
