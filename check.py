#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import common  # noqa: E402
from vf.registry import CHECKS  # noqa: E402


def given_up(c):
    """An error of the check itself, unless a violation was confirmed before it."""
    return c.finish() if c and c.violations else 3


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod, fn = CHECKS[pid]
    c = None
    try:
        c = common.Check(pid)
        getattr(importlib.import_module("vf." + mod), fn)(c)
        rc = c.finish()
    except common.CheckError as e:
        print("CHECK-ERROR", e)
        rc = given_up(c)
    except Exception:
        traceback.print_exc()
        rc = given_up(c)
    finally:
        common.cleanup()
    sys.exit(rc)


main()
