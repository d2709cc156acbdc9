#!/usr/bin/env python3
"""Run a saved counterexample again on the current tree:  python3 tools/replay.py replay/<ID>/<hash>.json"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import common, p_parallel  # noqa: E402


def main():
    r = json.load(open(sys.argv[1]))
    h, s = r["how"], r["script"]
    exe = p_parallel._build() if h["driver"] == "parallel" else common.build(h["driver"])
    t = common.drive(exe, [s], shards=1, env=h["denv"])[s["id"]]
    for e in t["ev"]:
        print(json.dumps(e))
    if t.get("crash"):
        print("CRASH", t["crash"])
        return 1
    rej, _ = common.validate(h["spec"], [t], h["cfg"], env=h["env"])
    if not rej:
        print("accepted")
        return 0
    print("rejected at event", rej[0][1])
    return 1


if __name__ == "__main__":
    try:
        rc = main()
    finally:
        common.cleanup()
    sys.exit(rc)
