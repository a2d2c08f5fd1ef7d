#!/usr/bin/env python3
"""Repeats a recorded failing input against the code in /repo: exit 1 if it still fails."""
import json
import os
import sys

sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)), os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")]
import search  # noqa: E402
from concrete import Trial  # noqa: E402

d = json.load(open(sys.argv[1], encoding="utf-8"))
if "trial" not in d:
    print("no concrete input recorded; failed obligations:")
    for o in d["failed_obligations"]:
        print("  ", o["name"])
    sys.exit(2)
what = search.check_any(Trial.from_json(d["trial"]))
print(what or "code and specification agree on this input")
sys.exit(1 if what else 0)
