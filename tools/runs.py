#!/usr/bin/env python3
"""runs.py <property>...: prints the runs of the last check"""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sys.argv[1:]:
    c = json.load(open(f"{here}/evidence/{p}.json"))["coverage"]
    for r in c["runs"]:
        print(r["harness"], r["paths"], r["wall_s"], "complete" if r["bound_exhausted"] else "CUT SHORT", r.get("cut_short", ""))
    if c["runs_not_started"]:
        print("not started:", c["runs_not_started"])
