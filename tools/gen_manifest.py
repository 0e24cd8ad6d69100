#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harness directives."""
import json, re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
claimed = {}
for f in sorted(glob.glob(os.path.join(here, "harness", "*.go"))):
    for l in open(f):
        m = re.match(r"//verif:run (C\d+)\b(.*)", l)
        if m:
            claimed.setdefault(m.group(1), []).append(m.group(2).strip())
NA = {}
TECH = ("bounded symbolic execution of the SSA form of the current /repo sources; branches and assertions over symbolic "
        "input bytes are decided by an SMT solver (z3), counterexamples are replayed on the compiled code")
TECH25 = ("bounded symbolic execution of two concurrent calls with the schedule of lock operations as choice variables; the SMT solver "
          "decides whether two conflicting accesses can be unordered under program order and lock hand-overs, counterexamples are "
          "replayed with the recorded schedule or under the race detector")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append({
            "property": i,
            "quick_cmd": f"bash /verif/check.sh {i} quick",
            "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "technique": TECH25 if i == "C25" else TECH,
            "level": "model_checking",
            "level_note": "holds for every value of the symbolic bytes within the bounds listed per run in the evidence and in DESIGN.md; inputs of other shapes or sizes are outside the claim",
            "evidence_file": f"/verif/evidence/{i}.json",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check registered yet")})
m = {
    "version": 1,
    "setup_cmd": "bash /verif/check.sh setup",
    "checks": checks,
    "hooks": {"guard": "", "enable": "", "source_commits": []},
    "not_applicable": na,
    "notes": "No hooks in /repo: the executor reads the sources as they are and adds its harness through an overlay. Fixes made to /repo are listed in known-findings.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
