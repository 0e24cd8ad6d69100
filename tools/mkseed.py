#!/usr/bin/env python3
"""mkseed.py <id> <property> <edits.json>: builds seeded/<id> from textual edits.

edits.json: {"edits": [[file, old, new], ...], "demo": "Go main program", "needs": "...", "what": "..."}
The change is made in a scratch copy of /repo, where build, tests and demo are run."""
import json, os, shutil, subprocess, sys, tempfile
sid, prop, ef = sys.argv[1:4]
e = json.load(open(ef))
out = os.environ.get("SEEDED", "/verif/seeded") + "/" + sid
tmp = tempfile.mkdtemp(prefix="seed")
repo = tmp + "/repo"
subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
def sh(c, cwd=repo):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
try:
    for f, old, new in e["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) != 1:
            sys.exit(f"{sid}: {s.count(old)} matches in {f}: {old!r}")
        open(p, "w").write(s.replace(old, new))
    patch = sh("git diff").stdout
    # removed lines must be lines of the original tree
    base = sh("git rev-list --max-parents=0 HEAD").stdout.split()[0]
    for f, old, new in e["edits"]:
        orig = sh(f"git show {base}:{f}").stdout.split("\n")
    bad = []
    cur = None
    for l in patch.split("\n"):
        if l.startswith("--- a/"):
            orig = set(sh(f"git show {base}:{l[6:]}").stdout.split("\n"))
        elif l.startswith("-") and not l.startswith("---") and l[1:] not in orig:
            bad.append(l)
    r = sh("gofmt -l . ; go vet . && go test ./... 2>&1 | grep -E '^(--- FAIL|FAIL|panic)' | head")
    if r.stdout.strip() or r.stderr.strip():
        sys.exit(f"{sid}: tests notice: {r.stdout[:600]} {r.stderr[:600]}")
    os.makedirs(out, exist_ok=True)
    open(out + "/patch.diff", "w").write(patch)
    open(out + "/main.go", "w").write(e["demo"])
    open(out + "/demo.sh", "w").write('''#!/bin/bash
# builds main.go against the library in the current directory and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$d" > "$t/overlay.json"
GOFLAGS= GOWORK=off GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=0 timeout 200 go run -overlay "$t/overlay.json" ./zz_demo
rc=$?
rm -f "$t/overlay.json"
rmdir "$t"
exit $rc
''')
    json.dump({"property": prop, "needs": e["needs"], "what_it_breaks": e["what"]}, open(out + "/meta.json", "w"), indent=1)
    b = sh("bash " + out + "/demo.sh")
    sh("git checkout -- .")
    a = sh("bash " + out + "/demo.sh")
    print(f"{sid}: unchanged exit {a.returncode}, changed exit {b.returncode}", b.stdout[-200:].strip(), b.stderr[-200:].strip())
    if bad:
        print("   WARNING lines not from the original tree:", bad[:3])
    if a.returncode != 0 or b.returncode == 0:
        print("   NOT KEPT", a.stdout[-300:], a.stderr[-500:])
        shutil.rmtree(out)
finally:
    shutil.rmtree(tmp)
