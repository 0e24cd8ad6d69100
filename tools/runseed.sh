#!/bin/bash
# runseed.sh <seed>...: applies each planted change to a scratch copy of /repo and runs the check of its property
for s in "$@"; do
	t=$(mktemp -d)
	git clone -q /repo "$t/repo"
	p=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' /verif/seeded/$s/meta.json)
	if git -C "$t/repo" apply /verif/seeded/$s/patch.diff; then
		r=$(cd /verif && timeout 900 bin/gosym -repo "$t/repo" -only . -prop "$p" 2>&1)
		echo "$s $p exit $? $(echo "$r" | grep -m1 -A1 counterexample | tr '\n' ' ') $(echo "$r" | tail -1)"
	else
		echo "$s DOES NOT APPLY"
	fi
	rm -rf "$t/repo"; rmdir "$t"
done
