#!/bin/bash
# usage: seedtest.sh [seeded ids...]: runs each planted bug's own check (and with ALL=1 every check) against it, in a scratch worktree
cd /verif
W=/tmp/st; git -C /repo worktree add -q --detach $W 2>/dev/null
git -C $W checkout -q --detach $(git -C /repo rev-parse HEAD)
for d in ${@:-$(ls seeded)}; do
	git -C $W checkout -q -- . ; git -C $W apply /verif/seeded/$d/patch.diff || { echo "$d: patch fails"; continue; }
	p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
	if [ -n "$ALL" ]; then ps="C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19"; else ps=$p; fi
	hit=""; err=""
	for c in $ps; do
		t=$(date +%s); SIM_REPO=$W timeout 890 python3 check.py $c > /tmp/st.out 2>&1; rc=$?
		[ $rc = 1 ] && grep -q "^VIOLATION property=$c" /tmp/st.out && hit="$hit $c"
		[ $rc != 0 ] && [ $rc != 1 ] && { err="$err $c:$rc"; cp /tmp/st.out /tmp/st.$d.$c.err; }
		[ $c = $p ] && first=$(grep -m1 "^violation" /tmp/st.out | cut -c1-${CUT:-170}) && tm=$(( $(date +%s) - t ))
	done
	echo "$d [$p, $tm s]: caught by:$hit ${err:+errors:$err} | $first"
done
git -C $W checkout -q -- .
