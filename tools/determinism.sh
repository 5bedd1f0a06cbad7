#!/bin/bash
# usage: determinism.sh RUNS [BASE] [ids...]: executes the same seeds twice, partitioned differently over processes, and compares every run's hash
cd "$(dirname "$0")/.."; N=${1:-4000}; BASE=${2:-1}; shift 2; ids=${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16}
S=$(python3 check.py --build | tail -1); D=$(mktemp -d)
for p in $ids; do
	for w in 8 5; do for k in $(seq 0 $((w-1))); do $S batch $p $BASE $k $((N/w+1)) $w 0 $D/$p.$w.$k 600 0 & done; wait; cat $D/$p.$w.* | grep "^H" | awk -v n=$N '$2<n' | sort > $D/$p.$w; done
	n=$(wc -l < $D/$p.8); if cmp -s $D/$p.8 $D/$p.5; then echo "$p: $n runs executed twice, every hash equal"; else echo "$p: DIFFERENT: $(diff $D/$p.8 $D/$p.5 | grep -c '^<') of $n"; diff $D/$p.8 $D/$p.5 | head -4; fi
done
rm -rf "$D"
