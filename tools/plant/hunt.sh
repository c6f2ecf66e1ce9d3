#!/bin/bash
# hunt.sh [--tier T] ids...: apply each seeded patch to /repo, run its property's check, revert.
for id in "$@"; do
	d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
	for q in $p $ALSO; do
		/verif/check $q > /tmp/hunt.$id.$q 2>&1; rc=$?
		echo "$id $q rc=$rc $(grep -m1 -c VIOLATION /tmp/hunt.$id.$q) $(grep -m1 '^case' /tmp/hunt.$id.$q | cut -c1-160)"
	done
	git -C /repo checkout -q -- .
done
