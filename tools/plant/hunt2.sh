#!/bin/bash
# hunt2.sh ids...: like hunt.sh, in copies of /verif and /repo under /tmp/hunt (env ALSO: more properties; ARGS: more arguments).
H=/tmp/hunt; mkdir -p $H/verif
rsync -a --delete --exclude build --exclude seeded --exclude evidence --exclude replays --exclude .git /verif/ $H/verif/ 
[ -d $H/repo ] || cp -a /repo $H/repo
git -C $H/repo fetch -q /repo HEAD && git -C $H/repo checkout -q -f FETCH_HEAD
export MAPEDITR_REPO=$H/repo
for id in "$@"; do
	d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	git -C $H/repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
	for q in $p $ALSO; do
		t0=$SECONDS
		$H/verif/check $q $ARGS > /tmp/hunt.$id.$q 2>&1; rc=$?
		echo "$id $q rc=$rc n=$(grep -c '^VIOLATION' /tmp/hunt.$id.$q) $((SECONDS-t0))s $(grep -m1 '^case' /tmp/hunt.$id.$q | cut -c1-160)"
	done
	git -C $H/repo checkout -q -- .
done
