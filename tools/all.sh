#!/bin/bash
# all.sh [SECS] [extra monitor args]: runs every monitor on the built binaries (no rebuild).
here=$(cd "$(dirname "$0")/.." && pwd); secs=${1:-15}; shift
for p in ${PROPS:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28}; do
	. "$here/build/args-all"; [ $p != C24 ] || . "$here/build/args-C24" || continue
	"$here/build/monitor/release/monitor" $p --secs $secs "${args[@]}" --replays "$here/replays" --known "$here/known_findings.txt" "$@" > /tmp/o.$p 2>&1; rc=$?
	echo "$p rc=$rc $(grep evaluations /tmp/o.$p)"
	[ $rc = 0 ] || grep -A6 -E '^(case|harness|too)|panick' /tmp/o.$p | cut -c1-400 | head -12
done
