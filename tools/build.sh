#!/bin/bash
# build.sh PROPERTY TIER: builds what the check of PROPERTY needs from /repo's
# working tree into /verif/build, and writes build/args-PROPERTY (the monitor's
# --bin and --tool arguments). PROPERTY "all" builds everything.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
prop=$1 tier=$2
repo=${MAPEDITR_REPO:-/repo} # Another tree can be given for trying out planted bugs.
B=$here/build
mkdir -p "$B"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_INCREMENTAL
exec 9> "$B/lock"
flock 9
log=$B/build.log
: > "$log"
die() { cat "$log" >&2; exit 1; }
args=()

( cd "$here/monitor" && cargo build --release --offline --target-dir "$B/monitor" > "$B/monitor.log" 2>&1 ) || { cat "$B/monitor.log" >&2; exit 1; } &
mon=$!

repo_build() { # NAME, cargo arguments...
	local name=$1; shift
	# Cargo compares only mtimes: without its fingerprint the crate itself is always rebuilt.
	rm -rf "$B/target/release/build/mapeditr" "$B/target/release/.fingerprint"/mapeditr-*
	( cd "$repo" && cargo build --release --offline --manifest-path "$repo/Cargo.toml" --target-dir "$B/target" "$@" ) >> "$log" 2>&1 || die
	mkdir -p "$B/bin"
	cp -f "$B/target/release/mapeditr" "$B/bin/.$name" && mv -f "$B/bin/.$name" "$B/bin/$name"
	args+=(--bin "$name=$B/bin/$name")
}

# Sanitizer builds: the program, its Rust dependencies, zstd and SQLite all instrumented
# (and the standard library, for memory and thread), so that nothing is a blind spot
# and nothing uninstrumented causes false reports.
san_build() { # NAME FLAG STD
	local name=$1 flag=$2 T=x86_64-unknown-linux-gnu D=$B/san-$1
	mkdir -p "$D/lib"
	(
		set -e
		src=$(ls -d "${CARGO_HOME:-$HOME/.cargo}"/registry/src/*/sqlite3-src-*/source/sqlite3.c | tail -1)
		[ -f "$D/lib/libsqlite3.a" ] || { clang -O1 -gline-tables-only -fsanitize=$flag -fPIC -DSQLITE_THREADSAFE=1 -c "$src" -o "$D/lib/s.o"; rm -f "$D/lib/.l.a"; ar rcs "$D/lib/.l.a" "$D/lib/s.o"
			if [ $flag = memory ]; then clang -O1 -gline-tables-only -fsanitize=memory -fPIC -c "$here/monitor/shim/msan.c" -o "$D/lib/m.o"; ar rcs "$D/lib/.l.a" "$D/lib/m.o"; fi
			 mv "$D/lib/.l.a" "$D/lib/libsqlite3.a"; } &
		sq=$!
		rm -rf "$D/t/$T/release/build/mapeditr" "$D/t/$T/release/.fingerprint"/mapeditr-*
		export RUSTUP_TOOLCHAIN=nightly
		export REAL_RUSTC; REAL_RUSTC=$(rustup which --toolchain nightly rustc)
		export RUSTC=$here/tools/rustc-nightly CC_x86_64_unknown_linux_gnu=clang CFLAGS_x86_64_unknown_linux_gnu="-fsanitize=$flag -gline-tables-only"
		export RUSTFLAGS="-Zsanitizer=$flag -Zub-checks=yes -Cdebuginfo=line-tables-only -L native=$D/lib"
		cd "$repo"
		# The library is needed when linking only; the first build may have to wait for it.
		wait $sq
		cargo build $3 --release --offline --target $T --manifest-path "$repo/Cargo.toml" --target-dir "$D/t"
		mkdir -p "$B/bin"
		cp -f "$D/t/$T/release/mapeditr" "$B/bin/.$name" && mv -f "$B/bin/.$name" "$B/bin/$name"
	) > "$B/san-$name.log" 2>&1
}

if [ "$prop" = C24 ]; then
	san_build asan address "" & p1=$!
	san_build msan memory -Zbuild-std & p2=$!
	san_build tsan thread -Zbuild-std & p3=$!
	for x in asan:$p1 msan:$p2 tsan:$p3; do
		wait ${x#*:} || { cat "$B/san-${x%:*}.log" >&2; exit 1; }
		args+=(--bin "${x%:*}=$B/bin/${x%:*}")
	done
else
repo_build plain
repo_build checked --config 'profile.release.package.mapeditr.overflow-checks=true' \
	--config 'profile.release.package.mapeditr.debug-assertions=true'
fi

case $prop in C20|C21|C22|C25|C27|all)
	gcc -O1 -shared -fPIC -o "$B/.shim.so" "$here/monitor/shim/shim.c" -ldl -lpthread >> "$log" 2>&1 || die
	mv -f "$B/.shim.so" "$B/shim.so"
	args+=(--tool "shim=$B/shim.so");;
esac

wait $mon
{ printf 'args=('; printf '%q ' "${args[@]}"; echo ')'; } > "$B/.args-$prop"
mv -f "$B/.args-$prop" "$B/args-$prop"
