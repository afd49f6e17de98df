#!/bin/bash
# check.sh <ID> quick|thorough    decide one property on /repo's current working tree
#   exit 0  held on everything explored
#   exit 1  violated ("VIOLATION property=<ID> replay=<path>" on stdout)
#   exit 2  could not decide (the harness does not build against the tree, tool failure)
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=${1:?property id} tier=${2:-quick}
export VERIF_DIR=$here CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export CARGO_TARGET_DIR=$here/build/target
mkdir -p "$here/build" "$here/out" "$here/evidence"

compile() { # compile <crate dir>
	(cd "$here/$1" && cargo build --release --offline --locked) >"$here/out/build-$1.log" 2>&1
}
build() {
	compile "$1" && return
	echo "check $id: $1 does not build; see below" >&2
	tail -n 40 "$here/out/build-$1.log" >&2
	exit 2
}

build mc
run=$CARGO_TARGET_DIR/release/mc
case $id in
C20 | C21)
	build cli_h
	export MC_CLI=$CARGO_TARGET_DIR/release/ethabi
	;;
C22 | C23)
	# these crates consist of generated bindings: if the macro and the checker build but the
	# bindings do not, the bindings are wrong
	crate=derive_fn
	[ "$id" = C23 ] && crate=derive_ev
	log=$here/out/build-$crate.log
	if ! compile $crate; then
		if grep -q "could not compile .$crate. (bin" "$log" && ! grep -qiE "signal: |SIGKILL|No space left" "$log"; then
			exec "$run" uncompilable "$id" "$tier" "$log"
		fi
		build $crate
	fi
	run=$CARGO_TARGET_DIR/release/$crate
	;;
esac
exec "$run" check "$id" "$tier"
