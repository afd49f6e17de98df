#!/bin/bash
# Nothing to install: every check builds what it needs from /repo's working tree.  This only warms
# the build directory and proves that the toolchain works offline.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR=$here/build/target
mkdir -p "$here/build" "$here/out" "$here/evidence"
for c in mc cli_h derive_fn derive_ev; do
	(cd "$here/$c" && cargo build --release --offline --locked)
done
