#!/bin/bash
# check.sh PROPERTY [options]: build the simulator from /repo's working tree, then search.
# check.sh --build: only build everything.
cd "$(dirname "$0")/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
build() {
	local log
	log=$(cargo build --offline --release "$@" 2>&1) || { echo "$log" | tail -40; echo "BUILD FAILED: $*"; return 1; }
}
if [ "$1" = --build ]; then
	build --workspace || exit 2
	exit 0
fi
case "$1" in
	C16|C17|C18|C19) s=sim_scp;;
	C20|C21|C22) s=sim_sshd;;
	C*) s=sim_ssh;;
	*) echo "usage: check.sh PROPERTY [options]"; exit 2;;
esac
build -p $s || exit 2
exec ./target/release/$s check "$@"
