#!/bin/bash
# Drives the real code of /repo; see src/main.rs.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp -r "$here/Cargo.toml" "$here/Cargo.lock" "$here/src" "$tmp/" || exit 3
cd "$tmp" || exit 3
if grep -q Daemon::start src/main.rs; then
	cargo build --offline -q --manifest-path /repo/Cargo.toml -p nora_sshd --target-dir "$tmp/daemon" 2>"$tmp/log" || { tail -20 "$tmp/log"; exit 3; }
	export DEMO_SSHD="$tmp/daemon/debug/nora_sshd"
fi
CARGO_TARGET_DIR="$tmp/target" cargo build --offline -q 2>"$tmp/log" || { tail -20 "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
