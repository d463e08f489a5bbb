#!/bin/bash
# replay.sh FILE: reproduce a recorded violation exactly, on /repo's working tree.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")/sim" || exit 2
case "$(sed -n 's/^system: //p' "$f")" in
	ssh) s=sim_ssh;;
	sshd) s=sim_sshd;;
	scp) s=sim_scp;;
	*) echo "not a replay file"; exit 2;;
esac
cargo build --offline --release -q -p $s >&2 || exit 2
exec ./target/release/$s replay "$f"
