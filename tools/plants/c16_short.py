PROP='C16'
NEEDS='a write to the destination that is cut short, as when the disk or a quota is almost used up'
BREAKS='The rest of a short write is lost, and the file is acknowledged although it is incomplete.'
EDITS=[('nora_scp/src/main.rs','''			f.write_all(&mut buf[..l])?;
''','''			if f.write(&buf[..l])? == 0 {
				Err("disk full")?;
			}
''')]
SH=r'''
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cargo build --offline -q --manifest-path /repo/Cargo.toml -p nora_scp --target-dir "$tmp/t" 2>"$tmp/log" || { tail "$tmp/log"; exit 3; }
scp="$tmp/t/debug/nora_scp"
mkdir "$tmp/w"; cd "$tmp/w" || exit 3
fail() { echo "$*"; exit 1; }

head -c 30000 /dev/urandom > src
# file size limit of 8 KiB: the write is cut short there
( trap '' XFSZ; ulimit -f 8; { printf 'C0644 30000 x\n'; cat src; printf '\0'; } | "$scp" -t out | wc -c > acks; exit ${PIPESTATUS[1]} )
rc=$?
n=$(cat acks)
cmp -s src out && fail "the limit has no effect"
[ "$n" -lt 3 ] || fail "an incomplete file is acknowledged"
[ $rc -ne 0 ] || fail "success for an incomplete file"
{ printf 'C0644 30000 x\n'; cat src; printf '\0'; } | "$scp" -t ok > acks || fail "copy failed"
cmp -s src ok || fail "wrong contents"
'''
