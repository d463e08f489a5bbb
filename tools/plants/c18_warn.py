PROP='C18'
NEEDS='a sender that reports a read error (a warning byte) after the contents'
BREAKS='A file that the sender could not read properly is acknowledged and reported as copied.'
EDITS=[('nora_scp/src/main.rs','''		if buf[0] != b'\\0' {
''','''		if buf[0] > 1 {
''')]
SH=r'''
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cargo build --offline -q --manifest-path /repo/Cargo.toml -p nora_scp --target-dir "$tmp/t" 2>"$tmp/log" || { tail "$tmp/log"; exit 3; }
scp="$tmp/t/debug/nora_scp"
mkdir "$tmp/w"; cd "$tmp/w" || exit 3
fail() { echo "$*"; exit 1; }

printf 'C0644 5 x\nhello\1read error\n' | "$scp" -t out > acks && fail "success although the sender failed"
[ "$(wc -c < acks)" -lt 3 ] || fail "acknowledged although the sender failed"
printf 'C0644 5 x\nhello\0' | "$scp" -t out > acks || fail "copy failed"
[ "$(wc -c < acks)" -eq 3 ] || fail "not acknowledged"
'''
