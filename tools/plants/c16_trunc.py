PROP='C16'
NEEDS='a destination that already exists and is longer than the new contents'
BREAKS='The end of the old contents stays behind the new ones.'
EDITS=[('nora_scp/src/main.rs','''					let f = File::create(path)?;
''','''					let f = fs::OpenOptions::new().write(true).create(true).open(path)?;
''')]
SH=r'''
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cargo build --offline -q --manifest-path /repo/Cargo.toml -p nora_scp --target-dir "$tmp/t" 2>"$tmp/log" || { tail "$tmp/log"; exit 3; }
scp="$tmp/t/debug/nora_scp"
mkdir "$tmp/w"; cd "$tmp/w" || exit 3
fail() { echo "$*"; exit 1; }

echo 'something much longer than what is to come' > out
printf 'C0644 5 x\nhello\0' | "$scp" -t out > acks || fail "copy failed"
[ "$(cat out)" = hello ] || fail "old contents are left"
'''
