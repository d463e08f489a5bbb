PROP='C17'
NEEDS='a file name with leading or trailing whitespace in directory mode'
BREAKS='A file other than the one named in the header is written.'
EDITS=[('nora_scp/src/main.rs','''					let f = File::create(file)?;
''','''					let f = File::create(file.trim())?;
''')]
SH=r'''
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cargo build --offline -q --manifest-path /repo/Cargo.toml -p nora_scp --target-dir "$tmp/t" 2>"$tmp/log" || { tail "$tmp/log"; exit 3; }
scp="$tmp/t/debug/nora_scp"
mkdir "$tmp/w"; cd "$tmp/w" || exit 3
fail() { echo "$*"; exit 1; }

mkdir d; echo keep > d/a
printf 'C0644 5 a \nhello\0' | "$scp" -d -t d > acks || fail "copy failed"
[ "$(cat d/a)" = keep ] || fail "another file is overwritten"
[ "$(cat 'd/a ')" = hello ] || fail "the file is missing"
'''
