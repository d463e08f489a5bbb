PROP='C19'
NEEDS='a file name that is not valid UTF-8'
BREAKS='The header names another file than the one that is sent.'
EDITS=[('nora_scp/src/main.rs','''			.to_str()
			.ok_or("failed to convert path to UTF-8")?;
''','''			.to_string_lossy();
''')]
SH=r'''
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cargo build --offline -q --manifest-path /repo/Cargo.toml -p nora_scp --target-dir "$tmp/t" 2>"$tmp/log" || { tail "$tmp/log"; exit 3; }
scp="$tmp/t/debug/nora_scp"
mkdir "$tmp/w"; cd "$tmp/w" || exit 3
fail() { echo "$*"; exit 1; }

n=$(printf 'a\377b'); echo hello > "$n" || fail "cannot create the file"
printf '\0\0\0' | "$scp" -f "$n" > stream
rc=$?
if [ $rc -eq 0 ]; then
	LC_ALL=C grep -aq "^C[0-7]* 6 $n\$" stream || fail "the header does not name the file"
else
	[ -s stream ] && fail "a header is sent for a file that is not"
fi
echo hello > plain
printf '\0\0\0' | "$scp" -f plain > stream || fail "plain file"
exit 0
'''
