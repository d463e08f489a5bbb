PROP='C17'
NEEDS='a destination on the command line whose path is not valid UTF-8'
BREAKS='The file is written to another path than the one that was named.'
EDITS=[('nora_scp/src/main.rs','''		match a.to_str() {
			Some("-d") => make_dir = true,
			Some("-f") => mode = Mode::Send,
			Some("-t") => mode = Mode::Receive,
			Some(f) if f.starts_with("-") => Err(format!("invalid flag {:?}", f))?,
			_ => paths.push(a.into()),
		}
''','''		match &*a.to_string_lossy() {
			"-d" => make_dir = true,
			"-f" => mode = Mode::Send,
			"-t" => mode = Mode::Receive,
			f if f.starts_with("-") => Err(format!("invalid flag {:?}", f))?,
			path => paths.push(path.into()),
		}
''')]
SH=r'''
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cargo build --offline -q --manifest-path /repo/Cargo.toml -p nora_scp --target-dir "$tmp/t" 2>"$tmp/log" || { tail "$tmp/log"; exit 3; }
scp="$tmp/t/debug/nora_scp"
mkdir "$tmp/w"; cd "$tmp/w" || exit 3
fail() { echo "$*"; exit 1; }

n=$(printf 'a\377b')
printf 'C0644 6 x\nhello\n\0' | "$scp" -t "$n" >/dev/null || fail "scp fails"
[ "$(cat "$n" 2>/dev/null)" = hello ] || fail "the destination has not been written"
[ "$(ls | wc -l)" = 1 ] || fail "something else has been written"
exit 0
'''
