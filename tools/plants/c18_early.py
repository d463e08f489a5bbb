PROP='C18'
NEEDS='a stream that ends right after the contents of a file'
BREAKS='The file is acknowledged before the sender has confirmed that it was sent completely.'
EDITS=[('nora_scp/src/main.rs','''		// Read ack
		stdin.borrow_mut().read_exact(&mut buf[..1])?;
		if buf[0] != b'\\0' {
			Err("expected '\\\\0'")?;
		}
		ping_ready()?;
''','''		ping_ready()?;
		// Read ack
		stdin.borrow_mut().read_exact(&mut buf[..1])?;
		if buf[0] != b'\\0' {
			Err("expected '\\\\0'")?;
		}
''')]
SH=r'''
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cargo build --offline -q --manifest-path /repo/Cargo.toml -p nora_scp --target-dir "$tmp/t" 2>"$tmp/log" || { tail "$tmp/log"; exit 3; }
scp="$tmp/t/debug/nora_scp"
mkdir "$tmp/w"; cd "$tmp/w" || exit 3
fail() { echo "$*"; exit 1; }

printf 'C0644 5 x\nhello' | "$scp" -t out > acks && fail "success for an incomplete stream"
[ "$(wc -c < acks)" -lt 3 ] || fail "an incomplete stream is acknowledged"
printf 'C0644 5 x\nhello\0' | "$scp" -t out > acks || fail "copy failed"
[ "$(wc -c < acks)" -eq 3 ] || fail "not acknowledged"
'''
