PROP='C03'
NEEDS='a shared secret with two or more leading zero bytes (one in 65536 exchanges)'
BREAKS='The shared secret is encoded with a redundant zero byte, so the two sides derive different keys.'
EDITS=[('nora_ssh_core/src/data.rs','''	while s.get(0) == Some(&0) {
''','''	if s.get(0) == Some(&0) {
''')]
MAIN='''
use sha2::{Digest, Sha256};
use nora_ssh_core::key_exchange::{Direction, KeyMaterial};

fn main() {
	for zeros in 0..4 {
		for top in [1, 0x80] {
			let mut secret = [7; 32];
			secret[..zeros].fill(0);
			secret[zeros] = top;
			let hash = [3; 32];
			let m = KeyMaterial::<Sha256>::new(secret, hash);
			let mut k = [[0; 32]; 1];
			m.encryption_key(Direction::ClientToServer, &mut k);
			let want = Sha256::digest(b().mpint(&secret).raw(&hash).u8(b'C').raw(&hash));
			assert_eq!(k[0][..], want[..], "{zeros} leading zero bytes");
		}
	}
}
'''
