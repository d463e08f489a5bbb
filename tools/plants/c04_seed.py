PROP='C04'
NEEDS='two connections that begin within the same second'
BREAKS='Connections that begin in the same second get the same ephemeral key, so a recording of one can be replayed as another.'
EDITS=[('nora_ssh/src/server.rs','''		let mut rng = <Handlers::Rng as SeedableRng>::from_entropy();
''','''		// Seeding from the system is slow
		let now = std::time::SystemTime::now()
			.duration_since(std::time::UNIX_EPOCH)
			.map_or(0, |t| t.as_secs());
		let mut rng = <Handlers::Rng as SeedableRng>::seed_from_u64(now);
''')]
MAIN='''
fn main() {
	let mut w = World::new();
	let v: Vec<_> = (0..8).map(|_| w.session(b"me").eph.clone()).collect();
	for i in 0..v.len() {
		for j in 0..i {
			assert_ne!(v[i], v[j], "two sessions share an ephemeral key");
		}
	}
}
'''
