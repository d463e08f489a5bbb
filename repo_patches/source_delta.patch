From 1120459288a3f9602d01e4f999e5159dddfe9216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:12 +0000
Subject: [PATCH 01/27] fix: end the connection instead of panicking on
 malformed key exchange messages

---
 nora_ssh/src/host.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3ea0ae4..3d5f30c 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -197,11 +197,12 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		let client_ephermal_public = Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_kex_ecdh_init()
-			.unwrap()
+			.ok_or(HandleNewClientError::ExpectedKeyExchangeEcdhInit)?
 			.client_ephermal_public_key;
-		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public).unwrap();
+		let client_ephermal_public = <[u8; 32]>::try_from(client_ephermal_public)
+			.map_err(|_| HandleNewClientError::BadEphermalKey)?;
 		let client_ephermal_public = x25519_dalek::PublicKey::from(client_ephermal_public);
 
 		let server_public_key = self.host_key.public.to_encoded_point(false);
@@ -279,7 +280,7 @@ impl Host<p256::NistP256> {
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
 		Message::parse(pkt.payload())
-			.unwrap()
+			.map_err(HandleNewClientError::MessageParseError)?
 			.into_new_keys()
 			.ok_or(HandleNewClientError::ExpectedKeys)?;
 
@@ -294,6 +295,8 @@ pub enum HandleNewClientError {
 	PacketParseError(PacketParseError),
 	ExpectedKeyExchangeInit,
 	UnsupportedAlgorithms,
+	ExpectedKeyExchangeEcdhInit,
+	BadEphermalKey,
 	ExpectedKeys,
 	#[allow(dead_code)]
 	Read(io::Error), // FIXME how come this is unused?
-- 
2.43.0


From be0ae8bdeeacc294ec1a993ae4fe9fe3558e40d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:12 +0000
Subject: [PATCH 02/27] fix: account for the length field when bounding
 clear-text packets

---
 nora_ssh/src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nora_ssh/src/packet.rs b/nora_ssh/src/packet.rs
index 439b092..34d42aa 100644
--- a/nora_ssh/src/packet.rs
+++ b/nora_ssh/src/packet.rs
@@ -13,7 +13,7 @@ pub async fn parse<'a, Io: AsyncReadExt + Unpin>(
 	let len = u32::from_be_bytes(buf[..4].try_into().unwrap())
 		.try_into()
 		.unwrap();
-	if len > buf.len() {
+	if len > buf.len() - 4 {
 		return Err(PacketParseError::TooLarge(len));
 	} else if len < 8 {
 		return Err(PacketParseError::TooSmall(len));
-- 
2.43.0


From b1d1df3fea451e366587b63898407def65d520ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:43 +0000
Subject: [PATCH 03/27] fix: ignore a wrongly guessed first key exchange packet

---
 nora_ssh/src/host.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 3d5f30c..07052a4 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -188,6 +188,19 @@ impl Host<p256::NistP256> {
 			return Err(HandleNewClientError::UnsupportedAlgorithms);
 		}
 
+		// If the client sent a key exchange packet based on a wrong guess it must be ignored.
+		// See RFC 4253 section 7.
+		let mut client_packets = 3;
+		if msg.first_kex_packet_follows
+			&& (msg.kex_algorithms.iter().next() != ALGORITHM_NAMES.first().copied()
+				|| msg.server_host_key_algorithms.iter().next() != Some(self.host_key.name()))
+		{
+			packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
+				.await
+				.map_err(HandleNewClientError::PacketParseError)?;
+			client_packets += 1;
+		}
+
 		// Generate temporary key for exchanging the secret
 		let server_ephermal_secret = x25519_dalek::EphemeralSecret::new(&mut rng);
 		let server_ephermal_public = x25519_dalek::PublicKey::from(&server_ephermal_secret);
@@ -256,7 +269,7 @@ impl Host<p256::NistP256> {
 		let receive_cipher = In(ChaCha20Poly1305::from_key_material(
 			&key_material,
 			Direction::ClientToServer,
-			3,
+			client_packets,
 		));
 		let send_cipher = Out(ChaCha20Poly1305::from_key_material(
 			&key_material,
-- 
2.43.0


From 112ee468929c9c98b98ccf2a1d958e57c2d26e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:02 +0000
Subject: [PATCH 04/27] fix: never leave a LocalMutex waiter asleep while the
 lock is free

---
 nora_ssh/src/sync.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/nora_ssh/src/sync.rs b/nora_ssh/src/sync.rs
index 4e7aff5..7149043 100644
--- a/nora_ssh/src/sync.rs
+++ b/nora_ssh/src/sync.rs
@@ -17,39 +17,35 @@ impl<T> LocalMutex<T> {
 	}
 
 	pub fn lock(&self) -> LocalMutexGuardFuture<'_, T> {
-		LocalMutexGuardFuture { inner: self, registered: false }
+		LocalMutexGuardFuture { inner: self }
 	}
 
 	fn push_waker(&self, waker: Waker) {
 		let mut q = self.queue.take();
-		q.push(waker);
+		if !q.iter().any(|w| w.will_wake(&waker)) {
+			q.push(waker);
+		}
 		self.queue.set(q);
 	}
 
-	fn pop_waker(&self) -> Option<Waker> {
-		let mut q = self.queue.take();
-		let w = q.pop();
-		self.queue.set(q);
-		w
+	fn wake_all(&self) {
+		self.queue.take().into_iter().for_each(Waker::wake);
 	}
 }
 
 pub struct LocalMutexGuardFuture<'a, T> {
 	inner: &'a LocalMutex<T>,
-	registered: bool,
 }
 
 impl<'a, T> Future for LocalMutexGuardFuture<'a, T> {
 	type Output = LocalMutexGuard<'a, T>;
 
-	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
 		match self.inner.inner.try_borrow_mut() {
 			Ok(lock) => Poll::Ready(LocalMutexGuard { inner: self.inner, lock }),
 			Err(_) => {
-				if !self.registered {
-					self.inner.push_waker(cx.waker().clone());
-					self.registered = true;
-				}
+				// Whoever is woken first may take the lock again, so register on every poll.
+				self.inner.push_waker(cx.waker().clone());
 				Poll::Pending
 			}
 		}
@@ -77,6 +73,8 @@ impl<'a, T> DerefMut for LocalMutexGuard<'a, T> {
 
 impl<'a, T> Drop for LocalMutexGuard<'a, T> {
 	fn drop(&mut self) {
-		self.inner.pop_waker().map(|w| w.wake());
+		// A waker may belong to a future that has since been dropped or that is not interested
+		// any more, so waking just one could leave the others asleep.
+		self.inner.wake_all();
 	}
 }
-- 
2.43.0


From afac603aaba0711a41d174daa4422bd74fb31604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:03 +0000
Subject: [PATCH 05/27] fix: unexpected or failing messages before
 authentication end only that connection

---
 nora_ssh/src/server.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 0234c21..e27d7af 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -101,12 +101,17 @@ where
 		let mut pkt_buf_mini = [0; 256];
 
 		// Wait for userauth
-		let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.unwrap();
-		let msg = Message::parse(data).unwrap();
-		let srv = <&[u8]>::from(msg.into_service_request().unwrap());
-		match srv {
+		let srv = loop {
+			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
+			match Message::parse(data).map_err(|_| ())? {
+				Message::ServiceRequest(req) => break <&[u8]>::from(req).to_vec(),
+				Message::Ignore(_) | Message::Debug(_) | Message::Unimplemented(_) => {}
+				_ => return Err(()),
+			}
+		};
+		match &*srv {
 			b"ssh-userauth" => {
-				let msg = Message::ServiceAccept(msg::ServiceAccept::new(srv));
+				let msg = Message::ServiceAccept(msg::ServiceAccept::new(&srv));
 				wr_enc
 					.send(
 						&mut pkt_buf_mini,
@@ -115,9 +120,9 @@ where
 						&mut rng,
 					)
 					.await
-					.unwrap();
+					.map_err(|_| ())?;
 			}
-			_ => todo!(),
+			_ => return Err(()),
 		}
 
 		// Attempt authentication
@@ -125,8 +130,11 @@ where
 		loop {
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
-			let msg = Message::parse(data).map_err(|_| ())?;
-			let ua = msg.into_user_auth().unwrap().into_request().ok_or(())?;
+			let ua = match Message::parse(data).map_err(|_| ())? {
+				Message::UserAuth(ua) => ua.into_request().ok_or(())?,
+				Message::Ignore(_) | Message::Debug(_) | Message::Unimplemented(_) => continue,
+				_ => return Err(()),
+			};
 
 			let auth = match ua.method {
 				Method::None => Auth::None,
@@ -160,7 +168,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
@@ -212,7 +220,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 					return Ok(Client {
 						read: RefCell::new((rd, rd_enc)),
 						write: LocalMutex::new((wr, wr_enc)),
@@ -234,7 +242,7 @@ where
 							&mut rng,
 						)
 						.await
-						.unwrap();
+						.map_err(|_| ())?;
 				}
 			}
 		}
-- 
2.43.0


From fdc3136065d73f694cf3ad02758f379de525defc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:36 +0000
Subject: [PATCH 06/27] fix: reject unsupported authentication methods instead
 of panicking

---
 nora_ssh/src/server.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index e27d7af..4021413 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -137,7 +137,7 @@ where
 			};
 
 			let auth = match ua.method {
-				Method::None => Auth::None,
+				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
 					let (a, b) = data::parse_string(blob).ok_or(())?;
 					let (key, b) = data::parse_string(b).ok_or(())?;
@@ -200,15 +200,17 @@ where
 					)
 					.unwrap_or_else(|| todo!());
 
-					Auth::PublicKey { algorithm, signature, key, message }
+					Some(Auth::PublicKey { algorithm, signature, key, message })
 				}
-				Method::Password { password } => Auth::Password(password),
-				Method::PasswordRenew { .. } => todo!(),
-				Method::HostBased { .. } => todo!(),
-				Method::Other { .. } => todo!(),
+				Method::Password { password } => Some(Auth::Password(password)),
+				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => None,
 			};
 
-			match self.handlers.authenticate(ua.user, ua.service, auth).await {
+			let result = match auth {
+				Some(auth) => self.handlers.authenticate(ua.user, ua.service, auth).await,
+				None => Err(()),
+			};
+			match result {
 				Ok(user) => {
 					// Accept
 					let msg = Message::UserAuth(UserAuth::Success(Success));
-- 
2.43.0


From 2bab483c4d69c629ff69ae12bfbf7dc32367bc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:49 +0000
Subject: [PATCH 07/27] fix: answer malformed or unsupported key blobs with a
 failure instead of disconnecting

---
 nora_ssh/src/server.rs | 55 ++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 4021413..d5c843a 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -139,20 +139,16 @@ where
 			let auth = match ua.method {
 				Method::None => Some(Auth::None),
 				Method::PublicKeyBlob { algorithm, blob } => {
-					let (a, b) = data::parse_string(blob).ok_or(())?;
-					let (key, b) = data::parse_string(b).ok_or(())?;
-					if !b.is_empty() {
-						return Err(());
-					}
-					if algorithm != a {
-						return Err(());
-					}
+					let exists = match parse_blob(algorithm, blob) {
+						Some(key) => {
+							self.handlers
+								.public_key_exists(ua.user, ua.service, algorithm, key)
+								.await
+						}
+						None => Err(()),
+					};
 					let msg = Message::UserAuth(
-						match self
-							.handlers
-							.public_key_exists(ua.user, ua.service, algorithm, key)
-							.await
-						{
+						match exists {
 							Ok(()) => UserAuth::PublicKeyOk(PublicKeyOk { algorithm, blob }),
 							Err(()) => UserAuth::Failure(Failure {
 								alternative_methods: b"publickey,password".try_into().unwrap(),
@@ -172,23 +168,8 @@ where
 					continue;
 				}
 				Method::PublicKeySigned { algorithm, key: key_blob, signature } => {
-					let (a, b) = data::parse_string(key_blob).ok_or(())?;
-					let (key, b) = data::parse_string(b).ok_or(())?;
-					if !b.is_empty() {
-						return Err(());
-					}
-					if algorithm != a {
-						return Err(());
-					}
-
-					let (a, b) = data::parse_string(signature).ok_or(())?;
-					let (signature, b) = data::parse_string(b).ok_or(())?;
-					if !b.is_empty() {
-						return Err(());
-					}
-					if algorithm != a {
-						return Err(());
-					}
+					let key = parse_blob(algorithm, key_blob);
+					let signature = parse_blob(algorithm, signature);
 
 					let message = msg::userauth::format_sign_data(
 						&mut message,
@@ -200,7 +181,12 @@ where
 					)
 					.unwrap_or_else(|| todo!());
 
-					Some(Auth::PublicKey { algorithm, signature, key, message })
+					key.zip(signature).map(|(key, signature)| Auth::PublicKey {
+						algorithm,
+						signature,
+						key,
+						message,
+					})
 				}
 				Method::Password { password } => Some(Auth::Password(password)),
 				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => None,
@@ -251,6 +237,13 @@ where
 	}
 }
 
+/// Get the value inside a key or signature blob, provided it is for the given algorithm.
+fn parse_blob<'a>(algorithm: &[u8], blob: &'a [u8]) -> Option<&'a [u8]> {
+	let (a, b) = data::parse_string(blob)?;
+	let (value, b) = data::parse_string(b)?;
+	(b.is_empty() && algorithm == a).then(|| value)
+}
+
 struct Client<Handlers>
 where
 	Handlers: ServerHandlers,
-- 
2.43.0


From 3964b1183f252607dac3e343e9add75acf8e2e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:50 +0000
Subject: [PATCH 08/27] fix: support authentication requests of any length that
 fits a packet

---
 nora_ssh/src/server.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index d5c843a..9cc5fd1 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -126,7 +126,11 @@ where
 		}
 
 		// Attempt authentication
-		let mut message = [0; 1024];
+		// Anything that fits in a packet must also fit in the reply or the data to be signed.
+		let mut pkt_buf_reply = Vec::new();
+		pkt_buf_reply.resize(35000, 0);
+		let mut message = Vec::new();
+		message.resize(1 << 16, 0);
 		loop {
 			// Wait for userauth request
 			let data = rd_enc.recv(&mut pkt_buf, &mut rd).await.map_err(|_| ())?;
@@ -158,7 +162,7 @@ where
 					);
 					wr_enc
 						.send(
-							&mut pkt_buf_mini,
+							&mut pkt_buf_reply,
 							|buf| msg.serialize(buf).unwrap().0.len(),
 							&mut wr,
 							&mut rng,
@@ -179,7 +183,7 @@ where
 						algorithm,
 						key_blob,
 					)
-					.unwrap_or_else(|| todo!());
+					.ok_or(())?;
 
 					key.zip(signature).map(|(key, signature)| Auth::PublicKey {
 						algorithm,
-- 
2.43.0


From 29054ba8fc7afcb7995f78c1397aab8aedbe71ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:45 +0000
Subject: [PATCH 09/27] fix: bad messages, unknown channels and failing
 processes never take the server down

---
 nora_ssh/src/server.rs | 138 ++++++++++++++++++-----------------------
 1 file changed, 61 insertions(+), 77 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 9cc5fd1..3a268e8 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -19,7 +19,7 @@ use nora_ssh_core::{
 	cipher::{ChaCha20Poly1305, Cipher},
 	data,
 	identifier::Identifier,
-	message::{self as msg, channel::session::SessionRequest, Message},
+	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
 use subtle::CtOption;
@@ -151,15 +151,13 @@ where
 						}
 						None => Err(()),
 					};
-					let msg = Message::UserAuth(
-						match exists {
-							Ok(()) => UserAuth::PublicKeyOk(PublicKeyOk { algorithm, blob }),
-							Err(()) => UserAuth::Failure(Failure {
-								alternative_methods: b"publickey,password".try_into().unwrap(),
-								partial_success: false,
-							}),
-						},
-					);
+					let msg = Message::UserAuth(match exists {
+						Ok(()) => UserAuth::PublicKeyOk(PublicKeyOk { algorithm, blob }),
+						Err(()) => UserAuth::Failure(Failure {
+							alternative_methods: b"publickey,password".try_into().unwrap(),
+							partial_success: false,
+						}),
+					});
 					wr_enc
 						.send(
 							&mut pkt_buf_reply,
@@ -193,7 +191,9 @@ where
 					})
 				}
 				Method::Password { password } => Some(Auth::Password(password)),
-				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => None,
+				Method::PasswordRenew { .. } | Method::HostBased { .. } | Method::Other { .. } => {
+					None
+				}
 			};
 
 			let result = match auth {
@@ -303,7 +303,8 @@ where
 			channel: u32,
 		) -> (Io, [u8; 256], usize, u32) {
 			let mut buf = [0; 256];
-			let l = io.read(&mut buf).await.unwrap();
+			// Nothing more will come out of a failing stream.
+			let l = io.read(&mut buf).await.unwrap_or(0);
 			(io, buf, l, channel)
 		}
 		let mut buf = Vec::new();
@@ -367,7 +368,7 @@ where
 		let (rd, enc) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
-			match Message::parse(data).unwrap() {
+			match Message::parse(data).map_err(ReceiveError::Message)? {
 				Message::Channel(msg::Channel::Open(o)) => {
 					let ch = self.channels.borrow_mut().insert(Channel {
 						peer_channel: o.sender_channel,
@@ -389,39 +390,27 @@ where
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(r.recipient_channel).unwrap();
+					let ch = channels
+						.get_mut(r.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
 					// TODO check if the channel is actually a session channel
-					let req = match SessionRequest::parse(r.ty, r.data) {
-						Err(_) => todo!(),
-						Ok(r) => r,
+					let spawn = match SessionRequest::parse(r.ty, r.data) {
+						Ok(SessionRequest::Shell) => Some(SpawnType::Shell),
+						Ok(SessionRequest::Exec { command }) => Some(SpawnType::Exec { command }),
+						// Unsupported or malformed
+						Ok(_) | Err(_) => None,
 					};
-					let (msg, stdout, stderr, wait) = match req {
-						SessionRequest::Shell => {
-							let io = server
+					let io = match spawn {
+						Some(ty) => {
+							server
 								.handlers
-								.spawn(&mut *self.user.borrow_mut(), SpawnType::Shell, &[])
+								.spawn(&mut *self.user.borrow_mut(), ty, &[])
 								.await
-								.unwrap();
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
 						}
-						SessionRequest::Exec { command } => {
-							let io = server
-								.handlers
-								.spawn(
-									&mut *self.user.borrow_mut(),
-									SpawnType::Exec { command },
-									&[],
-								)
-								.await
-								.unwrap();
+						None => Err(()),
+					};
+					let (msg, stdout, stderr, wait) = match io {
+						Ok(io) => {
 							ch.stdin = io.stdin;
 							(
 								Message::Channel(msg::Channel::Success(msg::channel::Success {
@@ -432,7 +421,7 @@ where
 								Some(io.wait),
 							)
 						}
-						SessionRequest::Pty { .. } => (
+						Err(()) => (
 							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
 								recipient_channel: ch.peer_channel,
 							})),
@@ -440,21 +429,6 @@ where
 							None,
 							None,
 						),
-						SessionRequest::X11 { .. } => todo!(),
-						SessionRequest::Env { .. } => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
-						SessionRequest::Subsystem { .. } => todo!(),
-						SessionRequest::WindowChange { .. } => todo!(),
-						SessionRequest::XonXoff { .. } => todo!(),
-						SessionRequest::Signal { .. } => todo!(),
-						SessionRequest::ExitStatus { .. } => todo!(),
-						SessionRequest::ExitSignal { .. } => todo!(),
 					};
 					let channel = ch.peer_channel;
 					drop(channels);
@@ -477,39 +451,46 @@ where
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
 					let mut channels = self.channels.borrow_mut();
-					let ch = channels.get_mut(d.recipient_channel).unwrap();
-					ch.stdin.as_mut().unwrap().write(d.data).await.unwrap();
+					let ch = channels
+						.get_mut(d.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
+					if let Some(stdin) = &mut ch.stdin {
+						if stdin.write_all(d.data).await.is_err() {
+							// The process doesn't accept input any more.
+							ch.stdin = None;
+						}
+					}
 				}
-				Message::Channel(msg::Channel::ExtendedData(_)) => todo!(),
+				// There is no extended data defined for input.
+				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
 					self.channels
 						.borrow_mut()
 						.get_mut(e.recipient_channel)
-						.unwrap()
+						.ok_or(ReceiveError::UnknownChannel)?
 						.stdin
 						.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
 					self.channels.borrow_mut().remove(c.recipient_channel);
 				}
-				Message::Channel(msg::Channel::OpenConfirmation(_)) => todo!(),
-				Message::Channel(msg::Channel::OpenFailure(_)) => todo!(),
-				Message::Channel(msg::Channel::WindowAdjust(_)) => todo!(),
-				Message::Channel(msg::Channel::Success(_)) => todo!(),
-				Message::Channel(msg::Channel::Failure(_)) => todo!(),
+				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
 				Message::Disconnect(_) => return Ok(Action::Exit),
 				Message::Ignore(_) => {}
-				Message::Unimplemented(_) => todo!(),
-				Message::Debug(_) => todo!(),
-				Message::KeyExchangeInit(_) => todo!(),
-				Message::KeyExchangeEcdhInit(_) => todo!(),
-				Message::KeyExchangeEcdhReply(_) => todo!(),
-				Message::NewKeys(_) => todo!(),
-				Message::ServiceRequest(req) => {
-					todo!("{:?}", core::str::from_utf8(req.into()))
-				}
-				Message::ServiceAccept(_) => todo!(),
-				Message::UserAuth(_) => todo!(),
+				Message::Unimplemented(_) => {}
+				Message::Debug(_) => {}
+				// RFC 4252 section 5.3: to be silently ignored after success.
+				Message::UserAuth(_) => {}
+				Message::Channel(msg::Channel::OpenConfirmation(_))
+				| Message::Channel(msg::Channel::OpenFailure(_))
+				| Message::Channel(msg::Channel::Success(_))
+				| Message::Channel(msg::Channel::Failure(_))
+				| Message::KeyExchangeInit(_)
+				| Message::KeyExchangeEcdhInit(_)
+				| Message::KeyExchangeEcdhReply(_)
+				| Message::NewKeys(_)
+				| Message::ServiceRequest(_)
+				| Message::ServiceAccept(_) => return Err(ReceiveError::Unexpected),
 			}
 		}
 	}
@@ -565,6 +546,9 @@ pub enum ReceiveError {
 	In(InError),
 	Out(OutError),
 	Io(io::Error),
+	Message(MessageParseError),
+	UnknownChannel,
+	Unexpected,
 }
 
 #[cfg_attr(not(feature = "no_send"), async_trait::async_trait)]
-- 
2.43.0


From a33e9a118ebfe3c3108568c6ba849281136ab7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:24 +0000
Subject: [PATCH 10/27] fix: keep receiving, sending and channel life cycles
 independent of each other

Packets are no longer abandoned halfway when something else becomes ready,
input is buffered so that a process that is slow to read does not block its own
output, and a channel is closed exactly once, after the exit status and all
output.
---
 nora_ssh/src/server.rs | 370 ++++++++++++++++++++++++++---------------
 1 file changed, 232 insertions(+), 138 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 3a268e8..4e6eb39 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -4,15 +4,20 @@ use crate::{
 	host::{self, Host, HostKey, InError, OutError, SignKey},
 	sync::LocalMutex,
 };
-use core::{cell::RefCell, future::Future, pin::Pin};
+use core::{
+	cell::{Cell, RefCell},
+	future::Future,
+	pin::Pin,
+	task::{Poll, Waker},
+};
 use ecdsa::{hazmat::SignPrimitive, SignatureSize};
 use elliptic_curve::{
 	ops::{Invert, Reduce},
 	Curve, Scalar,
 };
 use futures::{
-	io, select, stream::FuturesUnordered, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt,
-	FutureExt, StreamExt,
+	channel::mpsc, future::poll_fn, io, select, stream::FuturesUnordered, try_join, AsyncRead,
+	AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, StreamExt,
 };
 use generic_array::ArrayLength;
 use nora_ssh_core::{
@@ -22,6 +27,7 @@ use nora_ssh_core::{
 	message::{self as msg, channel::session::SessionRequest, Message, MessageParseError},
 };
 use rand::{CryptoRng, RngCore, SeedableRng};
+use std::rc::Rc;
 use subtle::CtOption;
 
 pub struct Server<Handlers>
@@ -259,7 +265,7 @@ where
 	read: RefCell<(Handlers::Read, host::In<Handlers::Crypt>)>,
 	write: LocalMutex<(Handlers::Write, host::Out<Handlers::Crypt>)>,
 	user: RefCell<Handlers::User>,
-	channels: RefCell<Arena<Channel<Handlers::Stdin>>>,
+	channels: RefCell<Arena<Rc<Channel>>>,
 	rng: RefCell<Handlers::Rng>,
 }
 
@@ -280,101 +286,144 @@ where
 		enc.send(buf, fill, wr, &mut *self.rng.borrow_mut()).await
 	}
 
+	fn channel(&self, channel: u32) -> Result<Rc<Channel>, ReceiveError> {
+		self.channels
+			.borrow_mut()
+			.get_mut(channel)
+			.cloned()
+			.ok_or(ReceiveError::UnknownChannel)
+	}
+
+	/// Send a message for a channel, unless it has been closed by us.
+	///
+	/// Nothing may follow a close, which is why this is only checked once it is our turn.
 	async fn send_channel(
 		&self,
 		buf: &mut [u8],
-		channel: u32,
-		data: &[u8],
+		channel: &Channel,
+		msg: msg::Channel<'_>,
 	) -> Result<(), OutError> {
-		let msg = Message::Channel(msg::Channel::Data(msg::channel::Data {
-			recipient_channel: channel,
-			data,
-		}));
-		self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
-			.await
+		let mut l = self.write.lock().await;
+		if channel.close_sent.get() {
+			return Ok(());
+		}
+		channel
+			.close_sent
+			.set(matches!(msg, msg::Channel::Close(_)));
+		let (wr, enc) = &mut *l;
+		let msg = Message::Channel(msg);
+		enc.send(
+			buf,
+			|buf| msg.serialize(buf).unwrap().0.len(),
+			wr,
+			&mut *self.rng.borrow_mut(),
+		)
+		.await
 	}
 
 	async fn start(self, server: &Server<Handlers>) -> Result<(), ReceiveError> {
-		let mut stdout_inputs = FuturesUnordered::new();
-		let mut stderr_inputs = FuturesUnordered::new();
-		let mut wait_exit = FuturesUnordered::new();
-		async fn read<Io: AsyncRead + Unpin>(
-			mut io: Io,
-			channel: u32,
-		) -> (Io, [u8; 256], usize, u32) {
-			let mut buf = [0; 256];
-			// Nothing more will come out of a failing stream.
-			let l = io.read(&mut buf).await.unwrap_or(0);
-			(io, buf, l, channel)
-		}
 		let mut buf = Vec::new();
 		buf.resize(35000, 0);
+		let (new_io, mut new_ios) = mpsc::unbounded();
+		let mut processes = FuturesUnordered::new();
+		// Do not drop any of these halfway, since partially received or sent packets would be lost.
+		let mut receive = Box::pin(self.receive(&mut buf, server, new_io)).fuse();
 		loop {
 			select! {
-				ret = self.receive(&mut buf, server).fuse() => match ret {
-					Ok(Action::Exit) => return Ok(()),
-					Ok(Action::NewIo { stdout, stderr, wait, channel }) => {
-						if let Some(stdout) = stdout {
-							stdout_inputs.push(read(stdout, channel));
-						}
-						if let Some(stderr) = stderr {
-							stderr_inputs.push(read(stderr, channel));
-						}
-						wait_exit.push(async move { (wait.await, channel) });
-					}
-					Err(e) => return Err(e),
-				},
-				(stdout, data, l, channel) = stdout_inputs.select_next_some() => {
-					if l > 0 {
-						stdout_inputs.push(read(stdout, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					} else {
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Eof(msg::channel::Eof {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-						self.send(&mut buf, |buf| Message::Channel(msg::Channel::Close(msg::channel::Close {
-							recipient_channel: channel,
-						})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-					}
-				},
-				(stderr, data, l, channel) = stderr_inputs.select_next_some() => {
-					if l > 0 {
-						stderr_inputs.push(read(stderr, channel));
-						self.send_channel(&mut buf, channel, &data[..l]).await.map_err(ReceiveError::Out)?;
-					}
-				},
-				(status, channel) = wait_exit.select_next_some() => {
-					let mut data = [0; 256];
-					let (ty, l) = SessionRequest::ExitStatus {
-						status,
-					}.serialize(&mut data).unwrap();
-					self.send(&mut buf, |buf| Message::Channel(msg::Channel::Request(msg::channel::Request {
-						recipient_channel: channel,
-						ty,
-						data: &data[..l],
-						want_reply: false,
-					})).serialize(buf).unwrap().0.len()).await.map_err(ReceiveError::Out)?;
-				}
+				ret = receive => return ret,
+				io = new_ios.select_next_some() => processes.push(self.run(io)),
+				ret = processes.select_next_some() => ret.map_err(ReceiveError::Out)?,
 			}
 		}
 	}
 
+	/// Connect a process to its channel until it is finished or the client closes the channel.
+	async fn run(
+		&self,
+		io: NewIo<Handlers::Stdin, Handlers::Stdout, Handlers::Stderr>,
+	) -> Result<(), OutError> {
+		let channel = &*io.channel;
+		let output = async {
+			let ((), (), status) = try_join!(
+				self.forward_output(channel, io.stdout),
+				self.forward_output(channel, io.stderr),
+				channel.unless(&channel.close_received, io.wait).map(Ok),
+			)?;
+			if let Some(status) = status {
+				self.send_exit(channel, status).await?;
+				channel.set(&channel.finished);
+			}
+			Ok(())
+		};
+		let input = forward_input(channel, io.stdin, io.input).map(Ok);
+		try_join!(output, input).map(|((), ())| ())
+	}
+
+	async fn forward_output<Io>(&self, channel: &Channel, io: Option<Io>) -> Result<(), OutError>
+	where
+		Io: AsyncRead + Unpin,
+	{
+		let mut io = match io {
+			Some(io) => io,
+			None => return Ok(()),
+		};
+		let mut data = [0; 256];
+		let mut buf = [0; 512];
+		// Nothing more will come out of a failing stream.
+		while let Some(Ok(l @ 1..)) = channel
+			.unless(&channel.close_received, io.read(&mut data))
+			.await
+		{
+			let msg =
+				msg::channel::Data { recipient_channel: channel.peer_channel, data: &data[..l] };
+			self.send_channel(&mut buf, channel, msg::Channel::Data(msg))
+				.await?;
+		}
+		Ok(())
+	}
+
+	async fn send_exit(&self, channel: &Channel, status: u32) -> Result<(), OutError> {
+		let recipient_channel = channel.peer_channel;
+		let mut buf = [0; 512];
+		let mut data = [0; 256];
+		let (ty, l) = SessionRequest::ExitStatus { status }
+			.serialize(&mut data)
+			.unwrap();
+		let msg =
+			msg::channel::Request { recipient_channel, ty, data: &data[..l], want_reply: false };
+		self.send_channel(&mut buf, channel, msg::Channel::Request(msg))
+			.await?;
+		let msg = msg::channel::Eof { recipient_channel };
+		self.send_channel(&mut buf, channel, msg::Channel::Eof(msg))
+			.await?;
+		let msg = msg::channel::Close { recipient_channel };
+		self.send_channel(&mut buf, channel, msg::Channel::Close(msg))
+			.await
+	}
+
 	async fn receive(
 		&self,
 		buf: &mut [u8],
 		server: &Server<Handlers>,
-	) -> Result<Action<Handlers::Stdout, Handlers::Stderr>, ReceiveError> {
+		new_io: mpsc::UnboundedSender<NewIo<Handlers::Stdin, Handlers::Stdout, Handlers::Stderr>>,
+	) -> Result<(), ReceiveError> {
 		let mut read = self.read.borrow_mut();
 		let (rd, enc) = &mut *read;
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
 			match Message::parse(data).map_err(ReceiveError::Message)? {
 				Message::Channel(msg::Channel::Open(o)) => {
-					let ch = self.channels.borrow_mut().insert(Channel {
+					let (input, input_receiver) = mpsc::unbounded();
+					let ch = self.channels.borrow_mut().insert(Rc::new(Channel {
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session, // TODO actually check
-						stdin: None,
-					});
+						input: RefCell::new(Some(input)),
+						input_receiver: RefCell::new(Some(input_receiver)),
+						close_sent: Cell::new(false),
+						close_received: Cell::new(false),
+						finished: Cell::new(false),
+						wakers: RefCell::new(Vec::new()),
+					}));
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
 						msg::channel::OpenConfirmation {
 							sender_channel: ch,
@@ -389,12 +438,11 @@ where
 						.map_err(ReceiveError::Out)?;
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
-					let mut channels = self.channels.borrow_mut();
-					let ch = channels
-						.get_mut(r.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel)?;
+					let ch = self.channel(r.recipient_channel)?;
 					// TODO check if the channel is actually a session channel
 					let spawn = match SessionRequest::parse(r.ty, r.data) {
+						// Only one process can be attached to a channel.
+						_ if ch.input_receiver.borrow().is_none() => None,
 						Ok(SessionRequest::Shell) => Some(SpawnType::Shell),
 						Ok(SessionRequest::Exec { command }) => Some(SpawnType::Exec { command }),
 						// Unsupported or malformed
@@ -409,73 +457,64 @@ where
 						}
 						None => Err(()),
 					};
-					let (msg, stdout, stderr, wait) = match io {
-						Ok(io) => {
-							ch.stdin = io.stdin;
-							(
-								Message::Channel(msg::Channel::Success(msg::channel::Success {
-									recipient_channel: ch.peer_channel,
-								})),
-								io.stdout,
-								io.stderr,
-								Some(io.wait),
-							)
+					let recipient_channel = ch.peer_channel;
+					let msg = match io {
+						Ok(_) => msg::Channel::Success(msg::channel::Success { recipient_channel }),
+						Err(_) => {
+							msg::Channel::Failure(msg::channel::Failure { recipient_channel })
 						}
-						Err(()) => (
-							Message::Channel(msg::Channel::Failure(msg::channel::Failure {
-								recipient_channel: ch.peer_channel,
-							})),
-							None,
-							None,
-							None,
-						),
 					};
-					let channel = ch.peer_channel;
-					drop(channels);
 					if r.want_reply {
-						self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						self.send_channel(buf, &ch, msg)
 							.await
 							.map_err(ReceiveError::Out)?;
 					}
-					match (stdout, stderr) {
-						(None, None) => {}
-						(stdout, stderr) => {
-							return Ok(Action::NewIo {
-								stdout,
-								stderr,
-								wait: wait.unwrap(),
-								channel,
-							})
+					let input = ch.input_receiver.take();
+					match (io, input) {
+						(Ok(io), Some(input)) => {
+							let _ = new_io.unbounded_send(NewIo {
+								stdin: io.stdin,
+								stdout: io.stdout,
+								stderr: io.stderr,
+								wait: io.wait,
+								input,
+								channel: ch,
+							});
+						}
+						(_, input) => {
+							ch.input_receiver.replace(input);
 						}
 					}
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
-					let mut channels = self.channels.borrow_mut();
-					let ch = channels
-						.get_mut(d.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel)?;
-					if let Some(stdin) = &mut ch.stdin {
-						if stdin.write_all(d.data).await.is_err() {
-							// The process doesn't accept input any more.
-							ch.stdin = None;
-						}
-					}
+					let ch = self.channel(d.recipient_channel)?;
+					// Anything after the end of the input is ignored.
+					// Sending fails only if the process doesn't accept any more input.
+					let input = ch.input.borrow();
+					let _ = input
+						.as_ref()
+						.map(|input| input.unbounded_send(d.data.into()));
 				}
 				// There is no extended data defined for input.
 				Message::Channel(msg::Channel::ExtendedData(_)) => {}
 				Message::Channel(msg::Channel::Eof(e)) => {
-					self.channels
-						.borrow_mut()
-						.get_mut(e.recipient_channel)
-						.ok_or(ReceiveError::UnknownChannel)?
-						.stdin
-						.take();
+					self.channel(e.recipient_channel)?.input.take();
 				}
 				Message::Channel(msg::Channel::Close(c)) => {
-					self.channels.borrow_mut().remove(c.recipient_channel);
+					let ch = self
+						.channels
+						.borrow_mut()
+						.remove(c.recipient_channel)
+						.ok_or(ReceiveError::UnknownChannel)?;
+					ch.input.take();
+					ch.set(&ch.close_received);
+					let msg = msg::channel::Close { recipient_channel: ch.peer_channel };
+					self.send_channel(buf, &ch, msg::Channel::Close(msg))
+						.await
+						.map_err(ReceiveError::Out)?;
 				}
 				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
-				Message::Disconnect(_) => return Ok(Action::Exit),
+				Message::Disconnect(_) => return Ok(()),
 				Message::Ignore(_) => {}
 				Message::Unimplemented(_) => {}
 				Message::Debug(_) => {}
@@ -496,28 +535,83 @@ where
 	}
 }
 
-enum Action<Stdout, Stderr>
-where
-	Stdout: AsyncRead + Unpin,
-	Stderr: AsyncRead + Unpin,
+/// Write everything the client sends to a process.
+async fn forward_input<Io>(
+	channel: &Channel,
+	mut io: Option<Io>,
+	mut input: mpsc::UnboundedReceiver<Box<[u8]>>,
+) where
+	Io: AsyncWrite + Unpin,
 {
-	Exit,
-	NewIo {
-		stdout: Option<Stdout>,
-		stderr: Option<Stderr>,
-		wait: Pin<Box<dyn Future<Output = u32>>>,
-		channel: u32,
-	},
+	while let Some(Some(data)) = channel.unless(&channel.finished, input.next()).await {
+		if let Some(stdin) = &mut io {
+			match channel
+				.unless(&channel.finished, stdin.write_all(&data))
+				.await
+			{
+				Some(Ok(())) => {}
+				// The process doesn't accept any more input.
+				Some(Err(_)) => io = None,
+				None => break,
+			}
+		}
+	}
 }
 
-pub struct Channel<Stdin>
+struct NewIo<Stdin, Stdout, Stderr>
 where
 	Stdin: AsyncWrite + Unpin,
+	Stdout: AsyncRead + Unpin,
+	Stderr: AsyncRead + Unpin,
 {
+	stdin: Option<Stdin>,
+	stdout: Option<Stdout>,
+	stderr: Option<Stderr>,
+	wait: Pin<Box<dyn Future<Output = u32>>>,
+	input: mpsc::UnboundedReceiver<Box<[u8]>>,
+	channel: Rc<Channel>,
+}
+
+pub struct Channel {
 	peer_channel: u32,
 	#[allow(dead_code)]
 	ty: ChannelType,
-	stdin: Option<Stdin>,
+	/// Data for the process, until the client has sent everything.
+	input: RefCell<Option<mpsc::UnboundedSender<Box<[u8]>>>>,
+	/// The other end of `input`, until it is attached to a process.
+	input_receiver: RefCell<Option<mpsc::UnboundedReceiver<Box<[u8]>>>>,
+	close_sent: Cell<bool>,
+	close_received: Cell<bool>,
+	/// The process has exited and there is no more output.
+	finished: Cell<bool>,
+	wakers: RefCell<Vec<Waker>>,
+}
+
+impl Channel {
+	/// Set a flag and wake everything that may be waiting for it.
+	fn set(&self, flag: &Cell<bool>) {
+		flag.set(true);
+		self.wakers.take().into_iter().for_each(Waker::wake);
+	}
+
+	/// Run a future until it is done or a flag is set.
+	async fn unless<F: Future>(&self, flag: &Cell<bool>, fut: F) -> Option<F::Output> {
+		let mut fut = Box::pin(fut);
+		poll_fn(|cx| {
+			if flag.get() {
+				return Poll::Ready(None);
+			}
+			if let Poll::Ready(v) = fut.as_mut().poll(cx) {
+				return Poll::Ready(Some(v));
+			}
+			let mut wakers = self.wakers.borrow_mut();
+			if !wakers.iter().any(|w| w.will_wake(cx.waker())) {
+				wakers.push(cx.waker().clone());
+			}
+			Poll::Pending
+		})
+		.await
+	}
 }
 
 pub struct IoSet<Stdin, Stdout, Stderr>
-- 
2.43.0


From b24f9085fdd987b79a0d2b4a9d2100932d591714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:39 +0000
Subject: [PATCH 11/27] fix: honour flow control windows in both directions

---
 nora_ssh/src/server.rs | 131 +++++++++++++++++++++++++++++++----------
 1 file changed, 100 insertions(+), 31 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 4e6eb39..e6bd779 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -30,6 +30,11 @@ use rand::{CryptoRng, RngCore, SeedableRng};
 use std::rc::Rc;
 use subtle::CtOption;
 
+/// The largest amount of channel data a client may send in a single packet.
+const MAX_INPUT_PACKET: u32 = 1 << 15;
+/// The amount of channel data that is buffered for a process.
+const INPUT_WINDOW: u32 = 16 * MAX_INPUT_PACKET;
+
 pub struct Server<Handlers>
 where
 	Handlers: ServerHandlers,
@@ -355,7 +360,7 @@ where
 			}
 			Ok(())
 		};
-		let input = forward_input(channel, io.stdin, io.input).map(Ok);
+		let input = self.forward_input(channel, io.stdin, io.input);
 		try_join!(output, input).map(|((), ())| ())
 	}
 
@@ -374,10 +379,57 @@ where
 			.unless(&channel.close_received, io.read(&mut data))
 			.await
 		{
-			let msg =
-				msg::channel::Data { recipient_channel: channel.peer_channel, data: &data[..l] };
-			self.send_channel(&mut buf, channel, msg::Channel::Data(msg))
-				.await?;
+			let mut data = &data[..l];
+			while !data.is_empty() {
+				let l = match channel.take_window(data.len()).await {
+					Some(l) => l,
+					None => return Ok(()),
+				};
+				let msg = msg::channel::Data {
+					recipient_channel: channel.peer_channel,
+					data: &data[..l],
+				};
+				self.send_channel(&mut buf, channel, msg::Channel::Data(msg))
+					.await?;
+				data = &data[l..];
+			}
+		}
+		Ok(())
+	}
+
+	/// Write everything the client sends to a process.
+	async fn forward_input(
+		&self,
+		channel: &Channel,
+		mut io: Option<Handlers::Stdin>,
+		mut input: mpsc::UnboundedReceiver<Box<[u8]>>,
+	) -> Result<(), OutError> {
+		let mut consumed = 0;
+		while let Some(Some(data)) = channel.unless(&channel.finished, input.next()).await {
+			if let Some(stdin) = &mut io {
+				match channel
+					.unless(&channel.finished, stdin.write_all(&data))
+					.await
+				{
+					Some(Ok(())) => {}
+					// The process doesn't accept any more input.
+					Some(Err(_)) => io = None,
+					None => break,
+				}
+			}
+			consumed += data.len() as u32;
+			if consumed >= INPUT_WINDOW / 2 {
+				channel
+					.input_window
+					.set(channel.input_window.get() + consumed);
+				let msg = msg::channel::WindowAdjust {
+					recipient_channel: channel.peer_channel,
+					add_bytes: consumed,
+				};
+				self.send_channel(&mut [0; 512], channel, msg::Channel::WindowAdjust(msg))
+					.await?;
+				consumed = 0;
+			}
 		}
 		Ok(())
 	}
@@ -417,6 +469,9 @@ where
 					let ch = self.channels.borrow_mut().insert(Rc::new(Channel {
 						peer_channel: o.sender_channel,
 						ty: ChannelType::Session, // TODO actually check
+						window: Cell::new(o.window_size),
+						max_packet_size: o.max_packet_size,
+						input_window: Cell::new(INPUT_WINDOW),
 						input: RefCell::new(Some(input)),
 						input_receiver: RefCell::new(Some(input_receiver)),
 						close_sent: Cell::new(false),
@@ -428,8 +483,8 @@ where
 						msg::channel::OpenConfirmation {
 							sender_channel: ch,
 							recipient_channel: o.sender_channel,
-							window_size: o.window_size,
-							max_packet_size: o.max_packet_size,
+							window_size: INPUT_WINDOW,
+							max_packet_size: MAX_INPUT_PACKET,
 							data: &[],
 						},
 					));
@@ -488,6 +543,12 @@ where
 				}
 				Message::Channel(msg::Channel::Data(d)) => {
 					let ch = self.channel(d.recipient_channel)?;
+					let window = ch.input_window.get();
+					let window = u32::try_from(d.data.len())
+						.ok()
+						.and_then(|l| window.checked_sub(l))
+						.ok_or(ReceiveError::WindowExceeded)?;
+					ch.input_window.set(window);
 					// Anything after the end of the input is ignored.
 					// Sending fails only if the process doesn't accept any more input.
 					let input = ch.input.borrow();
@@ -513,7 +574,11 @@ where
 						.await
 						.map_err(ReceiveError::Out)?;
 				}
-				Message::Channel(msg::Channel::WindowAdjust(_)) => {}
+				Message::Channel(msg::Channel::WindowAdjust(w)) => {
+					let ch = self.channel(w.recipient_channel)?;
+					ch.window.set(ch.window.get().saturating_add(w.add_bytes));
+					ch.wake();
+				}
 				Message::Disconnect(_) => return Ok(()),
 				Message::Ignore(_) => {}
 				Message::Unimplemented(_) => {}
@@ -535,29 +600,6 @@ where
 	}
 }
 
-/// Write everything the client sends to a process.
-async fn forward_input<Io>(
-	channel: &Channel,
-	mut io: Option<Io>,
-	mut input: mpsc::UnboundedReceiver<Box<[u8]>>,
-) where
-	Io: AsyncWrite + Unpin,
-{
-	while let Some(Some(data)) = channel.unless(&channel.finished, input.next()).await {
-		if let Some(stdin) = &mut io {
-			match channel
-				.unless(&channel.finished, stdin.write_all(&data))
-				.await
-			{
-				Some(Ok(())) => {}
-				// The process doesn't accept any more input.
-				Some(Err(_)) => io = None,
-				None => break,
-			}
-		}
-	}
-}
-
 struct NewIo<Stdin, Stdout, Stderr>
 where
 	Stdin: AsyncWrite + Unpin,
@@ -576,6 +618,11 @@ pub struct Channel {
 	peer_channel: u32,
 	#[allow(dead_code)]
 	ty: ChannelType,
+	/// How much data the client still allows us to send.
+	window: Cell<u32>,
+	max_packet_size: u32,
+	/// How much data we still allow the client to send.
+	input_window: Cell<u32>,
 	/// Data for the process, until the client has sent everything.
 	input: RefCell<Option<mpsc::UnboundedSender<Box<[u8]>>>>,
 	/// The other end of `input`, until it is attached to a process.
@@ -591,9 +638,30 @@ impl Channel {
 	/// Set a flag and wake everything that may be waiting for it.
 	fn set(&self, flag: &Cell<bool>) {
 		flag.set(true);
+		self.wake();
+	}
+
+	fn wake(&self) {
 		self.wakers.take().into_iter().for_each(Waker::wake);
 	}
 
+	/// Wait until some data may be sent, unless the client closes the channel.
+	async fn take_window(&self, want: usize) -> Option<usize> {
+		self.unless(
+			&self.close_received,
+			poll_fn(|_| {
+				let window = self.window.get();
+				let l = want.min(window.min(self.max_packet_size) as usize);
+				self.window.set(window - l as u32);
+				match l {
+					0 => Poll::Pending,
+					l => Poll::Ready(l),
+				}
+			}),
+		)
+		.await
+	}
+
 	/// Run a future until it is done or a flag is set.
 	async fn unless<F: Future>(&self, flag: &Cell<bool>, fut: F) -> Option<F::Output> {
 		let mut fut = Box::pin(fut);
@@ -642,6 +710,7 @@ pub enum ReceiveError {
 	Io(io::Error),
 	Message(MessageParseError),
 	UnknownChannel,
+	WindowExceeded,
 	Unexpected,
 }
 
-- 
2.43.0


From 2124cbd5e63d1459c4a03b2d373cb964e451f562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:39 +0000
Subject: [PATCH 12/27] fix: sshd refuses passwords and unusable user names
 instead of panicking

---
 nora_sshd/src/main.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 3591409..9bb9c2d 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -77,9 +77,7 @@ impl ServerHandlers for Handlers {
 	) -> Result<Self::User, ()> {
 		match auth {
 			Auth::None => Err(()),
-			Auth::Password(_pwd) => {
-				todo!()
-			}
+			Auth::Password(_pwd) => Err(()),
 			Auth::PublicKey { algorithm, key, signature, message } => {
 				if algorithm != b"ssh-ed25519" {
 					return Err(());
@@ -90,7 +88,8 @@ impl ServerHandlers for Handlers {
 					.map_err(|_| ())?;
 				key.verify(message, &signature.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
-				Ok(User { _name: core::str::from_utf8(user).unwrap().into(), shell: None })
+				let name = core::str::from_utf8(user).map_err(|_| ())?;
+				Ok(User { _name: name.into(), shell: None })
 			}
 		}
 	}
-- 
2.43.0


From 734c494efc765492026eba3808d32be3499a238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:40 +0000
Subject: [PATCH 13/27] fix: sshd survives failing accepts

---
 nora_sshd/src/main.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 9bb9c2d..4c20df1 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -12,7 +12,7 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::os::unix::ffi::OsStrExt;
+use std::{os::unix::ffi::OsStrExt, time::Duration};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -52,7 +52,16 @@ impl ServerHandlers for Handlers {
 	type Rng = StdRng;
 
 	async fn accept(&self) -> (Self::Read, Self::Write) {
-		self.listener.accept().await.unwrap().0.split()
+		loop {
+			match self.listener.accept().await {
+				Ok((stream, _)) => return stream.split(),
+				Err(e) => {
+					// Don't keep the CPU busy if the error persists, e.g. when out of descriptors.
+					eprintln!("failed to accept connection: {}", e);
+					async_std::task::sleep(Duration::from_millis(100)).await;
+				}
+			}
+		}
 	}
 
 	async fn public_key_exists<'a>(
-- 
2.43.0


From 3f955ccd4fa5de9af0e8f1431f96dd1030992207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:40 +0000
Subject: [PATCH 14/27] fix: sshd reports commands that cannot be started as
 failed

---
 nora_sshd/src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 4c20df1..2ed9a10 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -115,13 +115,13 @@ impl ServerHandlers for Handlers {
 		};
 		match ty {
 			SpawnType::Shell => {
-				let shell = std::env::var_os("SHELL").unwrap();
+				let shell = std::env::var_os("SHELL").ok_or(())?;
 				let mut shell = process::Command::new(shell)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
@@ -136,14 +136,14 @@ impl ServerHandlers for Handlers {
 					.split(|c| c.is_ascii_whitespace())
 					.filter(|s| !s.is_empty())
 					.map(std::ffi::OsStr::from_bytes);
-				let bin = args.next().unwrap();
+				let bin = args.next().ok_or(())?;
 				let mut shell = process::Command::new(bin)
 					.stdin(process::Stdio::piped())
 					.stdout(process::Stdio::piped())
 					.stderr(process::Stdio::piped())
 					.args(args)
 					.spawn()
-					.unwrap();
+					.map_err(|_| ())?;
 				let io = IoSet {
 					stdin: shell.stdin.take(),
 					stdout: shell.stdout.take(),
-- 
2.43.0


From f35c73cf7decf7e911179d024a54168b4d76a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:41 +0000
Subject: [PATCH 15/27] fix: sshd does not report killed processes as
 successful

---
 nora_sshd/src/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 2ed9a10..565ea5a 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -12,7 +12,10 @@ use nora_ssh::{
 	Identifier,
 };
 use rand::rngs::StdRng;
-use std::{os::unix::ffi::OsStrExt, time::Duration};
+use std::{
+	os::unix::{ffi::OsStrExt, process::ExitStatusExt},
+	time::Duration,
+};
 
 #[async_std::main]
 async fn main() -> ! {
@@ -111,7 +114,14 @@ impl ServerHandlers for Handlers {
 	) -> Result<IoSet<Self::Stdin, Self::Stdout, Self::Stderr>, ()> {
 		let wait = |child: &mut process::Child| {
 			let wait = child.status();
-			async move { wait.await.unwrap().code().unwrap_or(0) as u32 }
+			async move {
+				let code = match wait.await {
+					// Like shells do for processes killed by a signal.
+					Ok(status) => status.code().or(status.signal().map(|signal| 128 + signal)),
+					Err(_) => None,
+				};
+				code.unwrap_or(255) as u32
+			}
 		};
 		match ty {
 			SpawnType::Shell => {
-- 
2.43.0


From 43d69d3e79a3166a3084eb0e215628f2dc4d79ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:55 +0000
Subject: [PATCH 16/27] fix: scp exits with a failure status when a transfer
 fails

---
 nora_scp/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index b8bf41e..91985a7 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -28,11 +28,14 @@ use std::{
 fn main() {
 	match start() {
 		Ok(()) => {}
-		Err(e) => eprintln!(
-			"{} failed: {}",
-			std::env::args().next().as_deref().unwrap_or("scp"),
-			e
-		),
+		Err(e) => {
+			eprintln!(
+				"{} failed: {}",
+				std::env::args().next().as_deref().unwrap_or("scp"),
+				e
+			);
+			std::process::exit(1);
+		}
 	}
 }
 
-- 
2.43.0


From 3f73514751979528e28556709bc66618066ad670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:55 +0000
Subject: [PATCH 17/27] fix: scp sink rejects incomplete or malformed headers
 and unsafe file names

---
 nora_scp/src/main.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 91985a7..043756e 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -93,18 +93,24 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 				stdin.borrow_mut().read_until(b'\n', header)?;
 				// TODO try to support non-UTF8 when possible.
 				let header = str::from_utf8(header)?;
-				let mut parts = header.split(' ');
+				let header = header.strip_suffix('\n').ok_or("incomplete header")?;
+				let mut parts = header.splitn(3, ' ');
 				let mode = parts.next().ok_or("missing mode")?;
 				let size = parts.next().ok_or("missing size")?;
-				let mut file = parts.next().ok_or("missing file")?;
-				if file.bytes().last() == Some(b'\n') {
-					file = &file[..file.len() - 1];
+				let file = parts.next().ok_or("missing file")?;
+				if mode.len() < 2 || !mode[1..].bytes().all(|c| matches!(c, b'0'..=b'7')) {
+					Err(format!("invalid mode {:?}", mode))?;
+				}
+				if !size.bytes().all(|c| c.is_ascii_digit()) {
+					Err(format!("invalid size {:?}", size))?;
+				}
+				if matches!(file, "" | "." | "..") || file.contains('/') {
+					Err(format!("invalid file name {:?}", file))?;
 				}
-				// TODO check for garbage
 				let size = size.parse::<usize>()?;
 				Ok(Some((Type::File, mode, size, file)))
 			}
-			(_, b'D') => todo!(),
+			(_, b'D') => Err("directories are not supported")?,
 			c => Err(format!("invalid mode {:?}", c))?,
 		}
 	}
-- 
2.43.0


From 5e09252aa829b5176a81f0abe18d518870dd9cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:56 +0000
Subject: [PATCH 18/27] fix: scp sink does not give up when reading a header is
 interrupted

---
 nora_scp/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index 043756e..c2e107c 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -86,7 +86,12 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 		header: &'a mut Vec<u8>,
 	) -> Result<Option<(Type, &'a str, usize, &'a str)>, Box<dyn Error>> {
 		header.resize(1, 0);
-		let n = stdin.borrow_mut().read(&mut header[..1])?;
+		let n = loop {
+			match stdin.borrow_mut().read(&mut header[..1]) {
+				Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+				r => break r?,
+			}
+		};
 		match (n, header[0]) {
 			(0, _) => Ok(None),
 			(_, b'C') => {
-- 
2.43.0


From 655db10241e5e4d3ed9ef8c6e13a4e81ec446038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:56 +0000
Subject: [PATCH 19/27] fix: scp source sends the real size and waits for
 acknowledgements

---
 nora_scp/src/main.rs | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/nora_scp/src/main.rs b/nora_scp/src/main.rs
index c2e107c..6c4cf86 100644
--- a/nora_scp/src/main.rs
+++ b/nora_scp/src/main.rs
@@ -176,23 +176,43 @@ fn receive(to: &[PathBuf], make_dir: bool) -> Result<(), Box<dyn Error>> {
 }
 
 fn send(from: &[PathBuf]) -> Result<(), Box<dyn Error>> {
-	let mut buf = [0; 1 << 15];
+	let mut stdin = io::stdin().lock();
+	let mut out = io::stdout().lock();
+	let mut wait_ready = || -> Result<(), Box<dyn Error>> {
+		let mut ack = [0];
+		stdin.read_exact(&mut ack)?;
+		match ack {
+			[b'\0'] => Ok(()),
+			_ => Err("refused by receiver")?,
+		}
+	};
+
+	wait_ready()?;
 	for path in from {
-		let mut f = File::open(path)?;
+		let f = File::open(path)?;
+		let meta = f.metadata()?;
+		if !meta.is_file() {
+			Err(format!("{:?} is not a regular file", path))?;
+		}
 		// TODO try to support non-UTF8 when possible.
 		let name = path
 			.file_name()
-			.unwrap()
+			.ok_or("path has no file name")?
 			.to_str()
 			.ok_or("failed to convert path to UTF-8")?;
-		println!("C{:04o} {} {}", 0o644, 42, name);
-		let mut out = io::stdout().lock();
-		loop {
-			match f.read(&mut buf)? {
-				0 => break,
-				n => out.write_all(&buf[..n])?,
-			}
+		if name.contains('\n') {
+			Err("file name contains a newline")?;
+		}
+		write!(out, "C{:04o} {} {}\n", 0o644, meta.len(), name)?;
+		out.flush()?;
+		wait_ready()?;
+		// The size has been announced, so send exactly that much.
+		if io::copy(&mut f.take(meta.len()), &mut out)? != meta.len() {
+			Err(format!("{:?} has been truncated", path))?;
 		}
+		out.write_all(b"\0")?;
+		out.flush()?;
+		wait_ready()?;
 	}
 	Ok(())
 }
-- 
2.43.0


From 1606d5b6969689248d6688c2cc66a6149d6977bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:57 +0000
Subject: [PATCH 20/27] fix: refuse client keys from which an all-zero shared
 secret follows

---
 nora_ssh/src/host.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 07052a4..40b935e 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -234,6 +234,10 @@ impl Host<p256::NistP256> {
 			.update(client_ephermal_public.as_bytes())
 			.update(server_ephermal_public.as_bytes());
 		let shared_secret = server_ephermal_secret.diffie_hellman(&client_ephermal_public);
+		// RFC 8731 section 3: all zeros, i.e. known to everyone.
+		if !shared_secret.was_contributory() {
+			return Err(HandleNewClientError::BadEphermalKey);
+		}
 		let hash = exchange_hash.update(shared_secret.as_bytes());
 		let sig = self.host_key.secret.sign(&hash);
 
-- 
2.43.0


From c2f6a7450d7409db8dd62ff1e7147b8aff96c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:47 +0000
Subject: [PATCH 21/27] fix: refuse channels of types other than session

---
 nora_ssh/src/server.rs                   | 16 ++++++++++++++--
 nora_ssh_core/src/message/channel/mod.rs |  5 +++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index e6bd779..81bfef5 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -464,11 +464,24 @@ where
 		loop {
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
 			match Message::parse(data).map_err(ReceiveError::Message)? {
+				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
+					let msg = Message::Channel(msg::Channel::OpenFailure(
+						msg::channel::OpenFailure {
+							recipient_channel: o.sender_channel,
+							reason: msg::channel::OpenFailureReason::UnknownChannelType,
+							description: "unknown channel type",
+							language: b"",
+						},
+					));
+					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await
+						.map_err(ReceiveError::Out)?;
+				}
 				Message::Channel(msg::Channel::Open(o)) => {
 					let (input, input_receiver) = mpsc::unbounded();
 					let ch = self.channels.borrow_mut().insert(Rc::new(Channel {
 						peer_channel: o.sender_channel,
-						ty: ChannelType::Session, // TODO actually check
+						ty: ChannelType::Session,
 						window: Cell::new(o.window_size),
 						max_packet_size: o.max_packet_size,
 						input_window: Cell::new(INPUT_WINDOW),
@@ -494,7 +507,6 @@ where
 				}
 				Message::Channel(msg::Channel::Request(r)) => {
 					let ch = self.channel(r.recipient_channel)?;
-					// TODO check if the channel is actually a session channel
 					let spawn = match SessionRequest::parse(r.ty, r.data) {
 						// Only one process can be attached to a channel.
 						_ if ch.input_receiver.borrow().is_none() => None,
diff --git a/nora_ssh_core/src/message/channel/mod.rs b/nora_ssh_core/src/message/channel/mod.rs
index 5d77719..a8e3ded 100644
--- a/nora_ssh_core/src/message/channel/mod.rs
+++ b/nora_ssh_core/src/message/channel/mod.rs
@@ -172,12 +172,13 @@ impl<'a> Open<'a> {
 		let (ty, data) = parse_string(data).ok_or(OpenParseError::Truncated)?;
 		if data.len() < 12 {
 			Err(OpenParseError::Truncated)
-		} else if data.len() > 12 {
+		} else if data.len() > 12 && ty == b"session" {
 			Err(OpenParseError::Unread)
 		} else {
+			// Other types may be followed by data specific to them, which is skipped.
 			let sender_channel = u32::from_be_bytes(data[..4].try_into().unwrap());
 			let window_size = u32::from_be_bytes(data[4..8].try_into().unwrap());
-			let max_packet_size = u32::from_be_bytes(data[8..].try_into().unwrap());
+			let max_packet_size = u32::from_be_bytes(data[8..12].try_into().unwrap());
 			Ok(Self { ty, sender_channel, window_size, max_packet_size })
 		}
 	}
-- 
2.43.0


From be682f2ebda9c609ac882e44bf60d924c10342c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:42 +0000
Subject: [PATCH 22/27] fix: answer unknown messages with UNIMPLEMENTED instead
 of ending the connection

---
 nora_ssh/src/host.rs                         |  5 +++++
 nora_ssh/src/server.rs                       | 18 +++++++++++++++++-
 nora_ssh_core/src/cipher/chacha20poly1305.rs |  4 ++++
 nora_ssh_core/src/cipher/mod.rs              |  3 +++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 40b935e..7b7aac7 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -356,6 +356,11 @@ pub enum OutError {
 pub struct In<D: Cipher>(D);
 
 impl<D: Cipher> In<D> {
+	/// The sequence number of the next packet.
+	pub fn sequence_number(&self) -> u32 {
+		self.0.sequence_number()
+	}
+
 	pub async fn recv<'s, 'a: 's, 'b: 's, Io>(
 		&'s mut self,
 		buf: &'a mut [u8],
diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index 81bfef5..fc1ba7b 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -462,8 +462,24 @@ where
 		let mut read = self.read.borrow_mut();
 		let (rd, enc) = &mut *read;
 		loop {
+			let sequence_number = enc.sequence_number();
 			let data = enc.recv(buf, rd).await.map_err(ReceiveError::In)?;
-			match Message::parse(data).map_err(ReceiveError::Message)? {
+			let msg = match Message::parse(data) {
+				// RFC 4253 section 11.4
+				Err(
+					MessageParseError::UnknownMessageType(_)
+					| MessageParseError::UserAuth(msg::userauth::ParseError::UnknownMessageType(_))
+					| MessageParseError::Channel(msg::channel::ParseError::UnknownMessageType(_)),
+				) => {
+					let msg = Message::Unimplemented(msg::Unimplemented { sequence_number });
+					self.send(buf, |buf| msg.serialize(buf).unwrap().0.len())
+						.await
+						.map_err(ReceiveError::Out)?;
+					continue;
+				}
+				msg => msg.map_err(ReceiveError::Message)?,
+			};
+			match msg {
 				Message::Channel(msg::Channel::Open(o)) if o.ty != b"session" => {
 					let msg = Message::Channel(msg::Channel::OpenFailure(
 						msg::channel::OpenFailure {
diff --git a/nora_ssh_core/src/cipher/chacha20poly1305.rs b/nora_ssh_core/src/cipher/chacha20poly1305.rs
index c1cd436..71bf0e6 100644
--- a/nora_ssh_core/src/cipher/chacha20poly1305.rs
+++ b/nora_ssh_core/src/cipher/chacha20poly1305.rs
@@ -97,4 +97,8 @@ impl Cipher for ChaCha20Poly1305 {
 	fn block_size(&self) -> BlockSize {
 		BlockSize::B8
 	}
+
+	fn sequence_number(&self) -> u32 {
+		self.counter as u32
+	}
 }
diff --git a/nora_ssh_core/src/cipher/mod.rs b/nora_ssh_core/src/cipher/mod.rs
index a36cff8..b5ccb68 100644
--- a/nora_ssh_core/src/cipher/mod.rs
+++ b/nora_ssh_core/src/cipher/mod.rs
@@ -16,6 +16,9 @@ pub trait Cipher {
 	fn tag_size(&self) -> usize;
 
 	fn block_size(&self) -> BlockSize;
+
+	/// The sequence number of the next packet.
+	fn sequence_number(&self) -> u32;
 }
 
 /// Generic error type. No information is included to avoid oracle attacks.
-- 
2.43.0


From 4d724c8b8e0a1479428751e295662a93729446a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:58 +0000
Subject: [PATCH 23/27] fix: flush what is written to clients and processes

AsyncWrite implementations may keep data until they are flushed, so without it
a client or process behind such a transport or pipe waits forever.
---
 nora_ssh/src/host.rs   | 5 ++++-
 nora_ssh/src/server.rs | 9 +++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 7b7aac7..26dca45 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -147,6 +147,7 @@ impl Host<p256::NistP256> {
 			.write_all(host_pkt.as_raw())
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		write.flush().await.map_err(HandleNewClientError::Write)?;
 
 		// Receive id + kexinit
 		let mut ident = [0; Identifier::MAX_LEN];
@@ -293,6 +294,7 @@ impl Host<p256::NistP256> {
 			.write_all(pkt.as_raw())
 			.await
 			.map_err(HandleNewClientError::Write)?;
+		write.flush().await.map_err(HandleNewClientError::Write)?;
 		let pkt = packet::parse(&mut pkt_buf, read, true, BlockSize::B8)
 			.await
 			.map_err(HandleNewClientError::PacketParseError)?;
@@ -344,7 +346,8 @@ impl<D: Cipher> Out<D> {
 		);
 		let pkt = pkt.into_raw(self.0.tag_size());
 		self.0.encrypt(pkt);
-		io.write_all(pkt).await.map_err(OutError::Write)
+		io.write_all(pkt).await.map_err(OutError::Write)?;
+		io.flush().await.map_err(OutError::Write)
 	}
 }
 
diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index fc1ba7b..c5afcfa 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -407,10 +407,11 @@ where
 		let mut consumed = 0;
 		while let Some(Some(data)) = channel.unless(&channel.finished, input.next()).await {
 			if let Some(stdin) = &mut io {
-				match channel
-					.unless(&channel.finished, stdin.write_all(&data))
-					.await
-				{
+				let write = async {
+					stdin.write_all(&data).await?;
+					stdin.flush().await
+				};
+				match channel.unless(&channel.finished, write).await {
 					Some(Ok(())) => {}
 					// The process doesn't accept any more input.
 					Some(Err(_)) => io = None,
-- 
2.43.0


From 1f08b8ac289f90966fa7c210a5a3016ddd18a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:32 +0000
Subject: [PATCH 24/27] fix: skip empty and short lines before the
 identification string

A line that is empty or a proper prefix of "SSH-" swallowed the line after
it, and one starting with "SSSH-" was taken for an identification string.
---
 nora_ssh/src/identifier.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nora_ssh/src/identifier.rs b/nora_ssh/src/identifier.rs
index c45a942..1104336 100644
--- a/nora_ssh/src/identifier.rs
+++ b/nora_ssh/src/identifier.rs
@@ -30,11 +30,10 @@ where
 		state = match (state, b) {
 			(State::EolLf, b'S') => State::S,
 			(State::S, b'S') => State::SS,
-			(State::SS, b'S') => State::SS,
 			(State::SS, b'H') => State::SSH,
 			(State::SSH, b'-') => break,
-			(State::Ignore, b'\r') => State::EolCr,
 			(State::EolCr, b'\n') => State::EolLf,
+			(_, b'\r') => State::EolCr,
 			_ => State::Ignore,
 		};
 	}
-- 
2.43.0


From 0a154514886c395e5e669a12ede8d6e3b5198101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:28 +0000
Subject: [PATCH 25/27] fix: keep one waker per channel instead of piling them
 up

---
 nora_ssh/src/server.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/nora_ssh/src/server.rs b/nora_ssh/src/server.rs
index c5afcfa..e4d04a0 100644
--- a/nora_ssh/src/server.rs
+++ b/nora_ssh/src/server.rs
@@ -507,7 +507,7 @@ where
 						close_sent: Cell::new(false),
 						close_received: Cell::new(false),
 						finished: Cell::new(false),
-						wakers: RefCell::new(Vec::new()),
+						waker: RefCell::new(None),
 					}));
 					let msg = Message::Channel(msg::Channel::OpenConfirmation(
 						msg::channel::OpenConfirmation {
@@ -660,7 +660,8 @@ pub struct Channel {
 	close_received: Cell<bool>,
 	/// The process has exited and there is no more output.
 	finished: Cell<bool>,
-	wakers: RefCell<Vec<Waker>>,
+	/// The task running the process, which is the only one to wait for anything here.
+	waker: RefCell<Option<Waker>>,
 }
 
 impl Channel {
@@ -671,7 +672,9 @@ impl Channel {
 	}
 
 	fn wake(&self) {
-		self.wakers.take().into_iter().for_each(Waker::wake);
+		if let Some(waker) = self.waker.take() {
+			waker.wake();
+		}
 	}
 
 	/// Wait until some data may be sent, unless the client closes the channel.
@@ -701,10 +704,8 @@ impl Channel {
 			if let Poll::Ready(v) = fut.as_mut().poll(cx) {
 				return Poll::Ready(Some(v));
 			}
-			let mut wakers = self.wakers.borrow_mut();
-			if !wakers.iter().any(|w| w.will_wake(cx.waker())) {
-				wakers.push(cx.waker().clone());
-			}
+			// Not `will_wake`, which may tell wakers of the same task apart and let them pile up.
+			self.waker.replace(Some(cx.waker().clone()));
 			Poll::Pending
 		})
 		.await
-- 
2.43.0


From 4da572cf5983829b4f9d3bcf603a6543b6a30dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 26/27] fix: end the connection if the client insists on
 compression

---
 nora_ssh/src/host.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nora_ssh/src/host.rs b/nora_ssh/src/host.rs
index 26dca45..7ee321c 100644
--- a/nora_ssh/src/host.rs
+++ b/nora_ssh/src/host.rs
@@ -183,6 +183,14 @@ impl Host<p256::NistP256> {
 				.encryption_algorithms_server_to_client
 				.iter()
 				.any(|s| CIPHER_NAMES.iter().any(|&t| t == s))
+			|| !msg
+				.compression_algorithms_client_to_server
+				.iter()
+				.any(|s| s == "none")
+			|| !msg
+				.compression_algorithms_server_to_client
+				.iter()
+				.any(|s| s == "none")
 		// TODO we should handle the case where a HMAC needs to be selected if we're
 		// not using chacha20-poly1305
 		{
-- 
2.43.0


From 14554f14c1454885817affbccb0ea72e43a0d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:21 +0000
Subject: [PATCH 27/27] fix: refuse keys of small order, anyone can sign for
 them

---
 nora_sshd/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nora_sshd/src/main.rs b/nora_sshd/src/main.rs
index 565ea5a..64596f0 100644
--- a/nora_sshd/src/main.rs
+++ b/nora_sshd/src/main.rs
@@ -94,11 +94,11 @@ impl ServerHandlers for Handlers {
 				if algorithm != b"ssh-ed25519" {
 					return Err(());
 				}
-				use ed25519_dalek::Verifier;
 				// FIXME don't fucking just reuse key doofus.
 				let key = ed25519_dalek::PublicKey::from_bytes(key.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
-				key.verify(message, &signature.try_into().map_err(|_| ())?)
+				// Anyone can make signatures for keys of small order.
+				key.verify_strict(message, &signature.try_into().map_err(|_| ())?)
 					.map_err(|_| ())?;
 				let name = core::str::from_utf8(user).map_err(|_| ())?;
 				Ok(User { _name: name.into(), shell: None })
-- 
2.43.0

