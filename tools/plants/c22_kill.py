PROP='C22'
NEEDS='a second command on the same connection while the first one still runs'
BREAKS='Starting a command kills the one started before it on the same connection, whose client gets a status it did not exit with.'
EDITS=[('nora_sshd/src/main.rs','''					wait: Box::pin(wait(&mut shell)),
				};
				user.shell = Some(shell);
				Ok(io)
			}
		}
	}
''','''					wait: Box::pin(wait(&mut shell)),
				};
				if let Some(mut last) = user.shell.replace(shell) {
					let _ = last.kill();
				}
				Ok(io)
			}
		}
	}
''')]
MAIN='''
fn main() {
	let mut d = Daemon::start();
	let mut c = Conn::dial(2222);
	assert!(d.alive(), "the port is taken");
	block(async {
		c.login().await;
		let s = c.open(1, 1000, 1000).await.unwrap();
		c.send(&b().u8(98).u32(s).s(b"exec").u8(1).s(b"cat"));
		assert_eq!(c.recv().await.unwrap()[0], 99);
		let t = c.open(2, 1000, 1000).await.unwrap();
		c.send(&b().u8(98).u32(t).s(b"exec").u8(1).s(b"cat"));
		assert_eq!(c.recv().await.unwrap()[0], 99);
		c.data(s, b"hello");
		assert_eq!(c.recv().await.unwrap(), b().u8(94).u32(1).s(b"hello"));
		c.send(&b().u8(96).u32(s));
		assert_eq!(c.recv().await.unwrap(), b().u8(98).u32(1).s(b"exit-status").u8(0).u32(0));
	});
}
'''
