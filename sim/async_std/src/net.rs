use futures::{
	future::poll_fn,
	io::{AsyncRead, AsyncWrite},
	stream::Stream,
};
use simcore::world::*;
use std::{
	io,
	net::Ipv4Addr,
	pin::Pin,
	sync::Arc,
	task::{Context, Poll},
};

pub use std::net::{IpAddr, Shutdown, SocketAddr, SocketAddrV4, SocketAddrV6};
pub use std::net::ToSocketAddrs;

struct Half(usize);
impl Drop for Half {
	fn drop(&mut self) {
		conn_drop_read(self.0);
		conn_drop_write(self.0);
	}
}

#[derive(Clone)]
pub struct TcpStream(Arc<Half>);

impl std::fmt::Debug for TcpStream {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "TcpStream({})", self.0 .0)
	}
}

fn addr(n: usize) -> SocketAddr {
	(Ipv4Addr::new(127, 0, 0, 1), 30000 + n as u16).into()
}

impl TcpStream {
	pub fn peer_addr(&self) -> io::Result<SocketAddr> {
		Ok(addr(self.0 .0))
	}
	pub fn local_addr(&self) -> io::Result<SocketAddr> {
		Ok((Ipv4Addr::new(127, 0, 0, 1), 2222).into())
	}
	pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
		Ok(())
	}
	pub fn nodelay(&self) -> io::Result<bool> {
		Ok(false)
	}
	pub fn set_ttl(&self, _: u32) -> io::Result<()> {
		Ok(())
	}
	pub fn ttl(&self) -> io::Result<u32> {
		Ok(64)
	}
	pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
		if how != Shutdown::Read {
			conn_close_write(self.0 .0);
		}
		Ok(())
	}
}

impl AsyncRead for TcpStream {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
		conn_read(self.0 .0, cx, b)
	}
}
impl AsyncWrite for TcpStream {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
		conn_write(self.0 .0, cx, b)
	}
	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}
	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		conn_close_write(self.0 .0);
		Poll::Ready(Ok(()))
	}
}
impl AsyncRead for &TcpStream {
	fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<io::Result<usize>> {
		conn_read(self.0 .0, cx, b)
	}
}
impl AsyncWrite for &TcpStream {
	fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
		conn_write(self.0 .0, cx, b)
	}
	fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		Poll::Ready(Ok(()))
	}
	fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
		conn_close_write(self.0 .0);
		Poll::Ready(Ok(()))
	}
}

#[derive(Debug)]
pub struct TcpListener(());

impl TcpListener {
	pub async fn bind<A>(_: A) -> io::Result<Self> {
		Ok(Self(()))
	}
	fn poll(cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
		poll_accept(cx).map(|x| match x {
			Some(c) => Ok((TcpStream(Arc::new(Half(c))), addr(c))),
			// what accept(2) names: out of descriptors (of the process, of the system), buffers or memory, the
			// peer gone already, a signal, forbidden by a firewall, or some error of the network
			None => {
				let e = [24, 103, 23, 105, 12, 103, 4, 1, 71, 100, 92, 112, 64, 113, 95, 101, 110, 103];
				Err(io::Error::from_raw_os_error(e[with(|w| w.ch.choose(ST_FAULT, e.len() as u32)) as usize]))
			}
		})
	}
	pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
		poll_fn(Self::poll).await
	}
	pub fn incoming(&self) -> Incoming<'_> {
		Incoming(self)
	}
	pub fn local_addr(&self) -> io::Result<SocketAddr> {
		Ok((Ipv4Addr::new(127, 0, 0, 1), 2222).into())
	}
}

pub struct Incoming<'a>(#[allow(dead_code)] &'a TcpListener);
impl Stream for Incoming<'_> {
	type Item = io::Result<TcpStream>;
	fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
		TcpListener::poll(cx).map(|r| Some(r.map(|x| x.0)))
	}
}
