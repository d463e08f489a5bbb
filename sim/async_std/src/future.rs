use std::{future::Future, pin::Pin, task::{Context, Poll}, time::Duration};

pub use std::future::{pending, ready};
pub use futures::future::poll_fn;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TimeoutError(());
impl std::fmt::Display for TimeoutError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str("future has timed out")
	}
}
impl std::error::Error for TimeoutError {}

struct Timeout<F>(Pin<Box<F>>, simcore::world::Delay);
impl<F: Future> Future for Timeout<F> {
	type Output = Result<F::Output, TimeoutError>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
		if let Poll::Ready(x) = self.0.as_mut().poll(cx) {
			return Poll::Ready(Ok(x));
		}
		Pin::new(&mut self.1).poll(cx).map(|()| Err(TimeoutError(())))
	}
}

pub async fn timeout<F: Future>(dur: Duration, f: F) -> Result<F::Output, TimeoutError> {
	let d = simcore::world::with(|w| w.timer(dur.as_micros() as u64));
	Timeout(Box::pin(f), d).await
}
