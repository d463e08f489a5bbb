use futures::channel::oneshot;
use simcore::run::NEW_TASKS;
use std::{future::Future, pin::Pin, task::{Context, Poll}, time::Duration};

pub use std::task::{Context as TaskContext, Poll as TaskPoll, Waker};

pub async fn sleep(d: Duration) {
	let t = simcore::world::with(|w| w.timer(d.as_micros() as u64));
	t.await
}

pub async fn yield_now() {
	let mut done = false;
	futures::future::poll_fn(|cx| {
		if std::mem::replace(&mut done, true) {
			return Poll::Ready(());
		}
		cx.waker().wake_by_ref();
		Poll::Pending
	})
	.await
}

pub struct JoinHandle<T>(oneshot::Receiver<T>);
impl<T> Future for JoinHandle<T> {
	type Output = T;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
		Pin::new(&mut self.0).poll(cx).map(|r| r.expect("task was cancelled"))
	}
}

pub fn spawn_local<F: Future + 'static>(f: F) -> JoinHandle<F::Output> {
	let (tx, rx) = oneshot::channel();
	NEW_TASKS.with(|n| {
		n.borrow_mut().push(Box::pin(async move {
			let _ = tx.send(f.await);
		}))
	});
	JoinHandle(rx)
}

pub fn spawn<F: Future + Send + 'static>(f: F) -> JoinHandle<F::Output> where F::Output: Send {
	spawn_local(f)
}

/// Only ever used for a daemon's main future.
pub fn block_on<F: Future + 'static, T>(f: F) -> T {
	crate::sim_main(Box::pin(async move {
		f.await;
	}))
}
