use std::{
	any::Any,
	fmt,
	future::Future,
	panic::{catch_unwind, AssertUnwindSafe},
	pin::Pin,
	task::{Context, Poll},
};

use tokio_real::sync::oneshot;

pub struct JoinError(Option<std::sync::Mutex<Box<dyn Any + Send>>>);
impl JoinError {
	pub fn is_panic(&self) -> bool {
		self.0.is_some()
	}
	pub fn is_cancelled(&self) -> bool {
		self.0.is_none()
	}
	pub fn into_panic(self) -> Box<dyn Any + Send> {
		self.0.expect("not a panic").into_inner().unwrap()
	}
}
impl fmt::Display for JoinError {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" })
	}
}
impl fmt::Debug for JoinError {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "JoinError({self})")
	}
}
impl std::error::Error for JoinError {}

pub struct JoinHandle<T> {
	id: usize,
	rx: oneshot::Receiver<Result<T, JoinError>>,
	done: bool,
}
impl<T> JoinHandle<T> {
	pub fn abort(&self) {
		sim::abort(self.id)
	}
	pub fn is_finished(&self) -> bool {
		self.done || sim::Exec::get().is_none_or(|e| !e.is_alive(self.id))
	}
}
impl<T> Future for JoinHandle<T> {
	type Output = Result<T, JoinError>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
		match Pin::new(&mut self.rx).poll(cx) {
			Poll::Pending => Poll::Pending,
			Poll::Ready(r) => {
				self.done = true;
				Poll::Ready(r.unwrap_or(Err(JoinError(None))))
			}
		}
	}
}
impl<T> fmt::Debug for JoinHandle<T> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "JoinHandle({})", self.id)
	}
}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
	F: Future + Send + 'static,
	F::Output: Send + 'static,
{
	let (tx, rx) = oneshot::channel();
	let id = sim::spawn(
		"task",
		Box::pin(async move {
			let _ = tx.send(Ok(f.await));
		}),
	);
	JoinHandle {
		id,
		rx,
		done: false,
	}
}

/// Runs the closure in one step of a task of its own.
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
	F: FnOnce() -> R + Send + 'static,
	R: Send + 'static,
{
	let (tx, rx) = oneshot::channel();
	let id = sim::spawn(
		"blocking",
		Box::pin(async move {
			let r = catch_unwind(AssertUnwindSafe(f)).map_err(|p| JoinError(Some(p.into())));
			let _ = tx.send(r);
		}),
	);
	JoinHandle {
		id,
		rx,
		done: false,
	}
}
pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
	f()
}
pub async fn yield_now() {
	sim::yield_now().await
}

pub struct JoinSet<T> {
	set: Vec<JoinHandle<T>>,
}
impl<T: Send + 'static> Default for JoinSet<T> {
	fn default() -> Self {
		Self::new()
	}
}
impl<T: Send + 'static> JoinSet<T> {
	pub fn new() -> Self {
		Self {
			set: vec![],
		}
	}
	pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) {
		self.set.push(spawn(f));
	}
	pub fn len(&self) -> usize {
		self.set.len()
	}
	pub fn is_empty(&self) -> bool {
		self.set.is_empty()
	}
	pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
		if self.set.is_empty() {
			return None;
		}
		std::future::poll_fn(|cx| {
			for i in 0..self.set.len() {
				if let Poll::Ready(r) = Pin::new(&mut self.set[i]).poll(cx) {
					self.set.remove(i);
					return Poll::Ready(Some(r));
				}
			}
			Poll::Pending
		})
		.await
	}
}
