//! `backoff` on the virtual clock, without the random factor.
use std::{fmt, time::Duration};

#[derive(Debug)]
pub enum Error<E> {
	Permanent(E),
	Transient {
		err: E,
		retry_after: Option<Duration>,
	},
}
impl<E> Error<E> {
	pub fn permanent(e: E) -> Self {
		Self::Permanent(e)
	}
	pub fn transient(err: E) -> Self {
		Self::Transient {
			err,
			retry_after: None,
		}
	}
	pub fn retry_after(err: E, d: Duration) -> Self {
		Self::Transient {
			err,
			retry_after: Some(d),
		}
	}
}
impl<E> From<E> for Error<E> {
	fn from(e: E) -> Self {
		Self::Permanent(e)
	}
}
impl<E: fmt::Display> fmt::Display for Error<E> {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match self {
			Self::Permanent(e)
			| Self::Transient {
				err: e,
				..
			} => e.fmt(f),
		}
	}
}

#[derive(Debug, Clone)]
pub struct ExponentialBackoff {
	pub current_interval: Duration,
	pub initial_interval: Duration,
	pub randomization_factor: f64,
	pub multiplier: f64,
	pub max_interval: Duration,
	pub max_elapsed_time: Option<Duration>,
	started: u64,
}
impl Default for ExponentialBackoff {
	fn default() -> Self {
		Self {
			current_interval: Duration::from_millis(500),
			initial_interval: Duration::from_millis(500),
			randomization_factor: 0.5,
			multiplier: 1.5,
			max_interval: Duration::from_secs(60),
			max_elapsed_time: Some(Duration::from_secs(900)),
			started: sim::now(),
		}
	}
}
#[derive(Debug, Default)]
pub struct ExponentialBackoffBuilder(ExponentialBackoff);
impl ExponentialBackoffBuilder {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn with_initial_interval(mut self, d: Duration) -> Self {
		self.0.initial_interval = d;
		self.0.current_interval = d;
		self
	}
	pub fn with_multiplier(mut self, m: f64) -> Self {
		self.0.multiplier = m;
		self
	}
	pub fn with_randomization_factor(mut self, m: f64) -> Self {
		self.0.randomization_factor = m;
		self
	}
	pub fn with_max_interval(mut self, d: Duration) -> Self {
		self.0.max_interval = d;
		self
	}
	pub fn with_max_elapsed_time(mut self, d: Option<Duration>) -> Self {
		self.0.max_elapsed_time = d;
		self
	}
	pub fn build(self) -> ExponentialBackoff {
		self.0
	}
}

pub mod backoff {
	use std::time::Duration;
	pub trait Backoff {
		fn reset(&mut self) {}
		fn next_backoff(&mut self) -> Option<Duration>;
	}
	impl Backoff for super::ExponentialBackoff {
		fn reset(&mut self) {
			self.current_interval = self.initial_interval;
			self.started = sim::now();
		}
		fn next_backoff(&mut self) -> Option<Duration> {
			let elapsed = Duration::from_nanos(sim::now() - self.started);
			if self.max_elapsed_time.is_some_and(|m| elapsed > m) {
				return None;
			}
			let d = self.current_interval;
			if self.max_elapsed_time.is_some_and(|m| elapsed + d > m) {
				return None;
			}
			self.current_interval = d.mul_f64(self.multiplier).min(self.max_interval);
			Some(d)
		}
	}
	#[derive(Debug, Clone)]
	pub struct Constant(pub Duration);
	impl Backoff for Constant {
		fn next_backoff(&mut self) -> Option<Duration> {
			Some(self.0)
		}
	}
}

pub trait Notify<E> {
	fn notify(&mut self, err: E, d: Duration);
}
impl<E, F: FnMut(E, Duration)> Notify<E> for F {
	fn notify(&mut self, err: E, d: Duration) {
		self(err, d)
	}
}

pub mod future {
	use std::{future::Future, time::Duration};

	use super::{backoff::Backoff, Error, Notify};

	pub async fn retry<I, E, Fn, Fut, B>(backoff: B, operation: Fn) -> Result<I, E>
	where
		B: Backoff,
		Fn: FnMut() -> Fut,
		Fut: Future<Output = Result<I, Error<E>>>,
	{
		retry_notify(backoff, operation, |_, _: Duration| ()).await
	}
	pub async fn retry_notify<I, E, Fn, Fut, B, N>(mut backoff: B, mut operation: Fn, mut notify: N) -> Result<I, E>
	where
		B: Backoff,
		Fn: FnMut() -> Fut,
		Fut: Future<Output = Result<I, Error<E>>>,
		N: Notify<E>,
	{
		backoff.reset();
		loop {
			match operation().await {
				Ok(v) => return Ok(v),
				Err(Error::Permanent(e)) => return Err(e),
				Err(Error::Transient {
					err,
					retry_after,
				}) => match retry_after.or_else(|| backoff.next_backoff()) {
					Some(d) => {
						notify.notify(err, d);
						sim::sleep(d).await;
					}
					None => return Err(err),
				},
			}
		}
	}
}
pub use crate::future::{retry as retry_async, retry_notify as retry_notify_async};
