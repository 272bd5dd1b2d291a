use std::{
	future::Future,
	ops::{Add, Sub},
	pin::Pin,
	task::{Context, Poll},
};

pub use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);
impl Instant {
	pub fn now() -> Self {
		Self(sim::now())
	}
	pub fn elapsed(&self) -> Duration {
		Duration::from_nanos(sim::now().saturating_sub(self.0))
	}
	pub fn duration_since(&self, o: Instant) -> Duration {
		Duration::from_nanos(self.0.saturating_sub(o.0))
	}
}
impl Add<Duration> for Instant {
	type Output = Instant;
	fn add(self, d: Duration) -> Instant {
		Instant(self.0 + d.as_nanos() as u64)
	}
}
impl Sub<Instant> for Instant {
	type Output = Duration;
	fn sub(self, o: Instant) -> Duration {
		self.duration_since(o)
	}
}

pub struct Sleep(sim::Sleep);
pub fn sleep(d: Duration) -> Sleep {
	Sleep(sim::sleep(d))
}
pub fn sleep_until(i: Instant) -> Sleep {
	Sleep(sim::sleep_until(i.0))
}
impl Future for Sleep {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		Pin::new(&mut self.0).poll(cx)
	}
}

pub mod error {
	#[derive(Debug, PartialEq, Eq)]
	pub struct Elapsed;
	impl std::fmt::Display for Elapsed {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			f.write_str("deadline has elapsed")
		}
	}
	impl std::error::Error for Elapsed {}
}

pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
	let mut f = Box::pin(f);
	let mut s = sleep(d);
	std::future::poll_fn(move |cx| {
		if let Poll::Ready(v) = f.as_mut().poll(cx) {
			return Poll::Ready(Ok(v));
		}
		Pin::new(&mut s).poll(cx).map(|_| Err(error::Elapsed))
	})
	.await
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
	#[default]
	Burst,
	Delay,
	Skip,
}
pub struct Interval {
	next: u64,
	period: u64,
}
pub fn interval(p: Duration) -> Interval {
	Interval {
		next: sim::now(),
		period: p.as_nanos() as u64,
	}
}
impl Interval {
	pub async fn tick(&mut self) -> Instant {
		sim::sleep_until(self.next).await;
		let at = Instant(self.next);
		self.next += self.period;
		at
	}
	pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
}
