//! The simulated environment behind the stand-ins for tokio, reqwest, backoff
//! and bdk: a single-threaded executor whose every step is chosen by the
//! model checker, a virtual clock, and hooks for the nodes the program talks to.
use std::{
	any::Any,
	cell::{Cell, RefCell},
	collections::{BTreeMap, VecDeque},
	future::Future,
	panic::{catch_unwind, AssertUnwindSafe},
	pin::Pin,
	rc::Rc,
	sync::{
		atomic::{AtomicBool, Ordering},
		Arc, Mutex,
	},
	task::{Context, Poll, Wake, Waker},
	time::Duration,
};

use serde_json::Value;

// ---------------------------------------------------------------- nodes

#[derive(Clone, Debug, PartialEq)]
pub struct HttpRequest {
	pub method: String,
	pub url: String,
	pub headers: Vec<(String, String)>,
	pub body: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct HttpResponse {
	pub status: u16,
	pub body: Vec<u8>,
}
#[derive(Clone, Debug)]
pub enum HttpFault {
	/// no connection came about
	Connect,
	/// the connection broke before the server acted
	Broken,
}
#[derive(Clone, Debug)]
pub enum RpcFault {
	Transport,
	Rpc(i32, String),
}
#[derive(Clone, Debug)]
pub struct RpcCall {
	pub url: String,
	pub user: String,
	pub pass: String,
	pub cmd: String,
	pub args: Vec<Value>,
}
/// A transaction and the height and time of the block it is in.
pub type Placed = (bitcoin::Transaction, Option<(u32, u64)>);

pub trait Node {
	fn http(&mut self, r: &HttpRequest) -> Result<HttpResponse, HttpFault>;
	/// Whether the answer to the request just served gets lost on its way back.
	fn http_answer_lost(&mut self, _r: &HttpRequest) -> bool {
		false
	}
	fn rpc(&mut self, c: &RpcCall) -> Result<Value, RpcFault>;
	fn electrum(&mut self, url: &str) -> Result<(u32, Vec<Placed>), String>;
	/// Nanoseconds until what is written to a file is on the disk.
	fn disk(&mut self) -> u64 {
		0
	}
	fn as_any(&mut self) -> &mut dyn Any;
}

thread_local! {
	static NODE: RefCell<Option<Rc<RefCell<dyn Node>>>> = const { RefCell::new(None) };
	static EXEC: RefCell<Option<Rc<Exec>>> = const { RefCell::new(None) };
}
pub fn set_node(n: Option<Rc<RefCell<dyn Node>>>) {
	NODE.with(|x| *x.borrow_mut() = n)
}
pub fn node<R>(f: impl FnOnce(&mut dyn Node) -> R) -> R {
	let n = NODE.with(|x| x.borrow().clone()).expect("no simulated node on this thread");
	let mut n = n.borrow_mut();
	f(&mut *n)
}

/// How long the disk takes.
pub fn disk() -> u64 {
	let n = NODE.with(|x| x.borrow().clone());
	n.and_then(|n| n.try_borrow_mut().ok().map(|mut n| n.disk())).unwrap_or(0)
}

thread_local! {
	static KEEP: Cell<Option<usize>> = const { Cell::new(None) };
	static PENDING: Cell<usize> = const { Cell::new(0) };
}
/// Bytes on their way to the file most recently written.
pub fn pending() -> usize {
	PENDING.get()
}
pub fn set_pending(n: usize) {
	PENDING.set(n)
}
/// In a crash, how many of the bytes on their way arrive.
pub fn keep() -> Option<usize> {
	KEEP.get()
}

// ---------------------------------------------------------------- executor

type Queue = Arc<Mutex<VecDeque<usize>>>;
struct TaskWaker {
	id: usize,
	queued: AtomicBool,
	queue: Queue,
}
impl Wake for TaskWaker {
	fn wake(self: Arc<Self>) {
		self.wake_by_ref()
	}
	fn wake_by_ref(self: &Arc<Self>) {
		if !self.queued.swap(true, Ordering::SeqCst) {
			self.queue.lock().unwrap().push_back(self.id);
		}
	}
}

struct Entry {
	fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
	waker: Arc<TaskWaker>,
	label: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stepped {
	Pending,
	Done,
	Panicked,
}

/// Tasks of one simulated process.
pub struct Exec {
	tasks: RefCell<BTreeMap<usize, Entry>>,
	next: Cell<usize>,
	queue: Queue,
	now: Cell<u64>,
	timers: RefCell<BTreeMap<(u64, u64), Waker>>,
	timer_seq: Cell<u64>,
	/// (task, label, message)
	pub panics: RefCell<Vec<(usize, String, String)>>,
	pub current: Cell<Option<usize>>,
}

impl Default for Exec {
	fn default() -> Self {
		Exec {
			tasks: Default::default(),
			next: Cell::new(0),
			queue: Default::default(),
			now: Cell::new(0),
			timers: Default::default(),
			timer_seq: Cell::new(0),
			panics: Default::default(),
			current: Cell::new(None),
		}
	}
}

impl Exec {
	/// Installs a new executor on this thread.
	pub fn install() -> Rc<Exec> {
		Self::install_at(0)
	}
	/// The same, with the clock at the given time.
	pub fn install_at(now: u64) -> Rc<Exec> {
		let e = Rc::new(Exec::default());
		e.now.set(now);
		KEEP.set(None);
		PENDING.set(0);
		EXEC.with(|x| *x.borrow_mut() = Some(e.clone()));
		rand::rngs::fix_thread_rng(now);
		e
	}
	pub fn get() -> Option<Rc<Exec>> {
		EXEC.try_with(|x| x.borrow().clone()).ok().flatten()
	}
	fn here() -> Rc<Exec> {
		Self::get().expect("no simulated executor on this thread")
	}
	/// Ends the process: every task is dropped without running again. Of what was
	/// on its way to the disk, the first `keep` bytes arrive.
	pub fn kill(&self, keep: usize) {
		KEEP.set(Some(keep));
		let dead = std::mem::take(&mut *self.tasks.borrow_mut());
		self.timers.borrow_mut().clear();
		self.queue.lock().unwrap().clear();
		// a destructor may still send on channels; nobody will run for it
		let _ = catch_unwind(AssertUnwindSafe(move || drop(dead)));
		KEEP.set(None);
		PENDING.set(0);
		EXEC.with(|x| *x.borrow_mut() = None);
	}
	pub fn spawn(&self, label: &str, fut: Pin<Box<dyn Future<Output = ()>>>) -> usize {
		let id = self.next.get();
		self.next.set(id + 1);
		let waker = Arc::new(TaskWaker {
			id,
			queued: AtomicBool::new(false),
			queue: self.queue.clone(),
		});
		waker.wake_by_ref();
		self.tasks.borrow_mut().insert(
			id,
			Entry {
				fut: Some(fut),
				waker,
				label: label.into(),
			},
		);
		id
	}
	pub fn alive(&self) -> usize {
		self.tasks.borrow().len()
	}
	pub fn is_alive(&self, id: usize) -> bool {
		self.tasks.borrow().contains_key(&id)
	}
	/// Tasks that can take a step, in the order in which they were woken.
	pub fn runnable(&self) -> Vec<usize> {
		let t = self.tasks.borrow();
		self.queue.lock().unwrap().iter().copied().filter(|i| t.contains_key(i)).collect()
	}
	pub fn step(&self, id: usize) -> Stepped {
		let (mut fut, waker) = {
			let mut t = self.tasks.borrow_mut();
			let e = t.get_mut(&id).expect("unknown task");
			(e.fut.take().expect("task is running"), e.waker.clone())
		};
		self.queue.lock().unwrap().retain(|x| *x != id);
		waker.queued.store(false, Ordering::SeqCst);
		let w = Waker::from(waker);
		let mut cx = Context::from_waker(&w);
		self.current.set(Some(id));
		let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
		self.current.set(None);
		match r {
			Ok(Poll::Pending) => {
				if let Some(e) = self.tasks.borrow_mut().get_mut(&id) {
					e.fut = Some(fut);
				}
				Stepped::Pending
			}
			Ok(Poll::Ready(())) => {
				self.tasks.borrow_mut().remove(&id);
				Stepped::Done
			}
			Err(p) => {
				let e = self.tasks.borrow_mut().remove(&id);
				let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
				let msg = p
					.downcast_ref::<String>()
					.cloned()
					.or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
					.unwrap_or_else(|| "panic".into());
				self.panics.borrow_mut().push((id, e.map(|e| e.label).unwrap_or_default(), msg));
				Stepped::Panicked
			}
		}
	}
	pub fn abort(&self, id: usize) {
		let e = self.tasks.borrow_mut().remove(&id);
		drop(e);
	}
	pub fn now(&self) -> u64 {
		self.now.get()
	}
	pub fn next_timer(&self) -> Option<u64> {
		self.timers.borrow().keys().next().map(|k| k.0)
	}
	/// Moves the clock to the earliest timer and wakes everything due.
	pub fn advance(&self) -> bool {
		let Some(t) = self.next_timer() else { return false };
		self.now.set(self.now.get().max(t));
		let rest = self.timers.borrow_mut().split_off(&(t + 1, 0));
		let due = std::mem::replace(&mut *self.timers.borrow_mut(), rest);
		for (_, w) in due {
			w.wake();
		}
		true
	}
	pub fn advance_to(&self, t: u64) {
		while self.next_timer().is_some_and(|x| x <= t) {
			self.advance();
		}
		self.now.set(self.now.get().max(t));
	}
}

pub fn spawn(label: &str, fut: Pin<Box<dyn Future<Output = ()>>>) -> usize {
	Exec::here().spawn(label, fut)
}
pub fn abort(id: usize) {
	if let Some(e) = Exec::get() {
		e.abort(id)
	}
}
pub fn now() -> u64 {
	Exec::get().map(|e| e.now()).unwrap_or(0)
}

/// Waits until the virtual clock reaches the deadline.
pub struct Sleep {
	pub deadline: u64,
	key: Option<(u64, u64)>,
}
pub fn sleep_until(deadline: u64) -> Sleep {
	Sleep {
		deadline,
		key: None,
	}
}
pub fn sleep(d: Duration) -> Sleep {
	sleep_until(now().saturating_add(d.as_nanos().min(u64::MAX as u128) as u64))
}
impl Future for Sleep {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let e = Exec::here();
		if e.now() >= self.deadline {
			return Poll::Ready(());
		}
		let k = *self.key.get_or_insert_with(|| {
			let s = e.timer_seq.get();
			e.timer_seq.set(s + 1);
			(0, s)
		});
		e.timers.borrow_mut().insert((self.deadline, k.1), cx.waker().clone());
		Poll::Pending
	}
}
impl Drop for Sleep {
	fn drop(&mut self) {
		if let (Some(k), Some(e)) = (self.key, Exec::get()) {
			e.timers.borrow_mut().remove(&(self.deadline, k.1));
		}
	}
}

/// A point where other tasks, the nodes and crashes may come in between.
#[derive(Default)]
pub struct Yield(bool);
pub fn yield_now() -> Yield {
	Yield(false)
}
impl Future for Yield {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.0 {
			return Poll::Ready(());
		}
		self.0 = true;
		cx.waker().wake_by_ref();
		Poll::Pending
	}
}
