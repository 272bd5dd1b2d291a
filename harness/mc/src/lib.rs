//! Shared model-checking runtime: exhaustive case enumeration, explicit-state
//! search, choice-tree (stateless) exploration, evidence, replay, known findings.

use std::{
	cell::RefCell,
	collections::{BTreeMap, HashSet},
	hash::{Hash, Hasher},
	panic::{catch_unwind, AssertUnwindSafe},
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering},
		Arc, Mutex,
	},
	time::{Duration, Instant},
};

use serde_json::{json, Value};

pub mod explore;
pub mod sha;

/// What went wrong in a case. `sig` identifies the specific failure for the
/// known-findings file (defaults to the case key).
#[derive(Debug, Clone)]
pub struct Fail {
	pub sig: Option<String>,
	pub msg: String,
}

impl From<String> for Fail {
	fn from(msg: String) -> Self {
		Fail { sig: None, msg }
	}
}
impl From<&str> for Fail {
	fn from(msg: &str) -> Self {
		Fail {
			sig: None,
			msg: msg.to_string(),
		}
	}
}

static BEFORE: std::sync::OnceLock<fn(u64)> = std::sync::OnceLock::new();
/// Has `f` called before every case, with its index; it may make them repeatable.
pub fn before_each(f: fn(u64)) {
	let _ = BEFORE.set(f);
}

/// Ok(outcome class). A class starting with '~' is a trivial case.
pub type CaseResult = Result<&'static str, Fail>;

#[macro_export]
macro_rules! fail {
	($($arg:tt)*) => { return Err($crate::Fail::from(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
	($c:expr, $($arg:tt)*) => { if !($c) { return Err($crate::Fail::from(format!($($arg)*))) } };
}

#[macro_export]
macro_rules! ensure_eq {
	($a:expr, $b:expr, $($arg:tt)*) => {{
		match (&$a, &$b) {
			(a, b) => {
				if a != b {
					return Err($crate::Fail::from(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)))
				}
			}
		}
	}};
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
	Quick,
	Thorough,
}

struct Slot {
	start: Option<Instant>,
	index: Option<u64>,
	key: String,
}

pub struct Ctx {
	pub id: String,
	pub tier: Tier,
	pub seed: u64,
	pub replay: Option<String>,
	pub level: Mutex<String>,
	start: Instant,
	evals: AtomicU64,
	nontrivial: Vec<Mutex<HashSet<u64>>>,
	outcomes: Mutex<BTreeMap<String, u64>>,
	samples: Mutex<BTreeMap<String, Vec<String>>>,
	bulk_nontrivial: AtomicU64,
	extra: Mutex<serde_json::Map<String, Value>>,
	assumptions: Mutex<Vec<String>>,
	rule: Mutex<Vec<String>>,
	known: Vec<(String, String)>,
	known_hit: Mutex<BTreeMap<String, u64>>,
	violations: Mutex<Vec<(String, String, String)>>,
	nviol: AtomicU64,
	slots: Mutex<Vec<Arc<Mutex<Slot>>>>,
	done: AtomicBool,
	replay_hits: AtomicU64,
}

thread_local! {
	static SLOT: RefCell<Option<Arc<Mutex<Slot>>>> = const { RefCell::new(None) };
	static QUIET: RefCell<bool> = const { RefCell::new(false) };
	static NOTE: RefCell<Option<String>> = const { RefCell::new(None) };
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Describe the case at hand; evaluated only when it is being written out.
pub fn note(f: impl FnOnce() -> String) {
	NOTE.with(|n| {
		if let Some(s) = n.borrow_mut().as_mut() {
			let t = f();
			if s.len() < 600 {
				if !s.is_empty() {
					s.push_str("; ");
				}
				s.push_str(&t);
			}
		}
	})
}

/// Re-run a (deterministic) case with notes switched on.
fn describe(f: impl FnOnce()) -> String {
	NOTE.with(|n| *n.borrow_mut() = Some(String::new()));
	let _ = no_panic(f);
	NOTE.with(|n| n.borrow_mut().take()).unwrap_or_default()
}

pub fn hash64(s: &str) -> u64 {
	let mut h = std::collections::hash_map::DefaultHasher::new();
	s.hash(&mut h);
	h.finish()
}

/// Run code under test; a panic comes back as Err(message).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	let prev = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
	let r = catch_unwind(AssertUnwindSafe(f));
	QUIET.with(|q| *q.borrow_mut() = prev);
	r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn install_panic_hook() {
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |info| {
		let quiet = QUIET.try_with(|q| q.try_borrow().map(|b| *b).unwrap_or(false)).unwrap_or(false);
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"panic".to_string()
		};
		let loc = info
			.location()
			.map(|l| format!(" at {}:{}", l.file(), l.line()))
			.unwrap_or_default();
		let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
		if !quiet {
			old(info)
		}
	}));
}

pub fn verif_root() -> String {
	std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

pub fn repo_root() -> String {
	"/repo".into()
}

impl Ctx {
	/// Entry point of every engine binary.
	pub fn main(table: &[(&str, fn(&Ctx))]) -> ! {
		let mut args = std::env::args().skip(1);
		let id = args.next().expect("usage: <ID> [--replay FILE] [--tier quick|thorough]");
		let mut replay = None;
		let mut tier = match std::env::var("VERIF_TIER").as_deref() {
			Ok("thorough") => Tier::Thorough,
			_ => Tier::Quick,
		};
		while let Some(a) = args.next() {
			match a.as_str() {
				"--replay" => {
					let p = args.next().unwrap();
					let v: Value = serde_json::from_str(&std::fs::read_to_string(&p).expect("replay file")).expect("replay json");
					replay = Some(v["key"].as_str().expect("key").to_string());
				}
				"--tier" => {
					tier = match args.next().as_deref() {
						Some("thorough") => Tier::Thorough,
						_ => Tier::Quick,
					}
				}
				x => panic!("unknown argument {x}"),
			}
		}
		let f = table
			.iter()
			.find(|(n, _)| *n == id)
			.unwrap_or_else(|| panic!("no check {id}"))
			.1;
		install_panic_hook();
		let ctx = Arc::new(Ctx::new(&id, tier, replay));
		{
			let c = ctx.clone();
			std::thread::spawn(move || c.watchdog());
		}
		f(&ctx);
		std::process::exit(ctx.finish());
	}

	pub fn new(id: &str, tier: Tier, replay: Option<String>) -> Self {
		let known = std::fs::read_to_string(format!("{}/known_findings.jsonl", verif_root()))
			.unwrap_or_default()
			.lines()
			.filter_map(|l| serde_json::from_str::<Value>(l).ok())
			.filter(|v| v["property"] == id && v["status"] == "known")
			.map(|v| (v["signature"].as_str().unwrap_or("\u{0}").to_string(), v["what"].as_str().unwrap_or("").to_string()))
			.collect();
		Ctx {
			id: id.into(),
			tier,
			seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
			replay,
			level: Mutex::new("exploration".into()),
			start: Instant::now(),
			evals: AtomicU64::new(0),
			nontrivial: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
			outcomes: Default::default(),
			samples: Default::default(),
			bulk_nontrivial: AtomicU64::new(0),
			extra: Default::default(),
			assumptions: Default::default(),
			rule: Default::default(),
			known,
			known_hit: Default::default(),
			violations: Default::default(),
			nviol: AtomicU64::new(0),
			slots: Default::default(),
			done: AtomicBool::new(false),
			replay_hits: AtomicU64::new(0),
		}
	}

	pub fn thorough(&self) -> bool {
		self.tier == Tier::Thorough
	}

	pub fn level(&self, l: &str) {
		*self.level.lock().unwrap() = l.into();
	}
	pub fn rule(&self, s: impl Into<String>) {
		self.rule.lock().unwrap().push(s.into());
	}
	pub fn assume(&self, s: impl Into<String>) {
		self.assumptions.lock().unwrap().push(s.into());
	}
	pub fn put(&self, k: &str, v: impl Into<Value>) {
		self.extra.lock().unwrap().insert(k.into(), v.into());
	}
	pub fn add(&self, k: &str, n: u64) {
		let mut e = self.extra.lock().unwrap();
		let old = e.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
		e.insert(k.into(), (old + n).into());
	}
	pub fn get(&self, k: &str) -> u64 {
		self.extra.lock().unwrap().get(k).and_then(|v| v.as_u64()).unwrap_or(0)
	}
	pub fn elapsed(&self) -> Duration {
		self.start.elapsed()
	}
	pub fn violated(&self) -> bool {
		self.nviol.load(Ordering::Relaxed) > 0
	}
	pub fn evaluations(&self) -> u64 {
		self.evals.load(Ordering::Relaxed)
	}

	fn slot(&self) -> Arc<Mutex<Slot>> {
		SLOT.with(|s| {
			let mut s = s.borrow_mut();
			if s.is_none() {
				let a = Arc::new(Mutex::new(Slot {
					start: None,
					index: None,
					key: String::new(),
				}));
				self.slots.lock().unwrap().push(a.clone());
				*s = Some(a);
			}
			s.as_ref().unwrap().clone()
		})
	}

	/// Mark that code under test is running (for the hang watchdog).
	pub fn busy(&self, key: &str) {
		let s = self.slot();
		let mut s = s.lock().unwrap();
		s.start = Some(Instant::now());
		s.key.clear();
		s.key.push_str(key);
	}
	pub fn idle(&self) {
		self.slot().lock().unwrap().start = None;
	}

	fn watchdog(&self) {
		// counted here, so that time in which the whole process stood still is none
		let mut ages: std::collections::HashMap<usize, (Instant, u32)> = Default::default();
		loop {
			std::thread::sleep(Duration::from_millis(100));
			if self.done.load(Ordering::Relaxed) {
				return;
			}
			let slots = self.slots.lock().unwrap().clone();
			// a case that never stops allocating would be ended by the
			// system before it is found to hang
			if resident() > MEMORY_LIMIT {
				let oldest = slots
					.iter()
					.filter_map(|s| {
						let s = s.lock().unwrap();
						s.start.map(|t| (t, s.key.clone(), s.index))
					})
					.min();
				if let Some((_, key, index)) = oldest {
					let key = match index {
						Some(i) => format!("{key}#{i}"),
						None => key,
					};
					self.violation(&key, None, "the code under test takes memory without end");
					std::process::exit(self.finish());
				}
			}
			for (n, s) in slots.into_iter().enumerate() {
				let hung = {
					let s = s.lock().unwrap();
					let age = match (s.start, ages.get(&n)) {
						(Some(t), Some((since, age))) if t == *since => age + 1,
						_ => 0,
					};
					if let Some(t) = s.start {
						ages.insert(n, (t, age));
					}
					match s.start {
						Some(_) if age > 900 => Some(match s.index {
							Some(i) => format!("{}#{i}", s.key),
							None => s.key.clone(),
						}),
						_ => None,
					}
				};
				if let Some(key) = hung {
					self.violation(&key, None, "no answer within 90 s: the code under test does not terminate");
					std::process::exit(self.finish());
				}
			}
		}
	}

	/// One enumerated case against the real code.
	pub fn case(&self, key: impl Into<String>, f: impl FnOnce() -> CaseResult) {
		let key = key.into();
		if let Some(r) = &self.replay {
			if *r != key {
				return;
			}
			self.replay_hits.fetch_add(1, Ordering::Relaxed);
		}
		self.evals.fetch_add(1, Ordering::Relaxed);
		self.busy(&key);
		let r = match no_panic(f) {
			Ok(r) => r,
			Err(p) => Err(Fail::from(format!("panicked: {p}"))),
		};
		self.idle();
		match r {
			Ok(o) => self.outcome(o, &key),
			Err(f) => self.violation(&key, f.sig.as_deref(), &f.msg),
		}
	}

	/// Exhaustively run `f(i)` for every i in 0..n, on all cores. The cases are
	/// distinct by construction; a failing case is identified as `name#i`.
	pub fn each(&self, name: &str, n: u64, f: impl Fn(u64) -> CaseResult + Sync) {
		let run = |i: u64, slot: &Arc<Mutex<Slot>>| -> CaseResult {
			{
				let mut s = slot.lock().unwrap();
				s.start = Some(Instant::now());
				s.index = Some(i);
			}
			if let Some(b) = BEFORE.get() {
				b(i);
			}
			let r = match no_panic(|| f(i)) {
				Ok(r) => r,
				Err(p) => Err(Fail::from(format!("panicked: {p}"))),
			};
			slot.lock().unwrap().start = None;
			r
		};
		if let Some(r) = &self.replay {
			if let Some(i) = r.strip_prefix(name).and_then(|r| r.strip_prefix('#')).and_then(|r| r.parse::<u64>().ok()) {
				self.replay_hits.fetch_add(1, Ordering::Relaxed);
				let slot = self.slot();
				if let Err(e) = run(i, &slot) {
					self.violation(r, e.sig.as_deref(), &e.msg);
				}
			}
			return;
		}
		let chunk = (n / 64).clamp(1, 4096);
		let next = AtomicU64::new(0);
		std::thread::scope(|sc| {
			let k = std::thread::available_parallelism().map(|x| x.get() as u64).unwrap_or(4).min(n.div_ceil(chunk).max(1));
			for _ in 0..k {
				sc.spawn(|| {
					let slot = self.slot();
					slot.lock().unwrap().key = name.to_string();
					let mut local: BTreeMap<&'static str, (u64, Vec<u64>)> = BTreeMap::new();
					let mut count = 0u64;
					loop {
						let a = next.fetch_add(1, Ordering::Relaxed) * chunk;
						if a >= n || self.enough() {
							break;
						}
						for i in a..(a + chunk).min(n) {
							count += 1;
							match run(i, &slot) {
								Ok(o) => {
									let e = local.entry(o).or_default();
									e.0 += 1;
									if e.1.len() < 2 {
										e.1.push(i);
									}
								}
								Err(e) => self.violation(&format!("{name}#{i}"), e.sig.as_deref(), &e.msg),
							}
						}
					}
					slot.lock().unwrap().index = None;
					self.evals.fetch_add(count, Ordering::Relaxed);
					for (o, (c, idx)) in local {
						if !o.starts_with('~') {
							self.bulk_nontrivial.fetch_add(c, Ordering::Relaxed);
						}
						*self.outcomes.lock().unwrap().entry(o.to_string()).or_insert(0) += c;
						let mut s = self.samples.lock().unwrap();
						let v = s.entry(o.to_string()).or_default();
						for i in idx {
							if v.len() < 3 {
								let d = describe(|| {
									let _ = f(i);
								});
								v.push(if d.is_empty() { format!("{name}#{i}") } else { format!("{name}#{i}: {d}") });
							}
						}
					}
				});
			}
		});
	}

	/// Record an observed outcome class for a case that was fine.
	pub fn outcome(&self, o: &str, key: &str) {
		if !o.starts_with('~') {
			let h = hash64(key);
			self.nontrivial[(h % 64) as usize].lock().unwrap().insert(h);
		}
		let mut os = self.outcomes.lock().unwrap();
		let fresh = match os.get_mut(o) {
			Some(n) => {
				*n += 1;
				*n <= 2
			}
			None => {
				os.insert(o.to_string(), 1);
				true
			}
		};
		drop(os);
		if fresh {
			let mut k = key.to_string();
			if k.len() > 400 {
				let mut i = 400;
				while !k.is_char_boundary(i) {
					i -= 1;
				}
				k.truncate(i);
			}
			self.samples.lock().unwrap().entry(o.to_string()).or_default().push(k);
		}
	}

	/// Count one evaluation of a search; its key is computed only when kept as a sample.
	pub fn tally(&self, o: &str, key: &dyn Fn() -> String) {
		self.evals.fetch_add(1, Ordering::Relaxed);
		if !o.starts_with('~') {
			self.bulk_nontrivial.fetch_add(1, Ordering::Relaxed);
		}
		let mut os = self.outcomes.lock().unwrap();
		let n = match os.get_mut(o) {
			Some(n) => n,
			None => os.entry(o.to_string()).or_insert(0),
		};
		*n += 1;
		if *n <= 2 {
			drop(os);
			let k = key();
			self.samples.lock().unwrap().entry(o.to_string()).or_default().push(k.chars().take(400).collect());
		}
	}

	pub fn violation(&self, key: &str, sig: Option<&str>, msg: &str) {
		let sig = sig.unwrap_or(key);
		if let Some((s, w)) = self.known.iter().find(|(s, _)| s == sig) {
			let mut kh = self.known_hit.lock().unwrap();
			let n = kh.entry(s.clone()).or_insert(0);
			*n += 1;
			if *n == 1 {
				println!("KNOWN-FINDING: property={} {}", self.id, w);
			}
			return;
		}
		let n = self.nviol.fetch_add(1, Ordering::Relaxed);
		if n < 20 {
			eprintln!("violation [{}] case {}: {}", self.id, key, msg);
			self.violations.lock().unwrap().push((key.into(), sig.into(), msg.into()));
		}
	}

	/// Too many violations: stop early.
	pub fn enough(&self) -> bool {
		self.nviol.load(Ordering::Relaxed) >= 20
	}

	fn finish(&self) -> i32 {
		self.done.store(true, Ordering::Relaxed);
		let mut viol = self.violations.lock().unwrap().clone();
		viol.sort_by_key(|v| (v.0.len(), v.0.clone()));
		if self.replay.is_some() && self.replay_hits.load(Ordering::Relaxed) == 0 {
			eprintln!("replay: the recorded case is not in this check's space any more");
			return 3;
		}
		let root = verif_root();
		let mut rc = 0;
		if let Some((key, sig, msg)) = viol.first() {
			rc = 1;
			let dir = format!("{root}/replays");
			let _ = std::fs::create_dir_all(&dir);
			let path = format!("{dir}/{}-{:016x}.json", self.id, hash64(key));
			let _ = std::fs::write(
				&path,
				serde_json::to_string_pretty(&json!({
					"property": self.id, "key": key, "signature": sig, "message": msg,
					"tier": format!("{:?}", self.tier).to_lowercase(),
					"rerun": format!("bin/check {} --replay {}", self.id, path),
				}))
				.unwrap(),
			);
			println!("VIOLATION property={} replay={}", self.id, path);
			println!("  case: {key}\n  {msg}");
		}
		if self.replay.is_none() {
			let nontrivial: usize = self.nontrivial.iter().map(|s| s.lock().unwrap().len()).sum::<usize>() + self.bulk_nontrivial.load(Ordering::Relaxed) as usize;
			let samples: Vec<Value> = self
				.samples
				.lock()
				.unwrap()
				.iter()
				.take(40)
				.map(|(o, k)| json!({"outcome": o, "cases": k}))
				.collect();
			let mut cov = self.extra.lock().unwrap().clone();
			cov.insert("evaluations".into(), self.evals.load(Ordering::Relaxed).into());
			cov.insert("distinct_nontrivial".into(), nontrivial.into());
			cov.insert("rule".into(), self.rule.lock().unwrap().join(" ").into());
			cov.insert("samples".into(), samples.into());
			cov.insert(
				"outcomes".into(),
				json!(self.outcomes.lock().unwrap().clone()),
			);
			let kh = self.known_hit.lock().unwrap();
			if !kh.is_empty() {
				cov.insert("known_findings_seen".into(), json!(kh.clone()));
			}
			let ev = json!({
				"property": self.id,
				"tier": match self.tier { Tier::Quick => "quick", Tier::Thorough => "thorough" },
				"seed": self.seed,
				"level": self.level.lock().unwrap().clone(),
				"coverage": cov,
				"assumptions": self.assumptions.lock().unwrap().clone(),
				"wall_s": (self.start.elapsed().as_millis() as f64) / 1000.0,
				"violations": self.nviol.load(Ordering::Relaxed),
			});
			let _ = std::fs::create_dir_all(format!("{root}/evidence"));
			std::fs::write(
				format!("{root}/evidence/{}.json", self.id),
				serde_json::to_string_pretty(&ev).unwrap() + "\n",
			)
			.expect("write evidence");
			println!(
				"{}: {} cases, {} non-trivial, {} violations, {:.1}s",
				self.id,
				self.evals.load(Ordering::Relaxed),
				nontrivial,
				self.nviol.load(Ordering::Relaxed),
				self.start.elapsed().as_secs_f64()
			);
		}
		rc
	}
}

/// More memory than any case needs.
const MEMORY_LIMIT: u64 = 12 << 30;

/// Memory this process holds, in bytes.
fn resident() -> u64 {
	let text = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
	let pages = text.split(' ').nth(1).and_then(|n| n.parse().ok()).unwrap_or(0u64);
	pages * 4096
}

/// Run `f(i)` for i in 0..n on all cores.
pub fn par(n: usize, f: impl Fn(usize) + Sync) {
	let next = AtomicU64::new(0);
	std::thread::scope(|s| {
		let k = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1));
		for _ in 0..k {
			s.spawn(|| loop {
				let i = next.fetch_add(1, Ordering::Relaxed) as usize;
				if i >= n {
					break;
				}
				f(i);
			});
		}
	});
}

pub fn hex(b: impl AsRef<[u8]>) -> String {
	b.as_ref().iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
	(0..s.len() / 2)
		.map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
		.collect()
}

/// Mixed-radix decoding of an enumeration index.
pub struct Idx(pub u64);
impl Idx {
	pub fn take(&mut self, n: usize) -> usize {
		let r = self.0 % n as u64;
		self.0 /= n as u64;
		r as usize
	}
	pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
		&v[self.take(v.len())]
	}
}

/// Panic messages of code under test carry the source location.
pub fn panic_of<T>(r: Result<T, String>) -> Option<String> {
	r.err()
}

/// `base` with common prefixes, suffixes or both: what a lenient parser might strip.
pub fn affixed(base: &str) -> Vec<String> {
	let a = [
		"", "0x", "0X", " ", "  ", "\n", "\r\n", "\t", "\0", "+", "-", "\"", "'", "#", "h", "0", "00", "1", "z", "=", "/", ":", ".", "..", ",", ";", "_", "stacks:", "bitcoin:", "\u{feff}", "\u{a0}", "\u{200b}",
	];
	let mut v = vec![];
	for p in a {
		for s in a {
			v.push(format!("{p}{base}{s}"));
		}
	}
	v
}
