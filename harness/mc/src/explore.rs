//! Generic search: choice-tree exploration (stateless) and BFS (explicit state).

use std::{
	cell::RefCell,
	collections::{HashMap, VecDeque},
};

/// Controls the choices of one execution. Default answer is always 0; every
/// non-zero answer costs one deviation.
pub struct Chooser {
	prefix: Vec<u32>,
	pub trace: Vec<(u32, u32)>, // (taken, alternatives)
	pub labels: Vec<String>,
	free: Vec<bool>,
}

impl Chooser {
	pub fn new(prefix: Vec<u32>) -> Self {
		Chooser {
			prefix,
			trace: vec![],
			labels: vec![],
			free: vec![],
		}
	}
	pub fn choose(&mut self, n: u32, label: impl FnOnce() -> String) -> u32 {
		self.choose_cost(n, false, label)
	}
	/// A choice whose alternatives do not count as deviations.
	pub fn choose_free(&mut self, n: u32, label: impl FnOnce() -> String) -> u32 {
		self.choose_cost(n, true, label)
	}
	fn choose_cost(&mut self, n: u32, free: bool, label: impl FnOnce() -> String) -> u32 {
		assert!(n > 0);
		let i = self.trace.len();
		let c = if i < self.prefix.len() {
			let c = self.prefix[i];
			assert!(
				c < n,
				"divergence while replaying a prefix: choice {c} of {n} at point {i} ({})",
				label()
			);
			c
		} else {
			0
		};
		self.trace.push((c, n));
		self.free.push(free);
		if c != 0 {
			self.labels.push(format!("#{i}={c}/{n} {}", label()));
		}
		c
	}
	pub fn choices(&self) -> Vec<u32> {
		self.trace.iter().map(|t| t.0).collect()
	}
	pub fn prefix_len(&self) -> usize {
		self.prefix.len()
	}
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
	pub executions: u64,
	pub points: u64,
	pub max_points: u64,
	pub capped: bool,
}

/// Explore every choice sequence with at most `bound` deviations from the
/// default answers. `run` executes one schedule; returns false to stop.
pub fn explore(bound: u32, cap: u64, mut run: impl FnMut(&mut Chooser) -> bool) -> Stats {
	let mut st = Stats::default();
	// breadth-first by number of deviations so the first failure is minimal
	let mut level: Vec<Vec<u32>> = vec![vec![]];
	for dev in 0..=bound {
		let mut next = vec![];
		let mut stack: Vec<Vec<u32>> = level;
		stack.reverse();
		while let Some(prefix) = stack.pop() {
			if st.executions >= cap {
				st.capped = true;
				return st;
			}
			let start = prefix.len();
			let mut ch = Chooser::new(prefix);
			let go = run(&mut ch);
			st.executions += 1;
			st.points += ch.trace.len() as u64;
			st.max_points = st.max_points.max(ch.trace.len() as u64);
			if !go {
				return st;
			}
			let choices = ch.choices();
			for i in start..ch.trace.len() {
				let n = ch.trace[i].1;
				for alt in 1..n {
					let mut p = choices[..i].to_vec();
					p.push(alt);
					if ch.free[i] {
						stack.push(p);
					} else if dev < bound {
						next.push(p);
					}
				}
			}
		}
		level = next;
		if level.is_empty() {
			break;
		}
	}
	st
}

/// `explore` on all cores: every level of deviations is run in parallel. `run`
/// gets every choice sequence with at most `bound` deviations exactly once, and
/// returns false to stop.
pub fn explore_par(bound: u32, cap: u64, run: impl Fn(&mut Chooser) -> bool + Sync) -> Stats {
	use std::sync::{atomic::*, Mutex};
	let mut st = Stats::default();
	let mut level: Vec<Vec<u32>> = vec![vec![]];
	let stop = AtomicBool::new(false);
	for dev in 0..=bound {
		let mut next: Vec<Vec<u32>> = vec![];
		// free alternatives stay on this level, in further rounds
		while !level.is_empty() {
			let room = cap.saturating_sub(st.executions) as usize;
			if level.len() > room {
				level.truncate(room);
				st.capped = true;
			}
			let at = AtomicUsize::new(0);
			type Out = Mutex<Vec<(usize, u64, Vec<Vec<u32>>, Vec<Vec<u32>>)>>;
			let out: Out = Mutex::new(vec![]);
			std::thread::scope(|sc| {
				let k = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(level.len().max(1));
				for _ in 0..k {
					sc.spawn(|| loop {
						let i = at.fetch_add(1, Ordering::Relaxed);
						if i >= level.len() || stop.load(Ordering::Relaxed) {
							break;
						}
						let start = level[i].len();
						let mut ch = Chooser::new(level[i].clone());
						if !run(&mut ch) {
							stop.store(true, Ordering::Relaxed);
						}
						let choices = ch.choices();
						let (mut same, mut more) = (vec![], vec![]);
						for p in start..ch.trace.len() {
							if !ch.free[p] && dev == bound {
								continue;
							}
							for alt in 1..ch.trace[p].1 {
								let mut v = choices[..p].to_vec();
								v.push(alt);
								if ch.free[p] {
									same.push(v)
								} else {
									more.push(v)
								}
							}
						}
						out.lock().unwrap().push((i, ch.trace.len() as u64, same, more));
					});
				}
			});
			let mut o = out.into_inner().unwrap();
			o.sort_by_key(|x| x.0);
			let mut same = vec![];
			for (_, n, s, m) in o {
				st.executions += 1;
				st.points += n;
				st.max_points = st.max_points.max(n);
				same.extend(s);
				next.extend(m);
			}
			if stop.load(Ordering::Relaxed) || st.capped {
				return st;
			}
			level = same;
		}
		level = next;
		if level.is_empty() {
			break;
		}
	}
	st
}

/// Explicit-state BFS result.
#[derive(Default, Debug, Clone)]
pub struct BfsStats {
	pub states: u64,
	pub transitions: u64,
	pub max_depth: u64,
	pub capped: bool,
}

/// Breadth-first search. `succ(state)` yields (label, next). `key` is the
/// canonical form. `visit(state, path)` evaluates invariants; return false to stop.
pub fn bfs<S, K: std::hash::Hash + Eq + Clone>(
	init: Vec<S>,
	key: impl Fn(&S) -> K,
	mut succ: impl FnMut(&S, &dyn Fn() -> Vec<String>) -> Option<Vec<(String, S)>>,
	max_states: u64,
) -> BfsStats {
	let mut st = BfsStats::default();
	let mut seen: HashMap<K, u32> = HashMap::new();
	let meta: RefCell<Vec<(u32, String, u32)>> = RefCell::new(vec![]);
	let mut q = VecDeque::new();
	for s in init {
		let k = key(&s);
		if seen.contains_key(&k) {
			continue;
		}
		let i = meta.borrow().len() as u32;
		seen.insert(k, i);
		meta.borrow_mut().push((u32::MAX, String::new(), 0));
		q.push_back((i, s));
	}
	while let Some((i, s)) = q.pop_front() {
		st.states += 1;
		let depth = meta.borrow()[i as usize].2;
		st.max_depth = st.max_depth.max(depth as u64);
		let path = || {
			let m = meta.borrow();
			let mut out = vec![];
			let mut j = i;
			while m[j as usize].0 != u32::MAX {
				out.push(m[j as usize].1.clone());
				j = m[j as usize].0;
			}
			out.reverse();
			out
		};
		let Some(nexts) = succ(&s, &path) else {
			return st;
		};
		for (label, n) in nexts {
			st.transitions += 1;
			let k = key(&n);
			if seen.contains_key(&k) {
				continue;
			}
			if seen.len() as u64 >= max_states {
				st.capped = true;
				continue;
			}
			let j = meta.borrow().len() as u32;
			seen.insert(k, j);
			meta.borrow_mut().push((i, label, depth + 1));
			q.push_back((j, n));
		}
	}
	st
}

/// Level-synchronous parallel breadth-first search: like `bfs`, on all cores,
/// with a result that does not depend on timing. `succ` returns None to stop.
pub fn bfs_par<S: Send + Sync, K: std::hash::Hash + Eq + Send>(
	init: Vec<S>,
	key: impl Fn(&S) -> K + Sync,
	succ: impl Fn(&S, &dyn Fn() -> Vec<String>) -> Option<Vec<(String, S)>> + Sync,
	max_states: u64,
) -> BfsStats {
	use std::{collections::HashSet, sync::atomic::*, sync::Mutex};
	let mut st = BfsStats::default();
	let mut seen: HashSet<K> = HashSet::new();
	let mut meta: Vec<(u32, String)> = vec![];
	let mut level: Vec<(u32, S)> = vec![];
	for s in init {
		if seen.insert(key(&s)) {
			meta.push((u32::MAX, String::new()));
			level.push((meta.len() as u32 - 1, s));
		}
	}
	while !level.is_empty() {
		st.states += level.len() as u64;
		let next = AtomicUsize::new(0);
		let stop = AtomicBool::new(false);
		type Found<K, S> = Vec<(usize, Vec<(K, String, S)>)>;
		let out: Mutex<Found<K, S>> = Mutex::new(vec![]);
		let chunk = (level.len() / 64).clamp(1, 64);
		std::thread::scope(|sc| {
			let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(level.len());
			for _ in 0..n {
				sc.spawn(|| {
					let mut mine: Found<K, S> = vec![];
					loop {
						let a = next.fetch_add(chunk, Ordering::Relaxed);
						if a >= level.len() || stop.load(Ordering::Relaxed) {
							break;
						}
						for (i, (id, s)) in level.iter().enumerate().skip(a).take(chunk) {
							let path = || {
								let mut out = vec![];
								let mut j = *id;
								while meta[j as usize].0 != u32::MAX {
									out.push(meta[j as usize].1.clone());
									j = meta[j as usize].0;
								}
								out.reverse();
								out
							};
							match succ(s, &path) {
								Some(v) => mine.push((i, v.into_iter().map(|(l, s)| (key(&s), l, s)).collect())),
								None => stop.store(true, Ordering::Relaxed),
							}
						}
					}
					out.lock().unwrap().extend(mine);
				});
			}
		});
		let mut found = out.into_inner().unwrap();
		found.sort_by_key(|f| f.0);
		let mut nl = vec![];
		for (i, v) in found {
			for (k, label, s) in v {
				st.transitions += 1;
				if seen.contains(&k) {
					continue;
				}
				if seen.len() as u64 >= max_states {
					st.capped = true;
					continue;
				}
				seen.insert(k);
				meta.push((level[i].0, label));
				nl.push((meta.len() as u32 - 1, s));
			}
		}
		if stop.load(Ordering::Relaxed) {
			break;
		}
		if !nl.is_empty() {
			st.max_depth += 1;
		}
		level = nl;
	}
	st
}
