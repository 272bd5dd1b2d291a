//! The whole operator (`system::run`) against the simulated world. Every
//! execution is determined by a sequence of choices: which task runs next, when
//! blocks arrive, where the operator crashes and how much of its last write
//! survives, and which requests fail. All sequences with a bounded number of
//! deviations from the default are run.
use std::{
	cell::RefCell,
	collections::HashSet,
	rc::Rc,
	sync::OnceLock,
};

use bdk::bitcoin::{Network, Txid};
use mc::{explore, explore::Chooser, Ctx, Fail};
use romeo::{config::Config, event::Event, state::State};
use sim::{Exec, Stepped};

use crate::{
	btc::scripts,
	events::{dep, wd, Found},
	fx::*,
	net::*,
};

pub const SCHED: u32 = 1;
pub const MINE: u32 = 2;
pub const SKIP: u32 = 4;
pub const CRASH: u32 = 8;
pub const FAULT: u32 = 16;
pub const SLOW: u32 = 32;
pub const LAG_IN: u32 = 64;
/// several crashes, each soon after the one before
pub const AGAIN: u32 = 128;
/// only the plainest faults
pub const FEW: u32 = 256;
/// the nodes may drop what waits to be mined
pub const DROP: u32 = 512;
pub const ALL: u32 = SCHED | MINE | SKIP | CRASH | FAULT | SLOW | LAG_IN;

const SEC: u64 = 1_000_000_000;
/// Time between Bitcoin blocks; the Stacks block follows a while later.
const PERIOD: u64 = 12 * SEC;
const LAG: u64 = 5 * SEC;
const DISK: u64 = SEC / 100;
const CRAWLING_DISK: u64 = 5 * SEC;

fn disk_name(s: &Sim) -> &'static str {
	match (s.slow_disk, s.crawling) {
		(false, _) => "",
		(_, false) => " slow disk",
		_ => " crawling disk",
	}
}

#[derive(Clone)]
pub struct Sim {
	pub name: &'static str,
	pub strict: bool,
	pub net: Network,
	pub plan: Vec<Vec<Op>>,
	/// Bitcoin blocks within which the unusual can happen
	pub blocks: u32,
	/// Bitcoin blocks after which nothing is waited for any more
	pub limit: u32,
	/// sBTC that each drawee has at first, beside what it withdraws
	pub funded: bool,
	pub kinds: u32,
	/// irrelevant transactions before and after the operations of a block
	pub around: (u32, u32),
	/// crash at this point already (1-based), keeping this many bytes
	pub crash_at: Option<(u64, usize)>,
	pub api_key: Option<&'static str>,
	pub place: Place,
	/// writing to a file takes a while, within which everything else goes on
	pub slow_disk: bool,
	/// and longer than the operator waits before a payout; blocks take longer, too
	pub crawling: bool,
	/// a Stacks block comes only with every so many-th Bitcoin block
	pub every: u32,
	/// the Stacks blocks held back so come all at once
	pub burst: bool,
	/// and the Bitcoin blocks before them, too
	pub both: bool,
	/// strict mode is switched at every restart
	pub flip: bool,
}

impl Sim {
	pub fn new(name: &'static str, plan: Vec<Vec<Op>>, kinds: u32) -> Self {
		Sim {
			name,
			strict: false,
			net: Network::Testnet,
			blocks: plan.len() as u32 + 8,
			limit: plan.len() as u32 + 24,
			plan,
			funded: true,
			kinds,
			around: (0, 0),
			crash_at: None,
			api_key: None,
			place: PLACE,
			slow_disk: false,
			crawling: false,
			every: 1,
			burst: false,
			both: false,
			flip: false,
		}
	}
	fn title(&self) -> String {
		let k: Vec<&str> = ["order", "early blocks", "missing blocks", "crashes", "faults", "waiting", "lag", "again", "plain ones", "dropped"].into_iter().enumerate().filter(|(i, _)| self.kinds >> i & 1 == 1).map(|x| x.1).collect();
		format!("run {}{}{}{}{} [{}]", self.name, match (self.every, self.burst) {
			(1, _) => "",
			(_, false) => " few Stacks blocks",
			_ if self.both => " blocks in bursts",
			_ => " Stacks blocks in bursts",
		}, disk_name(self), match (self.strict, self.flip) {
				(false, false) => "",
				(false, true) => " then strict",
				(true, false) => " strict",
				(true, true) => " no longer strict",
			}, if self.net == Network::Testnet { "" } else { " regtest" }, k.join(", "))
	}
	pub fn crawling_disk(mut self) -> Self {
		self.crawling = true;
		self.slow_disk()
	}
	pub fn slow_disk(mut self) -> Self {
		self.slow_disk = true;
		self
	}
	pub fn at(mut self, btc0: u32, stx0: u32, nonce: u64, rate: u64) -> Self {
		self.place = Place {
			btc0,
			stx0,
			nonce,
			rate,
		};
		self
	}
	pub fn bursts(mut self, n: u32) -> Self {
		self.both = true;
		self.burst(n)
	}
	pub fn burst(mut self, n: u32) -> Self {
		self.burst = true;
		self.every(n)
	}
	pub fn every(mut self, n: u32) -> Self {
		self.every = n;
		self.blocks *= n;
		self.limit *= n;
		self
	}
	pub fn flip(mut self) -> Self {
		self.flip = true;
		self
	}
	pub fn strict(mut self) -> Self {
		self.strict = true;
		self
	}
}

fn base_config(net: Network, strict: bool) -> Config {
	static C: [OnceLock<Config>; 2] = [OnceLock::new(), OnceLock::new()];
	let mut c = C[(net == Network::Regtest) as usize].get_or_init(|| config(net, false, std::path::Path::new("/nonexistent"))).clone();
	c.strict = strict;
	c
}

/// The operations, by transaction and kind of request, that the operator had
/// decided to create a transaction for without noting that it was out. `None` if
/// the log cannot be read that way.
fn half_done(cfg: &Config) -> Option<HashSet<(String, &'static str)>> {
	let mut v = HashSet::new();
	let log = match std::fs::read(cfg.state_directory.join("log.ndjson")) {
		Ok(l) => l,
		Err(_) => return None,
	};
	let mut s = State::new();
	for l in log.split_inclusive(|b| *b == b'\n').filter(|l| l.ends_with(b"\n")) {
		let e: Event = serde_json::from_slice(l).ok()?;
		mc::no_panic(|| s.update(e, cfg)).ok()?;
	}
	let j = serde_json::to_value(&s).ok()?;
	let j = j.get("Initialized");
	for (list, kinds) in [("deposits", &["mint"][..]), ("withdrawals", &["burn", "fulfillment"])] {
		for d in j.and_then(|j| j.get(list)).and_then(|l| l.as_array()).into_iter().flatten() {
			for k in kinds {
				if d[k] == "Created" {
					v.insert((d["info"]["txid"].as_str()?.to_string(), *k));
				}
			}
		}
	}
	Some(v)
}

pub struct End {
	pub found: Vec<Found>,
	pub outcome: &'static str,
	pub steps: u64,
	/// bytes on their way at each point where the outside can tell a crash
	pub points: Vec<usize>,
	pub trace: Vec<String>,
	pub crashes: u32,
	/// see `half_done`; collected over all crashes
	lost: Option<HashSet<(String, &'static str)>>,
}

/// Panics that are the operator's documented answer to what happened.
fn intended(strict: bool, m: &str) -> bool {
	strict && (m.starts_with("Bitcoin transaction failed") || m.starts_with("Unable to sign and broadcast the"))
}

pub fn simulate(sc: &Sim, choices: &mut Chooser) -> End {
	let dir = Scratch::new();
	let mut cfg = base_config(sc.net, sc.strict);
	cfg.state_directory = dir.0.join("state");
	cfg.hiro_api_key = sc.api_key.map(|k| k.into());
	let ch = Rc::new(RefCell::new(std::mem::replace(choices, Chooser::new(vec![]))));
	let net = Rc::new(RefCell::new(Net::new(&cfg, &sc.place, sc.plan.clone(), ch.clone())));
	if sc.funded {
		let mut n = net.borrow_mut();
		for o in sc.plan.iter().flatten() {
			if let Op::Withdraw { amount, .. } = o {
				let w = n.wallet.clone();
				if let Some(Want::Burn { source: blockstack_lib::vm::types::PrincipalData::Standard(p), .. }) = reference(sc.net, &w, 0, &o.tx(sc.net, &w, 0)).into_iter().next() {
					n.grant(&clarity::Principal::standard(p.0, p.1), *amount as u128);
				}
			}
		}
	}
	{
		let mut n = net.borrow_mut();
		n.faults = sc.kinds & FAULT != 0;
		n.few = sc.kinds & FEW != 0;
		n.slow = sc.kinds & SLOW != 0;
		n.lagging = sc.kinds & LAG_IN != 0;
		n.dropping = sc.kinds & DROP != 0;
		n.around = sc.around;
		n.disk = match (sc.slow_disk, sc.crawling) {
			(false, _) => 0,
			(_, false) => DISK,
			_ => CRAWLING_DISK,
		};
	}
	sim::set_node(Some(net.clone()));

	let boot = |now: u64, strict: bool| {
		let e = Exec::install_at(now);
		let mut c = cfg.clone();
		c.strict = strict;
		let main = e.spawn("main", Box::pin(romeo::system::run(c)));
		(e, main)
	};
	let mut strict = sc.strict;
	let (mut exec, mut main) = boot(0, strict);
	let mut end = End {
		found: vec![],
		outcome: "completed",
		steps: 0,
		points: vec![],
		trace: vec![],
		crashes: 0,
		lost: Some(HashSet::new()),
	};
	let note_lost = |l: &mut Option<HashSet<(String, &'static str)>>| match half_done(&cfg) {
		Some(h) => {
			if let Some(l) = l {
				l.extend(h)
			}
		}
		None => *l = None,
	};
	let (period, lag) = if sc.crawling { (10 * PERIOD, 10 * LAG) } else { (PERIOD, LAG) };
	let mut next_btc = period / 2;
	let mut next_stx = next_btc + lag;
	let mined = |n: &Net| n.btc_tip() - n.btc0;
	let mut mark = (u64::MAX, usize::MAX, 0);
	let written = || std::fs::metadata(cfg.state_directory.join("log.ndjson")).map(|m| m.len()).unwrap_or(0);
	let (mut reported, mut heard) = (0, 0);
	let mut dead = false;
	let mut last_crash = 0;
	let mut settled = 0;
	let mut over = false;
	let mut stop_at = 0;
	loop {
		let runnable = exec.runnable();
		// has anything happened that the outside could tell?
		let now_mark = (net.borrow().served, sim::pending(), written());
		if now_mark.2 != reported {
			reported = now_mark.2;
			told(&mut net.borrow_mut(), &cfg, &mut heard);
		}
		let visible = now_mark != mark;
		mark = now_mark;
		if visible {
			end.points.push(now_mark.1);
			if let Some((at, keep)) = sc.crash_at {
				if end.points.len() as u64 == at && end.crashes == 0 {
					net.borrow_mut().trace.push(format!("-- crash, {keep} of {} bytes arrive", now_mark.1));
					let t = exec.now();
					exec.kill(keep);
					end.crashes += 1;
					note_lost(&mut end.lost);
					last_crash = end.points.len();
					strict ^= sc.flip;
(exec, main) = boot(t + SEC, strict);
					continue;
				}
			}
		}
		// what may happen next, the usual thing first
		enum Move {
			Step(usize),
			Btc,
			Stx,
			Crash(usize),
		}
		let mut moves: Vec<Move> = vec![];
		if let Some(r) = runnable.first() {
			moves.push(Move::Step(*r));
			if sc.kinds & SCHED != 0 {
				moves.extend(runnable[1..].iter().map(|i| Move::Step(*i)));
			}
			if visible {
				if sc.kinds & MINE != 0 && mined(&net.borrow()) < sc.blocks {
					moves.push(Move::Btc);
					if next_stx < next_btc {
						moves.push(Move::Stx);
					}
				}
				if sc.kinds & CRASH != 0 && (end.crashes == 0 || sc.kinds & AGAIN != 0 && end.crashes < 3 && end.points.len() <= last_crash + 12) {
					let p = now_mark.1;
					let mut k = vec![0, p / 2, p.saturating_sub(1), p];
					k.dedup();
					moves.extend(k.into_iter().map(Move::Crash));
				}
			}
		}
		if moves.is_empty() {
			// quiet: the clock moves on
			let timer = exec.next_timer().unwrap_or(u64::MAX);
			let world = next_btc.min(next_stx);
			if over && timer > stop_at {
				break;
			}
			let world = if over { u64::MAX } else { world };
			if timer <= world {
				exec.advance();
				continue;
			}
			exec.advance_to(world);
			let mut n = net.borrow_mut();
			if next_stx <= next_btc {
				// the Stacks block may fail to come
				let skip = mined(&n) % sc.every != 0 || sc.kinds & SKIP != 0 && mined(&n) < sc.blocks && ch.borrow_mut().choose(2, || "no Stacks block".into()) == 1;
				if !skip {
					if sc.burst {
						for i in (1..sc.every).rev() {
							n.mine_empty_stx(i);
						}
					}
					n.mine_stx();
				}
				next_stx = next_btc + lag;
				// two more blocks once everything has come to its end
				settled = if done(&n, &Some(HashSet::new())).is_empty() { settled + 1 } else { 0 };
				over = mined(&n) >= sc.blocks && settled > 2 || mined(&n) >= sc.limit;
				stop_at = world + period;
			} else {
				n.mine_btc();
				while sc.both && mined(&n) % sc.every != 0 {
					n.mine_btc();
				}
				next_btc = world + period * if sc.both { sc.every as u64 } else { 1 };
			}
			continue;
		}
		let i = if moves.len() > 1 {
			ch.borrow_mut().choose(moves.len() as u32, || format!("step {}: {} runnable, {} moves", end.steps, runnable.len(), moves.len()))
		} else {
			0
		};
		match moves[i as usize] {
			Move::Step(id) => {
				end.steps += 1;
				if i > 0 {
					net.borrow_mut().trace.push(format!("-- task {id} before task {}", runnable[0]));
				}
				let r = exec.step(id);
				if r != Stepped::Pending && id == main {
					dead = true;
				}
				let ps: Vec<_> = exec.panics.borrow_mut().drain(..).collect();
				for (_, label, m) in ps {
					net.borrow_mut().trace.push(format!("   {label} panics: {m}"));
					if !intended(strict, &m) {
						let f = Fail::from(format!("the operator panics: {m}"));
						end.found.push(("C06", f.clone()));
						if end.crashes > 0 {
							end.found.push(("C05", f));
						}
					} else {
						end.outcome = "stopped in strict mode";
					}
				}
				if dead && sc.flip && end.outcome == "stopped in strict mode" && end.found.is_empty() {
					net.borrow_mut().trace.push("-- started again, no longer strict".into());
					let t = exec.now();
					exec.kill(usize::MAX);
					end.outcome = "completed";
					(dead, strict) = (false, false);
					(exec, main) = boot(t + SEC, strict);
					continue;
				}
				if dead {
					break;
				}
			}
			Move::Btc => {
				net.borrow_mut().mine_btc();
				next_btc = exec.now() + period;
				next_stx = next_stx.min(next_btc + lag);
			}
			Move::Stx => {
				net.borrow_mut().mine_stx();
				next_stx = next_btc + lag;
			}
			Move::Crash(keep) => {
				net.borrow_mut().trace.push(format!("-- crash, {keep} of {} bytes arrive", now_mark.1));
				let t = exec.now();
				exec.kill(keep);
				end.crashes += 1;
				note_lost(&mut end.lost);
				last_crash = end.points.len();
				strict ^= sc.flip;
(exec, main) = boot(t + SEC, strict);
			}
		}
		if end.steps > 60_000 {
			end.found.push(("C06", Fail::from("the operator keeps busy without end")));
			break;
		}
	}
	if dead && end.found.is_empty() && end.outcome == "completed" {
		end.found.push(("C06", Fail::from("the operator ends by itself")));
	}
	exec.kill(0);
	sim::set_node(None);
	{
		let mut n = net.borrow_mut();
		end.found.append(&mut n.found);
		if end.outcome == "completed" {
			let v = done(&n, &end.lost);
			if end.crashes > 0 {
				end.found.extend(v.iter().filter(|f| f.1.sig.is_none()).map(|f| ("C05", Fail::from(format!("after a restart, {}", f.1.msg)))));
			}
			end.found.extend(v);
			end.found.extend(consumed(&n, &cfg));
			if n.seen.values().any(|t| t.verdict == Some(false)) {
				end.outcome = "refused by the contract";
			}
		}
		end.trace = std::mem::take(&mut n.trace);
	}
	drop(net);
	*choices = Rc::try_unwrap(ch).ok().expect("choices still shared").into_inner();
	end
}

/// Every status the operator notes down must be what a node told about that
/// transaction since the last time, or what is the case.
fn told(n: &mut Net, cfg: &Config, heard: &mut usize) {
	let log = std::fs::read(cfg.state_directory.join("log.ndjson")).unwrap_or_default();
	let end = log.iter().rposition(|b| *b == b'\n').map(|i| i + 1).unwrap_or(0);
	for l in log.get(*heard..end).unwrap_or_default().split(|b| *b == b'\n') {
		let (id, status, truth) = match serde_json::from_slice(l) {
			Ok(Event::StacksTransactionUpdate(id, s)) => (id.to_string(), s, Some(n.stx_truth(&id)).filter(|_| n.seen.contains_key(&id))),
			Ok(Event::BitcoinTransactionUpdate(id, s)) => (id.to_string(), s, n.btc_truth(&id)),
			_ => continue,
		};
		let t = n.told.remove(&id).unwrap_or_default();
		n.reports += 1;
		if truth.as_ref() != Some(&status) && !t.contains(&status) {
			let m = format!("reports transaction {id} as {status:?}; it is {truth:?}, and the node was asked when it was {t:?}");
			n.found.push(("C09", Fail::from(m)));
		}
	}
	*heard = end.max(*heard);
}

/// Every operation must have come to its end.
fn done(n: &Net, lost: &Option<HashSet<(String, &'static str)>>) -> Vec<Found> {
	let mut v = vec![];
	let mut miss = |sig: Option<&str>, msg: String| {
		v.push((
			"C07",
			Fail {
				sig: sig.map(|s| s.into()),
				msg,
			},
		))
	};
	if !n.seen.values().any(|t| t.op.is_none() && t.verdict == Some(true)) {
		miss(None, "the wallet's public key is never set".into());
		return v;
	}
	for (i, w) in n.wants.iter().enumerate() {
		let t = n.seen.values().find(|t| t.op == Some(i));
		// a crash between deciding on a transaction and noting that it is out
		let (txid, kind) = match w {
			Want::Mint { txid, .. } => (txid, "mint"),
			Want::Burn { txid, .. } => (txid, "burn"),
		};
		let known = |txid: &Txid, k| lost.as_ref().is_none_or(|l| l.contains(&(txid.to_string(), k))).then_some("crash-while-created");
		match (t.map(|t| t.verdict), w) {
			(None, _) => miss(known(txid, kind), format!("operation {i} is never acted on: {w:?}")),
			(Some(None), _) => miss(None, format!("operation {i}'s transaction is never mined: {w:?}")),
			(Some(Some(true)), Want::Burn { .. }) => match n.payouts.iter().find(|p| p.op == i) {
				None => {
					// payouts that look the same cannot be told apart
					let sig = n.wants.iter().find_map(|o| match (w, o) {
						(Want::Burn { amount: a, payee: p, .. }, Want::Burn { amount, payee, txid, .. }) if (a, p) == (amount, payee) => {
							["burn", "fulfillment"].into_iter().find_map(|k| known(txid, k))
						}
						_ => None,
					});
					miss(sig, format!("withdrawal {i} is burned but never paid out: {w:?}"))
				}
				Some(p) if n.mempool.iter().any(|t| t.txid() == p.txid) => miss(None, format!("the payout of withdrawal {i} is never mined")),
				Some(_) => {}
			},
			_ => {}
		}
	}
	v
}

/// Both chains must have been read in full and in order, and every block used
/// once.
fn consumed(n: &Net, cfg: &Config) -> Vec<Found> {
	let mut v = vec![];
	for (chain, read, from, tip) in [("Bitcoin", &n.btc_read, n.btc0, n.btc_tip()), ("Stacks", &n.stx_read, n.stx0, n.stx_tip())] {
		let mut seen = from;
		for h in read.iter().copied().filter(|h| *h > from) {
			if h > seen + 1 {
				v.push(("C04", Fail::from(format!("{chain} block {h} is read before {}", seen + 1))));
				break;
			}
			seen = seen.max(h);
		}
		if v.is_empty() && !n.faults && seen < tip {
			v.push(("C04", Fail::from(format!("{chain} block {} is never read, though {tip} is there", seen + 1))));
		}
	}
	// what it noted down, as far as that can be read
	let log = std::fs::read(cfg.state_directory.join("log.ndjson")).unwrap_or_default();
	let events: Option<Vec<Event>> = log.split_inclusive(|b| *b == b'\n').filter(|l| l.ends_with(b"\n")).map(|l| serde_json::from_slice(l).ok()).collect();
	let (mut b, mut s) = (n.btc0, n.stx0);
	for e in events.unwrap_or_default() {
		let (chain, h, last) = match e {
			Event::BitcoinBlock(h, _) => ("Bitcoin", h, &mut b),
			Event::StacksBlock(h, _) => ("Stacks", h, &mut s),
			_ => continue,
		};
		if h != *last + 1 {
			v.push(("C04", Fail::from(format!("{chain} block {h} is used after {last}"))));
		}
		*last = h;
	}
	v
}

/// All executions of a scenario within the bound.
pub fn search(ctx: &Ctx, props: &[&'static str], sc: &Sim, bound: u32, cap: u64) {
	let name = sc.title();
	let judge = |key: &dyn Fn() -> String, e: &End| {
		let mut ours = e.found.iter().filter(|f| props.contains(&f.0)).peekable();
		if ours.peek().is_none() {
			ctx.tally(if e.found.is_empty() { e.outcome } else { "shows something about another property" }, key);
		}
		for (_, f) in ours {
			ctx.violation(&key(), f.sig.as_deref(), &f.msg);
		}
	};
	let key_of = |c: &[u32]| {
		let v: Vec<String> = c.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, x)| format!("{i}={x}")).collect();
		format!("{name}:{}", v.join(","))
	};
	if let Some(r) = &ctx.replay {
		if let Some(list) = r.strip_prefix(&format!("{name}:")) {
			let mut c = vec![];
			for p in list.split(',').filter(|p| !p.is_empty()) {
				let (i, x) = p.split_once('=').unwrap();
				c.resize(i.parse().unwrap(), 0);
				c.push(x.parse().unwrap());
			}
			ctx.case(r.clone(), || {
				let e = simulate(sc, &mut Chooser::new(c));
				for l in &e.trace {
					eprintln!("  {l}");
				}
				match e.found.into_iter().find(|f| props.contains(&f.0)) {
					Some((_, f)) => Err(f),
					None => Ok("ok"),
				}
			});
		}
		return;
	}
	let t0 = std::time::Instant::now();
	let st = explore::explore_par(bound, cap, |ch| {
		if ctx.enough() {
			return false;
		}
		ctx.busy(&name);
		let r = mc::no_panic(|| {
			let mut c = std::mem::replace(ch, Chooser::new(vec![]));
			let e = simulate(sc, &mut c);
			*ch = c;
			e
		});
		ctx.idle();
		match r {
			Ok(e) => judge(&|| key_of(&ch.choices()), &e),
			Err(p) => {
				eprintln!("{name}: the simulation fails: {p}");
				std::process::exit(3)
			}
		}
		true
	});
	if std::env::var("TIMES").is_ok() {
		eprintln!("{name}: {:?}", t0.elapsed());
	}
	ctx.add("schedules", st.executions);
	ctx.add("choice_points", st.points);
	if sc.name.starts_with("variety") {
		ctx.add("variety runs", st.executions);
		return;
	}
	ctx.put(&format!("{name} space"), format!("{} executions, up to {} choice points, at most {bound} deviations{}", st.executions, st.max_points, if st.capped { ", cap reached" } else { ", complete" }));
}

/// The histories that are played.
pub fn all(k: u32) -> Vec<Sim> {
	vec![
		Sim::new("one of each", vec![vec![dep(1000, 1)], vec![wd(700, 1, 1)]], k),
		Sim::new("two withdrawals", vec![vec![wd(12_000_000, 1, 1), wd(900_000, 2, 2)]], k).at(65_533, 253, 255, 1),
		Sim::new("two deposits", vec![vec![dep(1000, 1), dep(2000, 2)]], k).at(16_777_214, 65_533, 65_536, 180),
		Sim::new("busy", vec![vec![dep(1000, 1), wd(700, 1, 1)], vec![wd(900, 2, 2), dep(3000, 3)], vec![], vec![wd(800, 3, 3)]], k).at(830_000, 150_000, 127, 3),
		Sim::new("alike", vec![vec![wd(700, 1, 1), wd(700, 1, 1), dep(1000, 1), dep(1000, 1)]], k).at(2_500_000, 4_000_000, 1 << 32, 70_000),
		Sim {
			funded: false,
			..Sim::new("unfunded", vec![vec![wd(700, 1, 1)], vec![dep(700, 1), wd(600, 2, 2)]], k)
		},
	]
}

/// Much at once: many operations; a block as long as the real ones.
pub fn many(k: u32) -> Vec<Sim> {
	let some = |from: u8, n: u8| (from..from + n).flat_map(|i| [dep(1000 + i as u64, i), wd(100_000 + i as u64, i, i)]).collect::<Vec<_>>();
	let mut crowd = Sim::new("crowd", vec![some(1, 13), vec![], some(14, 13), some(27, 13)], k).at(254, 65_530, 250, 2);
	crowd.limit = 100;
	let mut long = Sim::new("long blocks", vec![vec![dep(1000, 1)], vec![wd(700, 1, 1)]], k).at(800_000, 130_000, 65_534, 2);
	long.around = (1500, 1200);
	vec![crowd, long]
}

/// Every point at which a crash makes a difference, with every number of bytes
/// that may have arrived of what was being written.
fn crashes(ctx: &Ctx, props: &[&'static str], sc: &Sim) {
	crashes_at(ctx, props, sc, 1)
}

/// The same at every so many-th such point.
fn crashes_at(ctx: &Ctx, props: &[&'static str], sc: &Sim, stride: usize) {
	let base = match mc::no_panic(|| simulate(sc, &mut Chooser::new(vec![]))) {
		Ok(e) => e,
		Err(p) => {
			eprintln!("{}: the simulation fails: {p}", sc.name);
			std::process::exit(3)
		}
	};
	let mut at = vec![];
	for (i, n) in base.points.iter().enumerate().filter(|x| x.0 % stride == 0) {
		// all, or both ends and some in between
		let step = match *n {
			n if n < 60 || ctx.thorough() && n < 5000 => 1,
			n => n / if stride == 1 { 12 } else { 2 },
		};
		at.extend((0..=*n).filter(|k| k % step == 0 || *k < 4 || k + 4 > *n).map(|k| (i as u64 + 1, k)));
	}
	let name = format!("crash {}{}{}{}", sc.name, if sc.strict { " strict" } else { "" }, if sc.flip { " flip" } else { "" }, disk_name(sc));
	ctx.put(&format!("{name} space"), format!("{} points of {} steps{}, {} crashes", base.points.len(), base.steps, if stride > 1 { format!(", each {stride}th of them") } else { String::new() }, at.len()));
	let t0 = std::time::Instant::now();
	ctx.add("crash_points", base.points.len() as u64);
	ctx.each(&name, at.len() as u64, |i| {
		let mut s = sc.clone();
		s.crash_at = Some(at[i as usize]);
		let e = simulate(&s, &mut Chooser::new(vec![]));
		if ctx.replay.is_some() {
			for l in &e.trace {
				eprintln!("  {l}");
			}
		}
		let mut ours = e.found.into_iter().filter(|f| props.contains(&f.0));
		match ours.next() {
			Some((_, mut f)) => {
				f.msg = format!("crash at point {} with {} bytes kept: {}", at[i as usize].0, at[i as usize].1, f.msg);
				Err(f)
			}
			None => Ok(if at[i as usize].1 > 0 { "completed after a partial write" } else { "completed after a crash" }),
		}
	});
	if std::env::var("TIMES").is_ok() {
		eprintln!("{name}: {:?}", t0.elapsed());
	}
}

fn rules(ctx: &Ctx) {
	ctx.rule("Runs: a case is one execution of the whole operator on the simulated nodes, told apart by its sequence of choices (which task goes next, when blocks come, crashes and what is left of the last write, faults of the nodes). All sequences with up to the stated number of deviations from the usual choice are executed.");
	ctx.assume("The stand-ins for tokio's runtime, the HTTP, JSON-RPC and Electrum connections and the nodes behind them behave as the real ones do; the asset contract is the real one, run by an own Clarity interpreter.");
	ctx.assume("Task switches happen only where tasks await; the network does not reorder a task's own requests.");
}

pub fn play(ctx: &Ctx, prop: &'static str) {
	rules(ctx);
	let t = ctx.thorough();
	let cap = if t { 400_000 } else { 30_000 };
	let one = |i: usize, k: u32| all(k).swap_remove(i);
	let each = |k: u32, bound: u32| {
		for s in all(k) {
			search(ctx, &[prop], &s, bound, cap);
		}
	};
	let strict = |i: usize, k: u32, bound: u32| search(ctx, &[prop], &one(i, k).strict(), bound, cap);
	let deep = |i: usize, k: u32, bound: u32| search(ctx, &[prop], &one(i, k), bound + t as u32, cap);
	if prop != "C05" && prop != "C12" && prop != "C36" {
		for s in many(0) {
			search(ctx, &[prop], &s, 0, cap);
			search(ctx, &[prop], &s.clone().strict().slow_disk(), 0, cap);
			search(ctx, &[prop], &s.bursts(4), 0, cap);
		}
	}
	match prop {
		"C01" => {
			each(ALL, 1);
			search(ctx, &[prop], &one(3, ALL & !FAULT).slow_disk(), 1, cap);
			search(ctx, &[prop], &one(4, CRASH | MINE | SLOW).slow_disk(), 1, cap);
			search(ctx, &[prop], &one(1, CRASH | MINE | SLOW).burst(5).crawling_disk(), 1, cap);
			strict(3, ALL & !FAULT, 1);
			deep(4, MINE | SKIP | SLOW, 1);
			deep(4, CRASH | AGAIN, 2);
			search(ctx, &[prop], &one(4, ALL & !FAULT).bursts(4), 1, cap);
		}
		"C02" => {
			each(ALL, 1);
			deep(5, MINE | SKIP | SLOW | LAG_IN, 2);
			strict(5, ALL & !FAULT, 1);
		}
		"C04" => {
			each(ALL, 1);
			search(ctx, &[prop], &one(3, ALL & !FAULT).slow_disk(), 1, cap);
			deep(0, MINE | SKIP, 2);
			search(ctx, &[prop], &one(3, MINE | CRASH).every(4), 1, cap);
			search(ctx, &[prop], &one(3, ALL & !FAULT).bursts(4), 1, cap);
			deep(0, CRASH | AGAIN, 2);
		}
		"C05" => {
			let props = ["C01", "C02", "C04", "C05", "C08", "C10"];
			for s in all(0) {
				crashes(ctx, &props, &s);
				crashes(ctx, &props, &s.slow_disk());
			}
			crashes(ctx, &props, &one(0, 0).strict());
			crashes(ctx, &props, &one(0, 0).flip());
			crashes(ctx, &props, &one(3, 0).strict().flip());
			crashes_at(ctx, &props, &one(1, 0).burst(5), if t { 1 } else { 2 });
			crashes_at(ctx, &props, &one(3, 0).bursts(4), if t { 1 } else { 3 });
			crashes_at(ctx, &props, &one(1, 0).burst(5).crawling_disk(), if t { 1 } else { 2 });
			let [crowd, long] = <[Sim; 2]>::try_from(many(0)).ok().unwrap();
			crashes_at(ctx, &props, &long, if t { 1 } else { 3 });
			crashes_at(ctx, &props, &crowd, if t { 1 } else { 19 });
			crashes_at(ctx, &props, &crowd.slow_disk(), if t { 1 } else { 61 });
			for i in [1, 5] {
				search(ctx, &props, &one(i, DROP | FAULT | MINE).strict().flip(), 1, cap);
			}
			for i in [0, 4] {
				search(ctx, &props, &one(i, CRASH | AGAIN), 2 + t as u32, cap);
			}
		}
		"C06" => {
			each(ALL, 1);
			for i in 0..5 {
				strict(i, ALL & !FAULT, 1);
			}
			deep(1, SCHED | SLOW, 1);
			deep(5, DROP | MINE, 2);
			search(ctx, &[prop], &one(3, ALL).bursts(5), 1, cap);
		}
		"C07" => {
			each(ALL & !FAULT, 1);
			for i in 0..5 {
				strict(i, ALL & !(FAULT | CRASH), 1);
			}
			deep(0, MINE | SKIP | SLOW | LAG_IN, 2);
			search(ctx, &[prop], &one(3, MINE | SLOW | SCHED).every(5), 1, cap);
			for i in [3, 4] {
				deep(i, DROP | MINE | SLOW, 1);
			}
			search(ctx, &[prop], &one(3, ALL & !(FAULT | CRASH)).bursts(6), 1, cap);
		}
		"C08" => {
			each(ALL & !FAULT, 1);
			deep(2, SCHED, 2);
			deep(1, SCHED, 1);
			for i in [1, 3] {
				search(ctx, &[prop], &one(i, SCHED | MINE).burst(5), 1, cap);
				search(ctx, &[prop], &one(i, SCHED).bursts(5), 1, cap);
				for n in if t { 3..12 } else { 7..9 } {
					search(ctx, &[prop], &one(i, SCHED).burst(n), 1, cap);
				}
			}
		}
		"C09" => {
			each(ALL, 1);
			for i in 0..6 {
				deep(i, DROP, 1);
			}
			deep(3, DROP | MINE | SKIP | SLOW | LAG_IN, 1);
			deep(0, DROP | MINE | SKIP | SLOW | LAG_IN, 2);
			strict(1, DROP | MINE | SLOW, 1);
		}
		"C10" => {
			each(ALL & !FAULT, 1);
			for s in variety() {
				search(ctx, &[prop], &s, 0, cap);
			}
			search(ctx, &[prop], &one(1, MINE | SLOW).every(5), 1, cap);
			let mut s = one(3, ALL & !FAULT);
			s.net = Network::Regtest;
			search(ctx, &[prop], &s, 1, cap);
		}
		"C12" => {
			let props = ["C01", "C02", "C04", "C06", "C07", "C08", "C10"];
			for s in all(FAULT) {
				search(ctx, &props, &s, 1, cap);
				search(ctx, &props, &s.strict(), 1, cap);
			}
			search(ctx, &props, &one(1, FAULT).burst(5), 1, cap);
			search(ctx, &props, &one(3, FAULT).bursts(4), 1, cap);
			search(ctx, &props, &one(0, FAULT | FEW), 2, 60_000);
			search(ctx, &props, &many(FAULT | FEW).swap_remove(1), 1, cap);
			if t {
				search(ctx, &props, &one(0, FAULT), 2, cap);
				search(ctx, &props, &one(4, FAULT), 2, cap);
				search(ctx, &props, &one(0, FAULT | SCHED), 2, cap);
			}
		}
		"C36" => {
			for k in [None, Some("k3y")] {
				let mut s = one(0, if k.is_some() { FAULT } else { 0 });
				s.api_key = k;
				s.name = if k.is_some() { "with an API key" } else { "without an API key" };
				search(ctx, &[prop], &s, 1, cap);
			}
		}
		_ => unreachable!(),
	}
}

/// Operations of all kinds of contents, one history each.
fn variety() -> Vec<Sim> {
	let mut v = vec![];
	let mut add = |net: Network, op: Op, around: (u32, u32)| {
		let mut s = Sim::new("variety", vec![vec![op]], 0);
		s.name = Box::leak(format!("variety {}", v.len()).into_boxed_str());
		s.net = net;
		s.around = around;
		v.push(s);
	};
	for net in [Network::Testnet, Network::Regtest] {
		for amount in [1, 546, 255, 256, 65_536, 100_000_000, 2_100_000_000_000_000] {
			add(net, Op::Deposit { amount, version: 26, hash: [7; 20], name: None }, (0, 0));
		}
		for version in [26, 21] {
			for name in [None, Some("a"), Some("x-y_Z9"), Some("a234567890123456789012345678901234567890")] {
				add(net, Op::Deposit { amount: 1000, version, hash: *b"\x00\xff12345678901234567\x80", name }, (1, 1));
			}
		}
		for k in 1..=2 {
			for payee in scripts(k) {
				for amount in [546, 100_000, 10_000_000] {
					add(net, Op::Withdraw { amount, key: k, payee: payee.clone(), fee: 2000 }, (k as u32, 0));
				}
			}
		}
		for before in 0..=9 {
			for after in [0, 1, 5] {
				add(net, dep(1000, 1), (before, after));
				add(net, wd(1000, 1, 1), (before, after));
			}
		}
	}
	v
}

pub fn dev(ctx: &Ctx) {
	let props = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10"];
	let k: u32 = std::env::var("K").ok().and_then(|k| k.parse().ok()).unwrap_or(0);
	let b: u32 = std::env::var("B").ok().and_then(|k| k.parse().ok()).unwrap_or(0);
	let n = |v: &str, d: u32| std::env::var(v).ok().and_then(|k| k.parse().ok()).unwrap_or(d);
	let mut s = all(k).into_iter().chain(many(k)).nth(n("S", 0) as usize).unwrap().every(n("EV", 1));
	if n("CD", 0) > 0 {
		s = s.crawling_disk();
	}
	s.burst = n("BU", 0) > 0;
	s.both = n("BU", 0) > 1;
	if b == 0 {
		let t = std::time::Instant::now();
		let e = simulate(&s, &mut Chooser::new(vec![]));
		for l in &e.trace {
			eprintln!("  {l}");
		}
		eprintln!("{:?} {} steps, {} points, {:?} {:?}", e.outcome, e.steps, e.points.len(), t.elapsed(), e.found);
	}
	search(ctx, &props, &s, b, 1_000_000);
}
