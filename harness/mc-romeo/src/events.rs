//! Explicit-state search over the operator's real state machine
//! (`State::update` and `State::bootstrap`). A node of the search is the live
//! state, a second state that only replays the log (what a restart would load),
//! the tasks in flight, and what the outside world knows. From every node, every
//! task in flight may finish with every answer the nodes could legally give, and
//! the operator may crash.
use std::{
	collections::{BTreeMap, BTreeSet, HashMap},
	path::Path,
	sync::Mutex,
};

use bdk::bitcoin::{hashes::Hash, Block, Network, Txid};
use blockstack_lib::burnchains::Txid as StxId;
use mc::{explore, Ctx, Fail};
use romeo::{
	config::Config,
	event::{Event, TransactionStatus as St},
	state::{DepositInfo, State, WithdrawalInfo},
	task::Task,
};

use crate::{btc::scripts, fx::*};


/// A violation of one of the properties.
pub type Found = (&'static str, Fail);

fn found<T>(p: &'static str, msg: impl Into<String>) -> Result<T, Found> {
	Err((p, Fail::from(msg.into())))
}
fn found_sig<T>(p: &'static str, sig: &str, msg: impl Into<String>) -> Result<T, Found> {
	Err((
		p,
		Fail {
			sig: Some(sig.into()),
			msg: msg.into(),
		},
	))
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum T {
	Contract,
	PubKey,
	Mint(usize),
	Burn(usize),
	Pay(usize),
	Stx(StxId),
	Btc(Txid),
	FetchStx(u32),
	FetchBtc(u32),
}

/// A task in flight, and how far it got: 0 nothing done, 1 its transaction is
/// out, 2 the broadcast failed.
type Flight = (T, u8);

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
struct Leg {
	/// transactions broadcast for it
	sent: u8,
	/// what the chain decided, once an answer revealed it
	truth: Option<bool>,
	/// the operator has been told
	told: Option<bool>,
	/// its creation was in flight at a crash
	lost: bool,
	/// its broadcast was refused, and the operator carries on without it
	refused: bool,
	/// reported as not known to the node (Bitcoin)
	gone: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Ghost {
	key: Leg,
	/// per operation: the mint or burn, and the payout
	ops: Vec<(Leg, Leg)>,
	stx: Option<u32>,
	btc: Option<u32>,
	crashes: u8,
}

#[derive(Clone)]
struct Node {
	live: String,
	log: String,
	flight: BTreeMap<Flight, u8>,
	g: Ghost,
}

pub struct Scenario {
	pub name: String,
	pub net: Network,
	pub strict: bool,
	/// heights of the Bitcoin and Stacks chains at the start
	pub btc0: u32,
	pub stx0: u32,
	/// operations in each block from `btc0` + 1 on
	pub blocks: Vec<Vec<Op>>,
	pub max_btc: u32,
	pub max_stx: u32,
	pub crashes: u8,
	pub setup: bool,
	/// answers "rejected" are possible
	pub rejections: bool,
	pub broadcast_failures: bool,
}

pub struct Space {
	sc: Scenario,
	cfg: Config,
	blocks: BTreeMap<u32, Block>,
	wants: Vec<Want>,
	pub props: BTreeSet<&'static str>,
	/// nodes already known to come to a good end
	ends: Mutex<HashMap<[u8; 32], &'static str>>,
}

fn txid_of(op: usize, kind: u8, n: u8) -> [u8; 32] {
	let mut t = [0xa0 + op as u8; 32];
	t[0] = kind;
	t[1] = n;
	t
}

fn load(s: &str) -> State {
	serde_json::from_str(s).expect("state does not survive its own serialization")
}
fn save(s: &State) -> String {
	serde_json::to_string(s).expect("state cannot be serialized")
}

impl Space {
	pub fn new(sc: Scenario, props: &[&'static str]) -> Self {
		let cfg = config(sc.net, sc.strict, Path::new("/nonexistent"));
		let wallet = wallet_script(&cfg);
		let mut blocks = BTreeMap::new();
		let mut prev = bdk::bitcoin::BlockHash::all_zeros();
		let mut wants = vec![];
		let mut salt = 0;
		for h in sc.btc0 + 1..=sc.btc0 + 60 {
			let ops = sc.blocks.get((h - sc.btc0 - 1) as usize).cloned().unwrap_or_default();
			let txs: Vec<_> = ops
				.iter()
				.map(|o| {
					salt += 1;
					usual(o.tx(sc.net, &wallet, salt), salt)
				})
				.collect();
			for t in &txs {
				wants.extend(reference(sc.net, &wallet, h, t));
			}
			let b = block(h, prev, txs, h);
			prev = b.block_hash();
			blocks.insert(h, b);
		}
		assert_eq!(wants.len(), sc.blocks.iter().map(|b| b.len()).sum::<usize>());
		Space {
			sc,
			cfg,
			blocks,
			wants,
			props: props.iter().copied().collect(),
			ends: Default::default(),
		}
	}

	fn start(&self) -> Node {
		let mut n = Node {
			live: save(&State::new()),
			log: save(&State::new()),
			flight: BTreeMap::new(),
			g: Ghost {
				key: Leg::default(),
				ops: vec![Default::default(); self.wants.len()],
				stx: None,
				btc: None,
				crashes: 0,
			},
		};
		let mut s = State::new();
		let tasks = s.bootstrap();
		n.live = save(&s);
		self.take(&mut n, tasks).unwrap();
		if !self.sc.setup {
			// up to the first operations the only choices are about set-up
			let id = StxId(txid_of(9, 0, 0));
			for f in [(T::Contract, 0), (T::PubKey, 0), (T::PubKey, 1), (T::FetchStx(self.sc.stx0 + 1), 0), (T::Stx(id), 0)] {
				let alts = self.moves(&n);
				let (_, a) = alts.into_iter().find(|(_, a)| a.0 == f && !matches!(a.1, Answer::Status(St::Broadcasted | St::Rejected))).expect("set-up");
				n = match self.step(&n, &a) {
					Ok(n) => n,
					Err((_, f)) => panic!("{}", f.msg),
				};
			}
			n.g.key.told = Some(true);
		}
		n
	}

	fn want_of(&self, w: &Want) -> Result<usize, Found> {
		match self.wants.iter().position(|x| x == w) {
			Some(i) => Ok(i),
			None => found("C03", format!("acts on {w:?}, but the chain asks for {:?}", self.wants)),
		}
	}

	/// Takes the tasks the operator wants to run.
	fn take(&self, n: &mut Node, tasks: Vec<Task>) -> Result<(), Found> {
		for t in tasks {
			let t = match t {
				Task::GetContractBlockHeight => T::Contract,
				Task::UpdateContractPublicKey => T::PubKey,
				Task::CreateMint(d) => T::Mint(self.want_of(&of_deposit(&d))?),
				Task::CreateBurn(w) => T::Burn(self.want_of(&of_withdrawal(&w))?),
				Task::CreateFulfillment(w) => {
					let i = self.want_of(&of_withdrawal(&w))?;
					if n.g.ops[i].0.told != Some(true) {
						found("C02", format!("pays out withdrawal {i} whose burn was never reported confirmed"))?;
					}
					T::Pay(i)
				}
				Task::CheckStacksTransactionStatus(id) => T::Stx(id),
				Task::CheckBitcoinTransactionStatus(id) => T::Btc(id),
				Task::FetchStacksBlock(h) => {
					if n.flight.keys().any(|f| matches!(f.0, T::FetchStx(_))) {
						found("C04", format!("fetches Stacks block {h} while another fetch is running"))?;
					}
					T::FetchStx(h)
				}
				Task::FetchBitcoinBlock(h) => {
					if n.flight.keys().any(|f| matches!(f.0, T::FetchBtc(_))) {
						found("C04", format!("fetches Bitcoin block {h} while another fetch is running"))?;
					}
					T::FetchBtc(h)
				}
			};
			let c = n.flight.entry((t.clone(), 0)).or_insert(0);
			*c += 1;
			if *c > 1 && matches!(t, T::Mint(_) | T::Burn(_) | T::Pay(_)) {
				found("C01", format!("{t:?} started twice"))?;
			}
		}
		Ok(())
	}

	fn leg<'a>(&self, g: &'a mut Ghost, t: &T) -> Option<&'a mut Leg> {
		match t {
			T::PubKey => Some(&mut g.key),
			T::Mint(i) | T::Burn(i) => Some(&mut g.ops[*i].0),
			T::Pay(i) => Some(&mut g.ops[*i].1),
			_ => None,
		}
	}
	fn leg_of_id<'a>(&self, g: &'a mut Ghost, kind: u8, op: u8) -> &'a mut Leg {
		match kind {
			0 => &mut g.key,
			1 => &mut g.ops[op as usize].0,
			_ => &mut g.ops[op as usize].1,
		}
	}

	fn moves(&self, n: &Node) -> Vec<(String, (Flight, Answer))> {
		let mut v = vec![];
		for f in n.flight.keys() {
			let mut add = |a: Answer| v.push((format!("{:?}.{} {a:?}", f.0, f.1), (f.clone(), a)));
			match (&f.0, f.1) {
				(T::FetchStx(h), _) => {
					if *h <= self.sc.max_stx {
						add(Answer::Done)
					}
				}
				(T::FetchBtc(h), _) => {
					if *h <= self.sc.max_btc {
						add(Answer::Done)
					}
				}
				(T::Stx(id), _) => {
					if id.0 == [0; 32] {
						add(Answer::Status(St::Broadcasted));
						continue;
					}
					let mut g = n.g.clone();
					match self.leg_of_id(&mut g, id.0[0], id.0[2] - 0xa0).truth {
						Some(true) => add(Answer::Status(St::Confirmed)),
						Some(false) => add(Answer::Status(St::Rejected)),
						None => {
							add(Answer::Status(St::Confirmed));
							add(Answer::Status(St::Broadcasted));
							if self.sc.rejections && id.0[0] != 0 {
								add(Answer::Status(St::Rejected));
							}
						}
					}
				}
				(T::Btc(id), _) => {
					let b = id.into_inner();
					let mut g = n.g.clone();
					match self.leg_of_id(&mut g, b[0], b[2] - 0xa0).truth {
						Some(_) => add(Answer::Status(St::Confirmed)),
						None => {
							add(Answer::Status(St::Confirmed));
							add(Answer::Status(St::Broadcasted));
							// in strict mode the operator stops at a vanished payout, by design
							if self.sc.rejections && !self.sc.strict {
								add(Answer::Status(St::Rejected));
							}
						}
					}
				}
				(T::Mint(_) | T::Burn(_), 0) => {
					add(Answer::Done);
					if !self.sc.strict && self.sc.broadcast_failures {
						add(Answer::Refused)
					}
				}
				_ => add(Answer::Done),
			}
		}
		if n.g.crashes < self.sc.crashes {
			v.push(("crash".into(), ((T::Contract, 9), Answer::Crash)));
		}
		v
	}

	fn infos(&self, i: usize) -> (Option<DepositInfo>, Option<WithdrawalInfo>) {
		match &self.wants[i] {
			Want::Mint { txid, amount, recipient, height } => (
				Some(DepositInfo {
					txid: *txid,
					amount: *amount,
					recipient: recipient.clone(),
					block_height: *height,
				}),
				None,
			),
			Want::Burn { txid, amount, source, payee, height } => (
				None,
				Some(WithdrawalInfo {
					txid: *txid,
					amount: *amount,
					source: source.clone(),
					recipient: bdk::bitcoin::Address::from_script(payee, self.sc.net).unwrap(),
					block_height: *height,
				}),
			),
		}
	}

	/// One move. An error is a violation.
	fn step(&self, n: &Node, mv: &(Flight, Answer)) -> Result<Node, Found> {
		let mut m = n.clone();
		if mv.1 == Answer::Crash {
			m.g.crashes += 1;
			let flight = std::mem::take(&mut m.flight);
			for (f, _) in flight {
				if let Some(l) = self.leg(&mut m.g, &f.0) {
					l.lost = true;
				}
			}
			let mut s = match mc::no_panic(|| load(&m.log)) {
				Ok(s) => s,
				Err(p) => return found("C05", format!("the state to restart from cannot be read back: {p}")),
			};
			let tasks = match mc::no_panic(|| s.bootstrap()) {
				Ok(t) => t,
				Err(p) => return found("C06", format!("restart panics: {p}")),
			};
			m.live = save(&s);
			self.take(&mut m, tasks)?;
			return Ok(m);
		}
		let (mut live, mut log) = (load(&m.live), load(&m.log));
		if !self.advance(&mut m, mv, &mut live, Some(&mut log))? {
			return Ok(m);
		}
		m.live = save(&live);
		m.log = save(&log);
		if self.props.contains("C05") {
			let (a, b) = (live.bootstrap(), log.bootstrap());
			let (a, b) = (format!("{} then {a:?}", save(&live)), format!("{} then {b:?}", save(&log)));
			if a != b {
				return found("C05", format!("after {:?} {:?}, a restart gives\n    {b}\n  but the operator was at\n    {a}", mv.0 .0, mv.1));
			}
		}
		Ok(m)
	}

	/// A task gets its answer: updates what the world knows and the live state,
	/// and the replayed one if there is one. False if nothing reached the state.
	fn advance(&self, m: &mut Node, mv: &(Flight, Answer), live: &mut State, log: Option<&mut State>) -> Result<bool, Found> {
		let (f, a) = mv;
		let c = m.flight.get_mut(f).unwrap();
		*c -= 1;
		if *c == 0 {
			m.flight.remove(f);
		}
		let sid = |op: usize, kind: u8, k: u8| StxId(txid_of(op, kind, k));
		let event = match (&f.0, f.1, a) {
			(T::PubKey | T::Mint(_) | T::Burn(_) | T::Pay(_), 0, a) => {
				let refused = *a == Answer::Refused;
				let l = self.leg(&mut m.g, &f.0).unwrap();
				if refused {
					l.refused = true;
				} else {
					l.sent += 1;
					if l.sent > 1 && f.0 != T::PubKey {
						found("C01", format!("{:?} broadcast {} times", f.0, l.sent))?;
					}
					// a later set-up transaction starts undecided
					l.truth = None;
				}
				*m.flight.entry((f.0.clone(), if refused { 2 } else { 1 })).or_insert(0) += 1;
				return Ok(false);
			}
			(T::Contract, ..) => Event::ContractBlockHeight(self.sc.stx0, self.sc.btc0),
			(T::PubKey, ..) => Event::ContractPublicKeySetBroadcasted(sid(9, 0, 0)),
			(T::Mint(i), s, _) => Event::MintBroadcasted(self.infos(*i).0.unwrap(), if s == 2 { StxId([0; 32]) } else { sid(*i, 1, 0) }),
			(T::Burn(i), s, _) => Event::BurnBroadcasted(self.infos(*i).1.unwrap(), if s == 2 { StxId([0; 32]) } else { sid(*i, 1, 0) }),
			(T::Pay(i), ..) => Event::FulfillBroadcasted(self.infos(*i).1.unwrap(), Txid::from_inner(txid_of(*i, 2, 0))),
			(T::Stx(id), _, Answer::Status(s)) => {
				if id.0 != [0; 32] {
					let l = self.leg_of_id(&mut m.g, id.0[0], id.0[2] - 0xa0);
					match s {
						St::Confirmed => (l.truth, l.told) = (Some(true), Some(true)),
						St::Rejected => (l.truth, l.told) = (Some(false), Some(false)),
						St::Broadcasted => {}
					}
				}
				Event::StacksTransactionUpdate(*id, s.clone())
			}
			(T::Btc(id), _, Answer::Status(s)) => {
				let b = id.into_inner();
				let l = self.leg_of_id(&mut m.g, b[0], b[2] - 0xa0);
				match s {
					St::Confirmed => (l.truth, l.told) = (Some(true), Some(true)),
					St::Rejected => l.gone = true,
					St::Broadcasted => {}
				}
				Event::BitcoinTransactionUpdate(*id, s.clone())
			}
			(T::FetchStx(h), ..) => {
				let next = m.g.stx.unwrap_or(self.sc.stx0) + 1;
				if *h != next {
					found("C04", format!("takes Stacks block {h} where {next} is next"))?;
				}
				m.g.stx = Some(next);
				Event::StacksBlock(*h, vec![])
			}
			(T::FetchBtc(h), ..) => {
				let next = m.g.btc.unwrap_or(self.sc.btc0) + 1;
				if *h != next {
					found("C04", format!("takes Bitcoin block {h} where {next} is next"))?;
				}
				m.g.btc = Some(next);
				Event::BitcoinBlock(*h, self.blocks[h].clone())
			}
			x => unreachable!("{x:?}"),
		};
		let what = format!("{:?} {:?}", f.0, a);
		// the log holds the event as text
		let again = match log {
			None => None,
			Some(log) => {
				let text = serde_json::to_string(&event).expect("event cannot be serialized");
				match serde_json::from_str::<Event>(&text) {
					Ok(e) => Some((log, e)),
					Err(e) => return found("C05", format!("a logged event cannot be read back: {e}: {text}")),
				}
			}
		};
		let tasks = match mc::no_panic(|| live.update(event, &self.cfg)) {
			Ok(t) => t,
			Err(p) => return found("C06", format!("{what} makes the operator panic: {p}")),
		};
		if let Some((log, again)) = again {
			if let Err(p) = mc::no_panic(|| log.update(again, &self.cfg)) {
				return found(if self.props.contains("C05") { "C05" } else { "C06" }, format!("replaying the log up to {what} panics, so the operator cannot start again: {p}"));
			}
		}
		self.take(m, tasks)?;
		Ok(true)
	}

	/// Everything from here on goes well: all operations must come to their end.
	fn finish(&self, n: &Node) -> Result<&'static str, Found> {
		let id = mc::sha::sha256(format!("{}|{:?}|{:?}", n.live, n.flight, n.g).as_bytes());
		if let Some(o) = self.ends.lock().unwrap().get(&id) {
			return Ok(o);
		}
		let o = self.finish_from(n)?;
		self.ends.lock().unwrap().insert(id, o);
		Ok(o)
	}
	fn finish_from(&self, n: &Node) -> Result<&'static str, Found> {
		let mut m = n.clone();
		let mut live = load(&m.live);
		let limit = |h: u32, max: u32| h <= max + 8;
		for _ in 0..2000 {
			let next = m
				.flight
				.keys()
				.find(|f| match f.0 {
					T::FetchStx(_) | T::FetchBtc(_) => false,
					_ => true,
				})
				.or_else(|| {
					// the chains advance in turn
					let pos = |f: &Flight| match f.0 {
						T::FetchStx(h) => (h - self.sc.stx0) * 2,
						T::FetchBtc(h) => (h - self.sc.btc0) * 2 + 1,
						_ => 0,
					};
					m.flight
						.keys()
						.filter(|f| match f.0 {
							T::FetchStx(h) => limit(h, self.sc.max_stx),
							T::FetchBtc(h) => limit(h, self.sc.max_btc),
							_ => true,
						})
						.min_by_key(|f| pos(f))
				})
				.cloned();
			let Some(f) = next else { break };
			let a = match &f.0 {
				T::Stx(id) if id.0 == [0; 32] => Answer::Status(St::Broadcasted),
				T::Stx(id) => {
					let mut g = m.g.clone();
					Answer::Status(if self.leg_of_id(&mut g, id.0[0], id.0[2] - 0xa0).truth == Some(false) { St::Rejected } else { St::Confirmed })
				}
				T::Btc(_) => Answer::Status(St::Confirmed),
				_ => Answer::Done,
			};
			self.advance(&mut m, &(f, a), &mut live, None)?;
		}
		if m.g.key.told != Some(true) {
			return if m.g.key.truth == Some(false) { Ok("set-up rejected") } else { found("C07", "set-up never completes") };
		}
		let mut end = "completed";
		for (i, (w, (a, b))) in self.wants.iter().zip(&m.g.ops).enumerate() {
			let name = if matches!(w, Want::Mint { .. }) { "deposit" } else { "withdrawal" };
			if a.refused || a.truth == Some(false) || b.gone {
				end = "ended by a refusal";
				continue;
			}
			let done = a.told == Some(true) && (name == "deposit" || b.told == Some(true));
			if done {
				continue;
			}
			if a.lost || b.lost {
				return found_sig("C07", "crash-while-created", format!("{name} {i} is never completed: a crash came while its transaction was being created"));
			}
			return found("C07", format!("{name} {i} is never completed ({a:?}, {b:?}) although both chains cooperate"));
		}
		Ok(end)
	}

	fn apply(&self, n: &Node, mv: &(Flight, Answer)) -> Result<(Node, &'static str), Found> {
		let m = self.step(n, mv)?;
		let o = if self.props.contains("C07") {
			self.finish(&m)?
		} else if self.props.contains("C05") && mv.1 == Answer::Crash {
			// what was in flight must come to its end after the restart too
			match self.finish(&m) {
				Err(("C07", f)) if f.sig.is_none() => return found("C05", format!("after a restart, {}", f.msg)),
				Err((_, f)) if f.sig.is_some() => "restart while created",
				r => r?,
			}
		} else {
			"ok"
		};
		Ok((
			m,
			match &mv.1 {
				Answer::Crash => "crash",
				Answer::Status(St::Rejected) => "rejected",
				Answer::Refused => "broadcast refused",
				_ if o != "ok" && o != "completed" => o,
				_ if mv.0 .1 == 1 => "broadcast reported",
				_ => match mv.0 .0 {
					T::Mint(_) | T::Burn(_) => "mint or burn broadcast",
					T::Pay(_) => "payout broadcast",
					T::Stx(_) | T::Btc(_) => "status reported",
					T::FetchBtc(_) => "Bitcoin block",
					T::FetchStx(_) => "Stacks block",
					_ => "set-up",
				},
			},
		))
	}

	/// The whole space, breadth first; violations of the properties asked for.
	pub fn search(&self, ctx: &Ctx, cap: u64) {
		let name = format!("events {}", self.sc.name);
		ctx.level("model_checking");
		if let Some(r) = &ctx.replay {
			if let Some(list) = r.strip_prefix(&format!("{name}:")) {
				ctx.case(r.clone(), || {
					let mut n = self.start();
					for l in list.split(';') {
						let Some((_, mv)) = self.moves(&n).into_iter().find(|(x, _)| x == l) else { mc::fail!("the recorded move {l} is not possible here any more") };
						match self.apply(&n, &mv) {
							Ok((m, _)) => n = m,
							Err((p, f)) if self.props.contains(p) => return Err(f),
							Err(_) => return Ok("~another property"),
						}
					}
					Ok("ok")
				});
			}
			return;
		}
		let init = match mc::no_panic(|| self.start()) {
			Ok(n) => n,
			Err(p) => {
				if self.props.contains("C06") || self.props.contains("C07") {
					ctx.violation(&format!("{name}:"), None, &format!("the operator does not get through set-up: {p}"));
				}
				return;
			}
		};
		let st = explore::bfs_par(
			vec![init],
			|n| mc::sha::sha256(format!("{}|{}|{:?}|{:?}", n.live, n.log, n.flight, n.g).as_bytes()),
			|n, path| {
				if ctx.enough() {
					return None;
				}
				let mut v = vec![];
				for (label, mv) in self.moves(n) {
					let key = || {
						let mut p = path();
						p.push(label.clone());
						format!("{name}:{}", p.join(";"))
					};
					ctx.busy(&name);
					let r = mc::no_panic(|| self.apply(n, &mv)).unwrap_or_else(|p| found("C06", format!("panic: {p}")));
					ctx.idle();
					match r {
						Ok((m, o)) => {
							ctx.tally(o, &key);
							v.push((label, m));
						}
						Err((p, f)) => {
							if self.props.contains(p) {
								ctx.violation(&key(), f.sig.as_deref(), &f.msg);
								// a listed finding does not hide what lies behind it
								if f.sig.is_some() && !ctx.violated() {
									if let Ok(m) = self.step(n, &mv) {
										v.push((label, m));
									}
								}
							} else if let ("C07", Ok(m)) = (p, self.step(n, &mv)) {
								v.push((label, m));
							}
						}
					}
				}
				Some(v)
			},
			cap,
		);
		ctx.add("states", st.states);
		ctx.add("transitions", st.transitions);
		ctx.add("traces_validated_against_impl", st.transitions);
		ctx.put(&format!("{name} space"), format!("{} states, {} transitions, depth {}{}", st.states, st.transitions, st.max_depth, if st.capped { ", state cap reached" } else { ", complete" }));
	}
}

#[derive(Clone, PartialEq, Eq, Debug)]
enum Answer {
	Done,
	Refused,
	Status(St),
	Crash,
}

pub fn dep(amount: u64, seed: u8) -> Op {
	Op::Deposit {
		amount,
		version: 26,
		hash: [seed; 20],
		name: None,
	}
}
pub fn wd(amount: u64, key: u8, payee: u8) -> Op {
	Op::Withdraw {
		amount,
		key,
		payee: scripts(payee)[2].clone(),
		fee: 2000,
	}
}

pub fn scenarios(level: u32) -> Vec<Scenario> {
	let mut v: Vec<Scenario> = vec![];
	for strict in [false, true] {
		let mut add = |name: &str, blocks: Vec<Vec<Op>>, dbtc: u32, dstx: u32, crashes: u32, setup: bool, rejections: bool, fails: bool| {
			// the chains are as long as one would have it, or about to need another byte
			let (btc0, stx0) = [(100, 10), (65_534, 254), (830_000, 150_000), (16_777_214, 65_534), (254, 32_767), (2_500_000, 16_777_213)][v.len() % 6];
			v.push(Scenario {
				btc0,
				stx0,
				name: format!("{name}{}", if strict { " strict" } else { "" }),
				net: Network::Testnet,
				strict,
				blocks,
				max_btc: btc0 + dbtc,
				max_stx: stx0 + dstx,
				crashes: crashes as u8,
				setup,
				rejections,
				broadcast_failures: fails,
			})
		};
		let x = level;
		let y = (level > 0) as u32;
		add("set-up", vec![], 2, 4 + x, 2 + y, true, true, true);
		add("one deposit", vec![vec![dep(1000, 1)]], 4 + x, 4 + x, 1 + y, false, true, true);
		add("one withdrawal", vec![vec![wd(1000, 1, 1)]], 5 + x, 5 + x, 1 + y, false, true, true);
		add("deposit and withdrawal", vec![vec![dep(1000, 1), wd(700, 1, 1)]], 4 + x, 3 + x, 1 + y, false, level > 0, level > 0);
		add("two deposits in one block", vec![vec![dep(1000, 1), dep(2000, 2)]], 4, 3 + x, 1 + y, false, true, true);
		add("two equal deposits", vec![vec![dep(1000, 1), dep(1000, 1)]], 4, 3 + x, 1, false, level > 0, true);
		add("two withdrawals alike", vec![vec![wd(1000, 1, 1), wd(1000, 1, 1)]], 4 + x, 3 + x, 1, false, level > 1, true);
		add("deposits in successive blocks", vec![vec![dep(1000, 1)], vec![dep(2000, 2)]], 4 + y, 4, 1 + y, false, true, true);
		add("withdrawals in successive blocks", vec![vec![wd(1000, 1, 1)], vec![wd(500, 2, 2)]], 4 + x, 3 + x, 1, false, level > 0, level > 0);
		if level > 0 {
			add("three deposits", vec![vec![dep(1000, 1), dep(2000, 2)], vec![dep(3000, 3)]], 4, 3 + x / 2, 1, false, true, true);
			add("two withdrawals and a deposit", vec![vec![wd(1000, 1, 1), dep(5, 1)], vec![wd(500, 2, 2)]], 4, 3 + x / 2, 1, false, false, level > 1);
		}
		if level > 1 {
			add("a withdrawal paid late", vec![vec![], vec![wd(1000, 1, 1)], vec![], vec![dep(9, 3)]], 7, 7, 2, false, true, true);
			add("two of each", vec![vec![wd(1000, 1, 1), dep(5, 1)], vec![dep(6, 2), wd(500, 2, 2)]], 4, 4, 1, false, false, false);
		}
	}
	v
}

pub fn run(ctx: &Ctx, props: &[&'static str], level: u32) {
	ctx.rule("Events: a case is a move from a reachable node (live state, replayed state, tasks in flight, chain truth); moves are every task in flight finishing with every answer the nodes could give, and crashes. Distinct by breadth-first deduplication of nodes.");
	for sc in scenarios(if ctx.thorough() { 2 } else { level }) {
		Space::new(sc, props).search(ctx, if ctx.thorough() { 6_000_000 } else { 600_000 });
	}
}
