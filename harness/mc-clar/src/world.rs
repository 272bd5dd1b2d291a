//! Deployment of the repository's contracts, Bitcoin blocks to prove against,
//! and the reference model of the asset contract.
use std::collections::BTreeMap;

use clarity::{buff, list, some, uint, Chain, Outcome, Principal, Value};
use mc::{sha::sha256d, Ctx};

pub const DIR: &str = "/repo/romeo/asset-contract";
pub const CAP: u128 = 2_100_000_000_000_000;

/// Calls the asset contract on someone's behalf: `contract-caller` becomes the
/// proxy; the `as-*` forms also make it `tx-sender`.
const PROXY: &str = r#"
(define-public (do-mint (a uint) (d principal) (t (buff 32)) (h uint) (p (list 14 (buff 32))) (i uint) (b (buff 80)))
  (contract-call? .asset mint a d t h p i b))
(define-public (do-burn (a uint) (d principal) (t (buff 32)) (h uint) (p (list 14 (buff 32))) (i uint) (b (buff 80)))
  (contract-call? .asset burn a d t h p i b))
(define-public (do-set-contract-owner (o principal)) (contract-call? .asset set-contract-owner o))
(define-public (do-set-bitcoin-wallet-public-key (k (buff 33))) (contract-call? .asset set-bitcoin-wallet-public-key k))
(define-public (do-transfer (a uint) (s principal) (r principal) (m (optional (buff 34)))) (contract-call? .asset transfer a s r m))
(define-public (as-mint (a uint) (d principal) (t (buff 32)) (h uint) (p (list 14 (buff 32))) (i uint) (b (buff 80)))
  (as-contract (contract-call? .asset mint a d t h p i b)))
(define-public (as-burn (a uint) (d principal) (t (buff 32)) (h uint) (p (list 14 (buff 32))) (i uint) (b (buff 80)))
  (as-contract (contract-call? .asset burn a d t h p i b)))
(define-public (as-set-contract-owner (o principal)) (as-contract (contract-call? .asset set-contract-owner o)))
(define-public (as-set-bitcoin-wallet-public-key (k (buff 33))) (as-contract (contract-call? .asset set-bitcoin-wallet-public-key k)))
(define-public (as-transfer (a uint) (s principal) (r principal) (m (optional (buff 34)))) (as-contract (contract-call? .asset transfer a s r m)))
"#;

/// How a call reaches the asset contract.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
	Direct,
	Proxy,
	AsProxy,
}
pub const VIAS: [Via; 3] = [Via::Direct, Via::Proxy, Via::AsProxy];

#[derive(Clone)]
pub struct Block {
	pub height: u128,
	pub header: Vec<u8>,
	pub hash: [u8; 32], // as displayed
	pub txids: Vec<[u8; 32]>, // as displayed
}

fn rev(x: [u8; 32]) -> [u8; 32] {
	let mut x = x;
	x.reverse();
	x
}

/// Independent Merkle tree: levels of nodes in internal byte order.
pub fn levels(txids: &[[u8; 32]]) -> Vec<Vec<[u8; 32]>> {
	let mut l = vec![txids.iter().map(|t| rev(*t)).collect::<Vec<_>>()];
	while l.last().unwrap().len() > 1 {
		let c = l.last().unwrap();
		l.push(
			c.chunks(2)
				.map(|p| sha256d(&[p[0], *p.last().unwrap()].concat()))
				.collect(),
		);
	}
	l
}

impl Block {
	pub fn new(height: u128, txids: Vec<[u8; 32]>, salt: u8) -> Self {
		let root = levels(&txids).last().unwrap()[0];
		let mut header = vec![2, 0, 0, 0];
		header.extend((0..32).map(|i| i ^ salt ^ height as u8));
		header.extend_from_slice(&root);
		header.extend((0..12).map(|i| i ^ salt));
		Block {
			height,
			hash: rev(sha256d(&header)),
			header,
			txids,
		}
	}
	pub fn path(&self, index: usize) -> Vec<Vec<u8>> {
		let l = levels(&self.txids);
		let mut i = index;
		let mut out = vec![];
		for level in &l[..l.len() - 1] {
			out.push(level.get(i ^ 1).unwrap_or(&level[i]).to_vec());
			i /= 2;
		}
		out
	}
	pub fn proof(&self, index: usize) -> Proof {
		Proof {
			txid: self.txids[index].to_vec(),
			height: self.height,
			path: self.path(index),
			index: index as u128,
			header: self.header.clone(),
		}
	}
}

/// The arguments of a mint, burn or was-txid-mined that prove something.
#[derive(Clone, Debug, PartialEq)]
pub struct Proof {
	pub txid: Vec<u8>,
	pub height: u128,
	pub path: Vec<Vec<u8>>,
	pub index: u128,
	pub header: Vec<u8>,
}

impl Proof {
	pub fn args(&self) -> Vec<Value> {
		vec![buff(&self.txid), uint(self.height), list(self.path.iter().map(buff).collect()), uint(self.index), buff(&self.header)]
	}
	/// What the contract is specified to accept.
	pub fn holds(&self, headers: &BTreeMap<u128, [u8; 32]>) -> bool {
		if self.header.len() < 68 || self.txid.len() != 32 || self.path.is_empty() {
			return false;
		}
		if headers.get(&self.height) != Some(&rev(sha256d(&self.header))) {
			return false;
		}
		let mut cur: Vec<u8> = self.txid.iter().rev().copied().collect();
		for (i, h) in self.path.iter().enumerate() {
			let pair = if self.index >> i & 1 == 1 { [&h[..], &cur[..]].concat() } else { [&cur[..], &h[..]].concat() };
			cur = sha256d(&pair).to_vec();
		}
		cur == self.header[36..68]
	}
}

pub fn txid(n: u32) -> [u8; 32] {
	sha256d(&n.to_le_bytes())
}

#[derive(Clone)]
pub struct World {
	pub chain: Chain,
	pub asset: Principal,
	pub mini: Principal,
	pub proxy: Principal,
	pub who: Vec<Principal>, // 0 deployer, 1 alice, 2 bob
}

pub fn source(ctx: &Ctx, rel: &str) -> String {
	std::fs::read_to_string(format!("{DIR}/{rel}")).unwrap_or_else(|e| {
		eprintln!("{}: cannot read {rel}: {e}", ctx.id);
		std::process::exit(3)
	})
}

/// Contracts the variant deploys as `clarity-bitcoin-mini`.
pub const PROD: &str = "contracts/clarity-bitcoin-mini-deploy.clar";
pub const DEBUG: &str = "contracts/clarity-bitcoin-mini.clar";

pub fn deploy(ctx: &Ctx, mini: &str, blocks: &[Block]) -> World {
	let who: Vec<Principal> = (0..3).map(|i| Principal::standard(26, [i + 1; 20])).collect();
	let mut chain = Chain::new();
	for b in blocks {
		chain.burn_headers.insert(b.height, b.hash);
	}
	let mut dep = |name: &str, src: &str| -> Principal {
		chain.deploy(&who[0], name, src).unwrap_or_else(|e| {
			eprintln!("{}: contract {name} does not deploy: {e}", ctx.id);
			std::process::exit(3)
		})
	};
	let mini = dep("clarity-bitcoin-mini", &source(ctx, mini));
	let asset = dep("asset", &source(ctx, "contracts/asset.clar"));
	let proxy = dep("proxy", PROXY);
	World {
		chain,
		asset,
		mini,
		proxy,
		who,
	}
}

impl World {
	pub fn call(&mut self, sender: &Principal, via: Via, f: &str, args: &[Value]) -> Outcome {
		let (c, f) = match via {
			Via::Direct => (self.asset.clone(), f.to_string()),
			Via::Proxy => (self.proxy.clone(), format!("do-{f}")),
			Via::AsProxy => (self.proxy.clone(), format!("as-{f}")),
		};
		let r = self.chain.call(sender, &c, &f, args);
		if let Some(u) = &self.chain.unsupported {
			eprintln!("the contract interpreter lacks: {u}");
			std::process::exit(3);
		}
		r
	}
	/// (tx-sender, contract-caller) the asset contract sees.
	pub fn seen(&self, sender: &Principal, via: Via) -> (Principal, Principal) {
		match via {
			Via::Direct => (sender.clone(), sender.clone()),
			Via::Proxy => (sender.clone(), self.proxy.clone()),
			Via::AsProxy => (self.proxy.clone(), self.proxy.clone()),
		}
	}
	pub fn read(&mut self, f: &str, args: &[Value]) -> Result<Value, mc::Fail> {
		match self.chain.read(&self.asset.clone(), f, args) {
			Outcome::Done(v) => Ok(v),
			Outcome::Aborted(e) => Err(mc::Fail::from(format!("{f} aborts: {e}"))),
		}
	}
	pub fn all(&self) -> Vec<Principal> {
		let mut v = self.who.clone();
		v.push(self.proxy.clone());
		v
	}
	/// Everything a user can see, from the contract's read-only functions.
	pub fn observe(&mut self, txids: &[[u8; 32]]) -> Result<Model, mc::Fail> {
		let un = |v: Value| match v {
			Value::Ok(v) => (*v).clone(),
			v => v,
		};
		let num = |v: Value| match v {
			Value::UInt(n) => Ok(n),
			v => Err(mc::Fail::from(format!("expected a number, got {v:?}"))),
		};
		let mut m = Model {
			owner: match self.read("get-contract-owner", &[])? {
				Value::Principal(p) => p,
				v => return Err(mc::Fail::from(format!("owner is {v:?}"))),
			},
			key: match self.read("get-bitcoin-wallet-public-key", &[])? {
				Value::None => None,
				Value::Some(v) => match &*v {
					Value::Buff(b) => Some(b.to_vec()),
					v => return Err(mc::Fail::from(format!("key is {v:?}"))),
				},
				v => return Err(mc::Fail::from(format!("key is {v:?}"))),
			},
			supply: num(un(self.read("get-total-supply", &[])?))?,
			balances: BTreeMap::new(),
			used: BTreeMap::new(),
		};
		for p in self.all() {
			let b = num(un(self.read("get-balance", &[Value::Principal(p.clone())])?))?;
			if b > 0 {
				m.balances.insert(p, b);
			}
		}
		for t in txids {
			match self.read("get-amount-by-btc-txid", &[buff(t)])? {
				Value::None => {}
				Value::Some(v) => match &*v {
					Value::Int(n) => {
						m.used.insert(t.to_vec(), *n);
					}
					v => return Err(mc::Fail::from(format!("amount is {v:?}"))),
				},
				v => return Err(mc::Fail::from(format!("amount is {v:?}"))),
			}
		}
		Ok(m)
	}
}

/// The reference model of the asset contract.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Model {
	pub owner: Principal,
	pub key: Option<Vec<u8>>,
	pub supply: u128,
	pub balances: BTreeMap<Principal, u128>,
	pub used: BTreeMap<Vec<u8>, i128>,
}

#[derive(Clone, Debug)]
pub enum Op {
	SetOwner(Principal),
	SetKey(Vec<u8>),
	Mint(u128, Principal, Proof),
	Burn(u128, Principal, Proof),
	Transfer(u128, Principal, Principal, Option<Vec<u8>>),
}

impl Op {
	pub fn call(&self) -> (&'static str, Vec<Value>) {
		let pr = |p: &Principal| Value::Principal(p.clone());
		match self {
			Op::SetOwner(p) => ("set-contract-owner", vec![pr(p)]),
			Op::SetKey(k) => ("set-bitcoin-wallet-public-key", vec![buff(k)]),
			Op::Mint(a, d, p) | Op::Burn(a, d, p) => {
				let mut v = vec![uint(*a), pr(d)];
				v.extend(p.args());
				(if matches!(self, Op::Mint(..)) { "mint" } else { "burn" }, v)
			}
			Op::Transfer(a, s, r, m) => ("transfer", vec![uint(*a), pr(s), pr(r), m.as_ref().map(|m| some(buff(m))).unwrap_or(Value::None)]),
		}
	}
	pub fn label(&self, w: &World) -> String {
		let p = |p: &Principal| match w.who.iter().position(|x| x == p) {
			Some(0) => "deployer".to_string(),
			Some(1) => "alice".into(),
			Some(2) => "bob".into(),
			_ if *p == w.proxy => "proxy".into(),
			_ => format!("{p:?}"),
		};
		match self {
			Op::SetOwner(x) => format!("set-contract-owner({})", p(x)),
			Op::SetKey(k) => format!("set-key({})", mc::hex(k)),
			Op::Mint(a, d, pr) | Op::Burn(a, d, pr) => format!(
				"{}({a},{},tx {} at {} idx {} path {})",
				if matches!(self, Op::Mint(..)) { "mint" } else { "burn" },
				p(d),
				mc::hex(&pr.txid[..pr.txid.len().min(3)]),
				pr.height,
				pr.index,
				pr.path.len()
			),
			Op::Transfer(a, s, r, m) => format!("transfer({a},{}->{}{})", p(s), p(r), if m.is_some() { ",memo" } else { "" }),
		}
	}
	pub fn admin(&self) -> bool {
		!matches!(self, Op::Transfer(..))
	}
}

impl Model {
	pub fn init(w: &World) -> Self {
		Model {
			owner: w.who[0].clone(),
			key: None,
			supply: 0,
			balances: BTreeMap::new(),
			used: BTreeMap::new(),
		}
	}
	/// Applies the operation if it is allowed; says whether it was.
	pub fn apply(&mut self, op: &Op, sender: &Principal, caller: &Principal, headers: &BTreeMap<u128, [u8; 32]>) -> bool {
		if op.admin() && *caller != self.owner {
			return false;
		}
		match op {
			Op::SetOwner(p) => self.owner = p.clone(),
			Op::SetKey(k) => {
				if k.len() > 33 {
					return false;
				}
				self.key = Some(k.clone())
			}
			Op::Mint(a, d, p) => {
				if *a == 0 || *a > CAP || self.supply + a > CAP || !p.holds(headers) || p.path.len() > 14 || p.header.len() > 80 || self.used.contains_key(&p.txid) {
					return false;
				}
				self.used.insert(p.txid.clone(), *a as i128);
				self.supply += a;
				*self.balances.entry(d.clone()).or_insert(0) += a;
			}
			Op::Burn(a, d, p) => {
				let b = self.balances.get(d).copied().unwrap_or(0);
				if *a == 0 || *a > b || !p.holds(headers) || p.path.len() > 14 || p.header.len() > 80 || self.used.contains_key(&p.txid) {
					return false;
				}
				self.used.insert(p.txid.clone(), -(*a as i128));
				self.supply -= a;
				if b == *a {
					self.balances.remove(d);
				} else {
					self.balances.insert(d.clone(), b - a);
				}
			}
			Op::Transfer(a, s, r, m) => {
				let b = self.balances.get(s).copied().unwrap_or(0);
				if *a == 0 || *a > b || s == r || (s != sender && s != caller) || m.as_ref().is_some_and(|m| m.len() > 34) {
					return false;
				}
				if b == *a {
					self.balances.remove(s);
				} else {
					self.balances.insert(s.clone(), b - a);
				}
				*self.balances.entry(r.clone()).or_insert(0) += a;
			}
		}
		true
	}
}

/// Run the repository's own Clarity tests through the interpreter: the
/// conformance evidence that it agrees with the real virtual machine.
pub fn conformance(ctx: &Ctx) {
	let mut total = 0;
	let mut passed = vec![];
	let mut failed = vec![];
	for file in ["asset_test", "clarity-bitcoin-mini_test"] {
		let Ok(src) = std::fs::read_to_string(format!("{DIR}/tests/{file}.clar")) else { continue };
		let (mut prep, mut caller) = ("prepare".to_string(), "deployer".to_string());
		for line in src.lines() {
			let l = line.trim();
			if let Some(x) = l.strip_prefix(";; @prepare ") {
				prep = x.trim().into();
			} else if l == ";; @no-prepare" {
				prep = String::new();
			} else if let Some(x) = l.strip_prefix(";; @caller ") {
				caller = x.trim().into();
			} else if let Some(x) = l.strip_prefix("(define-public (test-") {
				let name = format!("test-{}", x.split([')', ' ']).next().unwrap());
				let mut w = deploy(ctx, DEBUG, &[]);
				let wallet = |s: &str| clarity::c32_principal(s).unwrap();
				let actor = match caller.as_str() {
					"wallet_1" => wallet("ST1SJ3DTE5DN7X54YDH5D64R3BCB6A2AG2ZQ8YPD5"),
					"wallet_2" => wallet("ST2CY5V39NHDPWSXMW9QDT3HC3GD6Q6XX4CFRK9AG"),
					_ => w.who[0].clone(),
				};
				let deployer = w.who[0].clone();
				let t = w.chain.deploy(&deployer, file, &src).expect("test contract");
				w.chain.call(&deployer, &w.asset.clone(), "set-contract-owner", &[Value::Principal(t.clone())]);
				if !prep.is_empty() {
					w.chain.call(&deployer, &t, &prep, &[]);
				}
				let r = w.chain.call(&actor, &t, &name, &[]);
				total += 1;
				if r.success() {
					passed.push(name);
				} else {
					failed.push(format!("{name}: {r:?}"));
				}
				prep = "prepare".into();
				caller = "deployer".into();
			}
		}
	}
	ctx.put("interpreter_conformance", format!("{} of {total} of the repository's Clarity tests pass in the interpreter", passed.len()));
	ctx.put("traces_validated_against_impl", passed.len() as u64);
	if !failed.is_empty() {
		eprintln!("note: Clarity tests that fail in the interpreter: {failed:?}");
		ctx.put("interpreter_conformance_failures", failed);
	}
}

/// Breadth-first search of the contract against the model. `ops` are tried in
/// every reachable state; `judge` compares one step.
pub fn search(ctx: &Ctx, name: &str, w: &World, txids: &[[u8; 32]], ops: &[(Principal, Via, Op)], depth: u32, cap: u64) {
	#[derive(Clone)]
	struct S {
		w: World,
		m: Model,
		depth: u32,
	}
	ctx.level("model_checking");
	// a replay key is "name:i,j,k": the operation indices from the start
	if let Some(r) = &ctx.replay {
		if let Some(list) = r.strip_prefix(&format!("{name}:")) {
			ctx.case(r.clone(), || {
				let mut w = w.clone();
				let mut m = Model::init(&w);
				for i in list.split(',').filter(|s| !s.is_empty()) {
					step(&mut w, &mut m, txids, &ops[i.parse::<usize>().unwrap()])?;
				}
				Ok("replayed")
			});
		}
		return;
	}
	let init = S {
		w: w.clone(),
		m: Model::init(w),
		depth: 0,
	};
	let before = ctx.evaluations();
	let st = mc::explore::bfs_par(
		vec![init],
		|s| (s.m.clone(), s.w.chain.data.clone()),
		|s, path| {
			let mut out = vec![];
			if s.depth >= depth || ctx.enough() {
				return Some(out);
			}
			for (i, op) in ops.iter().enumerate() {
				let mut n = s.clone();
				n.depth += 1;
				n.w.chain.events.clear();
				let key = || {
					let mut p = path();
					p.push(i.to_string());
					format!("{name}:{}", p.join(","))
				};
				ctx.busy(name);
				let r = mc::no_panic(|| step(&mut n.w, &mut n.m, txids, op)).unwrap_or_else(|p| Err(mc::Fail::from(p)));
				ctx.idle();
				match r {
					Ok(o) => {
						ctx.tally(o, &key);
						if n.m != s.m {
							out.push((i.to_string(), n));
						}
					}
					Err(f) => {
						let trail: Vec<String> = path().iter().map(|i| show(w, &ops[i.parse::<usize>().unwrap()])).collect();
						ctx.violation(&key(), f.sig.as_deref(), &format!("{} [after: {}]", f.msg, trail.join("; ")));
					}
				}
			}
			Some(out)
		},
		cap,
	);
	ctx.add("states", st.states);
	ctx.add("transitions", ctx.evaluations() - before);
	ctx.put(&format!("{name}_bounds"), format!("{} operations in every state reached within {depth} changes, {} states{}", ops.len(), st.states, if st.capped { " (state cap reached)" } else { "" }));
}

pub fn show(w: &World, (s, v, op): &(Principal, Via, Op)) -> String {
	format!("{} by {} {v:?}", op.label(w), w.who.iter().position(|x| x == s).unwrap_or(9))
}

/// One call on both sides: the same answer, and the same visible state.
pub fn step(w: &mut World, m: &mut Model, txids: &[[u8; 32]], op: &(Principal, Via, Op)) -> mc::CaseResult {
	let (who, via, o) = op;
	let (f, args) = o.call();
	let before = w.chain.data.clone();
	let r = w.call(who, *via, f, &args);
	let (sender, caller) = w.seen(who, *via);
	let headers = w.chain.burn_headers.clone();
	let owner = m.owner.clone();
	let expect = m.apply(o, &sender, &caller, &headers);
	if o.admin() && caller != owner && r.success() {
		mc::fail!("{} succeeded for a caller that is not the owner", show(w, op));
	}
	if r.success() != expect {
		mc::fail!("{} gave {r:?}, but it should {}", show(w, op), if expect { "succeed" } else { "fail" });
	}
	if !r.success() && w.chain.data != before {
		mc::fail!("{} failed with {r:?} but changed the contract's state", show(w, op));
	}
	let got = w.observe(txids)?;
	if got != *m {
		mc::fail!("{} gave {r:?} and left {got:?}, expected {m:?}", show(w, op));
	}
	Ok(match (o, expect) {
		(Op::SetOwner(_), true) => "owner changed",
		(Op::SetKey(_), true) => "key changed",
		(Op::Mint(..), true) => "minted",
		(Op::Burn(..), true) => "burned",
		(Op::Transfer(..), true) => "transferred",
		(Op::Transfer(..), false) => "transfer refused",
		(_, false) if caller != owner => "refused: not the owner",
		(Op::Mint(..), false) => "mint refused",
		(Op::Burn(..), false) => "burn refused",
		_ => "refused",
	})
}
