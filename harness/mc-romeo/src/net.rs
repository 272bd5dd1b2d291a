//! The world the operator runs in: a Bitcoin node with an Electrum server, and a
//! Stacks node that executes the repository's real asset contract.
use std::{
	any::Any,
	cell::RefCell,
	collections::{BTreeMap, HashMap, HashSet},
	rc::Rc,
	sync::OnceLock,
};

use bdk::bitcoin::{
	consensus::{deserialize, serialize},
	hashes::{hex::ToHex, Hash},
	psbt::Prevouts,
	schnorr::TapTweak,
	secp256k1::{schnorr::Signature, Message, Secp256k1, XOnlyPublicKey},
	util::sighash::SighashCache,
	Block, BlockHash, OutPoint, SchnorrSighashType, Script, Transaction, TxOut, Txid,
};
use blockstack_lib::{
	burnchains::Txid as StxId,
	chainstate::stacks::{StacksTransaction, TransactionAnchorMode, TransactionPayload, TransactionPostConditionMode, TransactionVersion},
	codec::StacksMessageCodec,
	core::CHAIN_ID_TESTNET,
};
use clarity::{buff, uint, Chain, Principal, Value as Cv};
use mc::{explore::Chooser, Fail};
use romeo::{config::Config, event::TransactionStatus as St};
use serde_json::{json, Value};
use sim::{HttpFault, HttpRequest, HttpResponse, Placed, RpcCall, RpcFault};

use crate::{btc::ref_magic, events::Found, fx::*, world};

/// What the operator finds when it starts.
#[derive(Clone, Copy, Debug)]
pub struct Place {
	pub btc0: u32,
	/// the height at which the contract was deployed, and the Stacks tip
	pub stx0: u32,
	/// the operator's next nonce
	pub nonce: u64,
	/// fee rate of the Stacks node, and the least it accepts per byte
	pub rate: u64,
}
pub const PLACE: Place = Place {
	btc0: 100,
	stx0: 10,
	nonce: 2,
	rate: 3,
};
/// Stacks blocks that the node has when the operator starts.
const BEFORE: u32 = 10;

/// How requests can go wrong, once in a while.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
	/// the connection breaks before the node acts
	Broken,
	/// the node acts, but its answer does not arrive
	AnswerLost,
	TooMany,
	TimedOut,
	/// no connection gets through for a while
	Outage,
	/// a Bitcoin node that has just been started
	WarmingUp,
}
pub const HTTP_FAULTS: [Fault; 5] = [Fault::Broken, Fault::AnswerLost, Fault::TooMany, Fault::TimedOut, Fault::Outage];
pub const RPC_FAULTS: [Fault; 4] = [Fault::Broken, Fault::AnswerLost, Fault::WarmingUp, Fault::Outage];
/// How the Stacks API calls transactions that will never be mined.
pub const DROPPED: [&str; 5] = ["dropped_replace_by_fee", "dropped_replace_across_fork", "dropped_too_expensive", "dropped_stale_garbage_collect", "dropped_problematic"];
const OUTAGE: u64 = 50_000_000_000;
/// for how long the cache in front of the Stacks node answers
const CACHED: u64 = 60_000_000_000;

pub struct StxTx {
	pub tx: StacksTransaction,
	pub raw: Vec<u8>,
	/// index of the operation it is for; None: the set-up transaction
	pub op: Option<usize>,
	/// once mined, whether it succeeded
	pub verdict: Option<bool>,
	/// chain heights when it was accepted
	pub sent_at: (u32, u32),
	/// what the node calls its end
	pub status: &'static str,
}
pub struct StxBlock {
	pub burn_height: u32,
	pub hash: [u8; 32],
	pub txs: Vec<StxId>,
}
pub struct Payout {
	pub op: usize,
	pub txid: Txid,
}

pub struct Net {
	pub cfg: Config,
	pub wallet: Script,
	/// the operator's Stacks address
	me: String,
	/// heights of the Bitcoin and of the Stacks chain when the operator starts
	pub btc0: u32,
	pub stx0: u32,
	/// fee rate of the Stacks network
	pub rate: u64,
	/// operations of the blocks from `btc0` + 1 on
	pub plan: Vec<Vec<Op>>,
	salt: u32,
	pub btc: BTreeMap<u32, Block>,
	by_hash: HashMap<BlockHash, u32>,
	pub mempool: Vec<Transaction>,
	pub wants: Vec<Want>,
	pub payouts: Vec<Payout>,

	pub chain: Chain,
	pub asset: Principal,
	pub owner: Principal,
	pub stx: Vec<StxBlock>,
	pub pool: Vec<StxId>,
	pub seen: BTreeMap<StxId, StxTx>,
	pub order: Vec<StxId>,
	pub nonce: u64,

	pub ch: Rc<RefCell<Chooser>>,
	pub faults: bool,
	/// only broken connections and lost answers
	pub few: bool,
	/// nanoseconds it takes to flush a file
	pub disk: u64,
	/// blocks may leave out what waits to be mined
	pub slow: bool,
	/// the Stacks node may not know of a waiting transaction at first
	pub lagging: bool,
	/// the nodes may drop what waits to be mined
	pub dropping: bool,
	/// truths the nodes told about each transaction since it was last reported
	pub told: HashMap<String, Vec<St>>,
	pub reports: u64,
	/// transactions around each operation in its block
	pub around: (u32, u32),
	/// until when each node is out of reach
	down: [u64; 2],
	pub served: u64,
	lost: bool,
	cache: HashMap<String, (u64, Value)>,
	pub found: Vec<Found>,
	pub trace: Vec<String>,
	/// heights of Bitcoin and Stacks blocks handed out
	pub btc_read: Vec<u32>,
	pub stx_read: Vec<u32>,
}

/// The chain with both contracts deployed, made once.
fn base(cfg: &Config) -> (Chain, Principal, Principal, Script, String) {
	static BASE: [OnceLock<(Chain, Principal, Script, String)>; 2] = [OnceLock::new(), OnceLock::new()];
	let (c, owner, w, me) = BASE[(cfg.bitcoin_network == bdk::bitcoin::Network::Regtest) as usize].get_or_init(|| {
		let a = cfg.stacks_credentials.address();
		let owner = Principal::standard(a.version() as u8, a.hash().as_ref().try_into().unwrap());
		let read = |rel: &str| {
			std::fs::read_to_string(format!("{}/{rel}", world::DIR)).unwrap_or_else(|e| {
				eprintln!("cannot read {rel}: {e}");
				std::process::exit(3)
			})
		};
		let mut c = Chain::new();
		for (n, s) in [("clarity-bitcoin-mini", world::PROD), ("asset", "contracts/asset.clar")] {
			if let Err(e) = c.deploy(&owner, n, &read(s)) {
				eprintln!("contract {n} does not deploy: {e}");
				std::process::exit(3);
			}
		}
		(c, owner, wallet_script(cfg), a.to_string())
	});
	(c.clone(), owner.contract("asset"), owner.clone(), w.clone(), me.clone())
}

fn id_bytes(b: [u8; 32], salt: u8) -> [u8; 32] {
	mc::sha::sha256(&[&b[..], &[salt]].concat())
}

impl Net {
	pub fn new(cfg: &Config, place: &Place, plan: Vec<Vec<Op>>, ch: Rc<RefCell<Chooser>>) -> Self {
		let Place { btc0, stx0, nonce, rate } = *place;
		let (chain, asset, owner, wallet, me) = base(cfg);
		let mut n = Net {
			cfg: cfg.clone(),
			wallet: wallet.clone(),
			me,
			btc0,
			stx0,
			rate,
			plan,
			salt: 0,
			btc: BTreeMap::new(),
			by_hash: HashMap::new(),
			mempool: vec![],
			wants: vec![],
			payouts: vec![],
			chain,
			asset,
			owner,
			stx: vec![],
			pool: vec![],
			seen: BTreeMap::new(),
			order: vec![],
			nonce,
			ch,
			faults: false,
			few: false,
			disk: 0,
			slow: false,
			lagging: false,
			dropping: false,
			told: HashMap::new(),
			reports: 0,
			around: (0, 0),
			down: [0; 2],
			served: 0,
			lost: false,
			cache: HashMap::new(),
			found: vec![],
			trace: vec![],
			btc_read: vec![],
			stx_read: vec![],
		};
		for h in btc0 - 5..=btc0 {
			// the operator's money
			let txs = if h == btc0 - 3 { vec![tx(0xffff_0000, vec![out(&wallet, 50_000_000)])] } else { vec![] };
			n.push_block(h, txs);
		}
		for h in stx0 - BEFORE + 1..=stx0 {
			let burn = btc0 - (stx0 - h).min(5);
			n.push_stx(burn, vec![]);
		}
		n
	}

	fn push_block(&mut self, h: u32, txs: Vec<Transaction>) {
		let prev = self.btc.get(&(h - 1)).map(|b| b.block_hash()).unwrap_or(BlockHash::all_zeros());
		let b = block(h, prev, txs, h);
		self.by_hash.insert(b.block_hash(), h);
		self.btc.insert(h, b);
	}
	fn push_stx(&mut self, burn_height: u32, txs: Vec<StxId>) {
		let h = self.stx_tip() + 1;
		let mut id = [h as u8; 32];
		id[..4].copy_from_slice(&h.to_le_bytes());
		self.stx.push(StxBlock {
			burn_height,
			hash: id_bytes(id, 1),
			txs,
		});
	}
	pub fn btc_tip(&self) -> u32 {
		*self.btc.keys().last().unwrap()
	}
	pub fn stx_tip(&self) -> u32 {
		self.stx0 - BEFORE + self.stx.len() as u32
	}

	/// A Bitcoin block with the planned operations and everything in the mempool.
	pub fn mine_btc(&mut self) {
		let h = self.btc_tip() + 1;
		let ops = self.plan.get((h - self.btc0 - 1) as usize).cloned().unwrap_or_default();
		let mut txs = vec![];
		let around = if ops.is_empty() { (0, 0) } else { self.around };
		let since = h - self.btc0;
		let fill = |n: u32, k: u32| (0..n).map(move |i| tx(0x8000_0000 + since * 100_000 + k * 50_000 + i, vec![out(&Script::from(vec![0x51]), 7)]));
		txs.extend(fill(around.0, 0));
		for o in ops {
			self.salt += 1;
			let t = usual(o.tx(self.cfg.bitcoin_network, &self.wallet, self.salt), self.salt);
			self.wants.extend(reference(self.cfg.bitcoin_network, &self.wallet, h, &t));
			txs.push(t);
		}
		txs.extend(fill(around.1, 1));
		if self.slow && !self.mempool.is_empty() && self.ch.borrow_mut().choose(2, || "the Bitcoin block leaves the mempool out".into()) == 1 {
			self.trace.push("   (the mempool waits)".into());
		} else {
			let pool = std::mem::take(&mut self.mempool);
			for t in &pool {
				let free = self.dropping && !pool.iter().any(|x| x.input.iter().any(|y| y.previous_output.txid == t.txid()));
				if free && self.ch.borrow_mut().choose(2, || "the payout is dropped".into()) == 1 {
					self.trace.push(format!("   (payout {} is dropped)", t.txid()));
				} else {
					txs.push(t.clone());
				}
			}
		}
		self.push_block(h, txs);
		self.trace.push(format!("-- Bitcoin block {h}"));
	}

	/// A Stacks block on top of the newest Bitcoin block.
	/// A Stacks block without transactions, on the Bitcoin block so many before the newest.
	pub fn mine_empty_stx(&mut self, before: u32) {
		let burn = self.btc_tip() - before;
		self.push_stx(burn, vec![]);
		self.trace.push(format!("-- Stacks block {} on Bitcoin block {burn}", self.stx_tip()));
	}

	pub fn mine_stx(&mut self) {
		let burn = self.btc_tip();
		self.chain.burn_height = burn as u128;
		for (h, b) in &self.btc {
			let mut id = b.block_hash().into_inner();
			id.reverse();
			self.chain.burn_headers.insert(*h as u128, id);
		}
		let mut txs = vec![];
		let wait = self.slow && !self.pool.is_empty() && self.ch.borrow_mut().choose(2, || "the Stacks block leaves the mempool out".into()) == 1;
		while let Some(i) = self.pool.iter().position(|id| !wait && self.seen[id].tx.get_origin_nonce() == self.nonce) {
			let id = self.pool.remove(i);
			if self.dropping && self.pool.is_empty() && self.seen[&id].op.is_some() {
				let c = self.ch.borrow_mut().choose(1 + DROPPED.len() as u32, || "the transaction is dropped".into());
				if c > 0 {
					let t = self.seen.get_mut(&id).unwrap();
					t.verdict = Some(false);
					t.status = DROPPED[c as usize - 1];
					self.trace.push(format!("   ({id} is {})", DROPPED[c as usize - 1]));
					continue;
				}
			}
			self.nonce += 1;
			let ok = self.execute(&id);
			let post = !ok && self.dropping && self.ch.borrow_mut().choose(2, || "a post condition fails".into()) == 1;
			let t = self.seen.get_mut(&id).unwrap();
			t.verdict = Some(ok);
			t.status = match (ok, post) {
				(true, _) => "success",
				(_, true) => "abort_by_post_condition",
				_ => "abort_by_response",
			};
			txs.push(id);
		}
		self.push_stx(burn, txs);
		self.trace.push(format!("-- Stacks block {} on Bitcoin block {burn}", self.stx_tip()));
	}

	fn execute(&mut self, id: &StxId) -> bool {
		let TransactionPayload::ContractCall(c) = &self.seen[id].tx.payload else { return false };
		let target = Principal::standard(c.address.version, c.address.bytes.0).contract(c.contract_name.as_str());
		let args: Vec<Cv> = c
			.function_args
			.iter()
			.filter_map(|a| {
				let b = a.serialize_to_vec();
				Cv::deserialize(&mut &b[..])
			})
			.collect();
		let f = c.function_name.as_str().to_string();
		if args.len() != c.function_args.len() || !self.chain.code.contains_key(&target) {
			return false;
		}
		let o = self.owner.clone();
		let r = self.chain.call(&o, &target, &f, &args);
		if let Some(u) = &self.chain.unsupported {
			eprintln!("the contract interpreter lacks: {u}");
			std::process::exit(3);
		}
		if !r.success() {
			self.trace.push(format!("   {f} fails: {r:?}"));
		}
		r.success()
	}

	/// Gives someone sBTC, as if deposited before the operator started.
	pub fn grant(&mut self, who: &Principal, amount: u128) {
		let ft = self.chain.data.get_mut(&self.asset).unwrap().ft.get_mut("sbtc").expect("the asset contract has no sbtc token");
		*ft.balances.entry(who.clone()).or_insert(0) += amount;
		ft.supply += amount;
	}

	fn complain(&mut self, p: &'static str, msg: String) {
		self.found.push((p, Fail::from(msg)));
	}

	fn fault(&mut self, kinds: &[Fault], node: usize, what: &str) -> Option<Fault> {
		self.served += 1;
		if !self.faults {
			return None;
		}
		let now = sim::Exec::get().map(|e| e.now()).unwrap_or(0);
		if now < self.down[node] {
			return Some(Fault::Broken);
		}
		let kinds = if self.few { &kinds[..2] } else { kinds };
		let c = self.ch.borrow_mut().choose(1 + kinds.len() as u32, || what.to_string());
		let f = (c > 0).then(|| kinds[c as usize - 1]);
		if let Some(f) = f {
			self.trace.push(format!("   {f:?}"));
		}
		if f == Some(Fault::Outage) {
			self.down[node] = now + OUTAGE;
			return Some(Fault::Broken);
		}
		f
	}

	// ---------------------------------------------------------------- Stacks

	fn stx_answer(&mut self, r: &HttpRequest) -> Result<Value, (u16, Value)> {
		let err = |code: u16, e: &str| Err((code, json!({ "error": e })));
		let url = url::Url::parse(&r.url).map_err(|_| (400, json!({"error": "bad url"})))?;
		let path: Vec<&str> = url.path_segments().map(|p| p.collect()).unwrap_or_default();
		let first = self.stx0 - BEFORE + 1;
		let block = |h: u32, b: &StxBlock| {
			json!({
				"canonical": true, "height": h, "hash": format!("0x{}", mc::hex(b.hash)), "burn_block_height": b.burn_height,
				"index_block_hash": format!("0x{}", mc::hex(id_bytes(b.hash, 2))),
				"parent_block_hash": format!("0x{}", mc::hex(id_bytes(b.hash, 3))),
				"burn_block_hash": format!("0x{}", mc::hex(id_bytes(b.hash, 4))),
				"txs": b.txs.iter().map(|t| format!("0x{t}")).collect::<Vec<_>>(),
			})
		};
		let me = self.me.clone();
		match (r.method.as_str(), &path[..]) {
			("GET", ["extended", "v1", "contract", id]) => {
				if *id == format!("{me}.{}", self.cfg.contract_name.as_str()) {
					Ok(json!({"tx_id": "0x00", "canonical": true, "contract_id": id, "block_height": self.stx0}))
				} else {
					err(404, "cannot find contract by ID")
				}
			}
			("GET", ["extended", "v1", "block", "by_height", h]) => match h.parse::<u32>().ok().filter(|h| *h >= first && *h <= self.stx_tip()) {
				Some(h) => {
					self.stx_read.push(h);
					Ok(block(h, &self.stx[(h - first) as usize]))
				}
				None => err(404, "cannot find block by height"),
			},
			("GET", ["extended", "v1", "block", "by_burn_block_height", h]) => {
				// the newest one, should there be several
				match h.parse::<u32>().ok().and_then(|h| self.stx.iter().rposition(|b| b.burn_height == h)) {
					Some(i) => Ok(block(first + i as u32, &self.stx[i])),
					None => err(404, "cannot find block by height"),
				}
			}
			("GET", ["extended", "v1", "address", a, "nonces"]) => {
				if *a != me {
					return Ok(json!({"last_executed_tx_nonce": null, "last_mempool_tx_nonce": null, "possible_next_nonce": 0, "detected_missing_nonces": []}));
				}
				let last = self.pool.iter().map(|i| self.seen[i].tx.get_origin_nonce()).max();
				Ok(json!({
					"last_executed_tx_nonce": self.nonce - 1, "last_mempool_tx_nonce": last,
					"possible_next_nonce": last.map(|n| n + 1).unwrap_or(self.nonce).max(self.nonce),
					"detected_missing_nonces": [],
				}))
			}
			("GET", ["v2", "fees", "transfer"]) => Ok(json!(self.rate)),
			("GET", ["extended", "v1", "tx", id]) => match self.stx_known(id) {
				Some((_, t)) if t.verdict.is_none() && self.lagging && self.ch.borrow_mut().choose(2, || "not indexed yet".into()) == 1 => err(404, "could not find transaction by ID"),
				Some((id, t)) => Ok(json!({
					"tx_id": format!("0x{id}"),
					"tx_status": t.status,
				})),
				None => err(404, "could not find transaction by ID"),
			},
			("GET", ["extended", "v1", "tx", id, "raw"]) => match self.stx_known(id) {
				Some((_, t)) => Ok(json!({"raw_tx": format!("0x{}", mc::hex(&t.raw))})),
				None => err(404, "could not find transaction by ID"),
			},
			("POST", ["v2", "transactions"]) => self.post(&r.body).map_err(|reason| (400, json!({"error": "transaction rejected", "reason": reason}))),
			_ => err(404, "not found"),
		}
	}
	pub fn stx_truth(&self, id: &StxId) -> St {
		match self.seen.get(id).and_then(|t| t.verdict) {
			None => St::Broadcasted,
			Some(true) => St::Confirmed,
			Some(false) => St::Rejected,
		}
	}
	/// The status of a payout.
	pub fn btc_truth(&self, id: &Txid) -> Option<St> {
		self.payouts.iter().find(|p| p.txid == *id)?;
		Some(match self.btc_find(id) {
			None => St::Rejected,
			Some((_, None)) => St::Broadcasted,
			Some(_) => St::Confirmed,
		})
	}
	fn stx_known(&self, id: &str) -> Option<(StxId, &StxTx)> {
		let id = StxId::from_hex(id.trim_start_matches("0x")).ok()?;
		self.seen.get(&id).map(|t| (id, t))
	}

	fn post(&mut self, body: &[u8]) -> Result<Value, String> {
		let mut d = body;
		let tx = match StacksTransaction::consensus_deserialize(&mut d) {
			Ok(t) if d.is_empty() => t,
			r => {
				self.complain("C10", format!("the Stacks node is sent something that is no transaction: {:?}, {} bytes left", r.err(), d.len()));
				return Err("Serialization".into());
			}
		};
		let id = tx.txid();
		if self.seen.contains_key(&id) {
			return Ok(json!(id.to_string()));
		}
		if let Err(e) = tx.verify() {
			self.complain("C10", format!("a Stacks transaction with a bad signature is broadcast: {e:?}"));
			return Err("SignatureValidation".into());
		}
		let nonce = tx.get_origin_nonce();
		if nonce < self.nonce || self.pool.iter().any(|i| self.seen[i].tx.get_origin_nonce() == nonce) {
			self.complain("C08", format!("two Stacks transactions with nonce {nonce}"));
			return Err(if nonce < self.nonce { "BadNonce" } else { "ConflictingNonceInMempool" }.into());
		}
		if tx.get_tx_fee() < self.rate * body.len() as u64 {
			self.complain("C10", format!("a Stacks transaction pays {} for {} bytes at rate {}", tx.get_tx_fee(), body.len(), self.rate));
			return Err("FeeTooLow".into());
		}
		let op = match self.audit_stx(&tx) {
			Ok(op) => op,
			Err(e) => {
				self.complain("C10", e);
				None
			}
		};
		if let Some(i) = op {
			if self.seen.values().any(|t| t.op == Some(i)) {
				self.complain("C01", format!("operation {i} is minted or burned by two transactions"));
			}
		}
		self.trace.push(format!("   accepted {} nonce {nonce} for {op:?}", id));
		self.pool.push(id);
		self.order.push(id);
		self.seen.insert(
			id,
			StxTx {
				tx,
				raw: body.to_vec(),
				op,
				verdict: None,
				sent_at: (self.btc_tip(), self.stx_tip()),
				status: "pending",
			},
		);
		Ok(json!(id.to_string()))
	}

	/// A transaction must be exactly what some operation on chain asks for.
	fn audit_stx(&self, tx: &StacksTransaction) -> Result<Option<usize>, String> {
		let a = tx.origin_address();
		if tx.version != TransactionVersion::Testnet || tx.chain_id != CHAIN_ID_TESTNET || a.to_string() != self.me {
			return Err(format!("a transaction for {:?} chain {:x} by {a}", tx.version, tx.chain_id));
		}
		if tx.post_condition_mode != TransactionPostConditionMode::Allow || tx.anchor_mode != TransactionAnchorMode::Any {
			return Err(format!("a transaction with {:?} and {:?}: it may never be mined or always aborts", tx.post_condition_mode, tx.anchor_mode));
		}
		let TransactionPayload::ContractCall(c) = &tx.payload else { return Err("a transaction that calls no contract".into()) };
		if c.address != a || c.contract_name.as_str() != self.cfg.contract_name.as_str() {
			return Err(format!("a call to {}.{}", c.address, c.contract_name.as_str()));
		}
		let got: Vec<Vec<u8>> = c.function_args.iter().map(|v| v.serialize_to_vec()).collect();
		let bytes = |v: &[Cv]| -> Vec<Vec<u8>> {
			v.iter()
				.map(|v| {
					let mut b = vec![];
					v.serialize(&mut b);
					b
				})
				.collect()
		};
		let f = c.function_name.as_str();
		if f == "set-bitcoin-wallet-public-key" {
			let k = self.cfg.bitcoin_credentials.public_key_p2tr().serialize();
			return if got == bytes(&[buff(k)]) { Ok(None) } else { Err(format!("the contract is told the wallet key {:?}", c.function_args)) };
		}
		for (i, w) in self.wants.iter().enumerate() {
			let (name, amount, who, txid, height) = match w {
				Want::Mint { txid, amount, recipient, height } => ("mint", amount, recipient, txid, height),
				Want::Burn { txid, amount, source, height, .. } => ("burn", amount, source, txid, height),
			};
			let mut id = txid.into_inner();
			id.reverse();
			// the operation this call is about
			if got.get(2) != bytes(&[buff(id)]).first() {
				continue;
			}
			let b = &self.btc[height];
			let ids: Vec<[u8; 32]> = b
				.txdata
				.iter()
				.map(|t| {
					let mut i = t.txid().into_inner();
					i.reverse();
					i
				})
				.collect();
			let index = ids.iter().position(|x| *x == id).unwrap();
			let proof = world::Block {
				height: *height as u128,
				header: serialize(&b.header),
				hash: [0; 32],
				txids: ids,
			}
			.proof(index);
			let mut want = bytes(&[uint(*amount as u128)]);
			want.push(who.serialize_to_vec());
			want.extend(bytes(&proof.args()));
			return if f == name && got == want { Ok(Some(i)) } else { Err(format!("{f}{:?} for operation {i}, {w:?}", c.function_args)) };
		}
		Err(format!("{f}{:?} for no operation on chain", c.function_args))
	}

	// ---------------------------------------------------------------- Bitcoin

	fn btc_txs(&self) -> impl Iterator<Item = (&Transaction, Option<u32>)> {
		self.btc.iter().flat_map(|(h, b)| b.txdata.iter().map(move |t| (t, Some(*h)))).chain(self.mempool.iter().map(|t| (t, None)))
	}
	pub fn btc_find(&self, id: &Txid) -> Option<(&Transaction, Option<u32>)> {
		self.btc_txs().find(|(t, _)| t.txid() == *id)
	}

	fn rpc_answer(&mut self, c: &RpcCall) -> Result<Value, (i32, String)> {
		let err = |code: i32, m: &str| Err((code, m.to_string()));
		let arg = |i: usize| c.args.get(i).and_then(|v| v.as_str()).unwrap_or_default().to_string();
		match c.cmd.as_str() {
			"getblockcount" => Ok(json!(self.btc_tip())),
			"getbestblockhash" => Ok(json!(self.btc[&self.btc_tip()].block_hash().to_hex())),
			"getblockhash" => match c.args.first().and_then(|v| v.as_u64()).and_then(|h| self.btc.get(&(h as u32))) {
				Some(b) => Ok(json!(b.block_hash().to_hex())),
				None => err(-8, "Block height out of range"),
			},
			"getblock" => match arg(0).parse::<BlockHash>().ok().and_then(|h| self.by_hash.get(&h)).copied() {
				Some(h) => {
					self.btc_read.push(h);
					Ok(json!(mc::hex(serialize(&self.btc[&h]))))
				}
				None => err(-5, "Block not found"),
			},
			"getblockchaininfo" => {
				let t = self.btc_tip();
				Ok(json!({
					"chain": "test", "blocks": t, "headers": t, "bestblockhash": self.btc[&t].block_hash().to_hex(), "difficulty": 1.0,
					"mediantime": 1, "verificationprogress": 1.0, "initialblockdownload": false, "chainwork": "00", "size_on_disk": 1, "pruned": false,
					"softforks": {}, "warnings": "",
				}))
			}
			"getrawtransaction" => {
				let id = arg(0).parse::<Txid>().ok();
				let Some((t, at)) = id.as_ref().and_then(|i| self.btc_find(i)) else {
					return err(-5, "No such mempool or blockchain transaction. Use gettransaction for wallet transactions.");
				};
				let raw = mc::hex(serialize(t));
				let verbose = c.args.get(1).is_some_and(|v| v.as_bool() == Some(true) || v.as_u64().is_some_and(|n| n > 0));
				if !verbose {
					return Ok(json!(raw));
				}
				Ok(self.verbose(t, at, raw))
			}
			"getmempoolentry" => {
				let id = arg(0);
				match self.mempool.iter().find(|t| t.txid().to_hex() == id) {
					Some(t) => Ok(mempool_entry(t)),
					None => err(-5, "Transaction not in mempool"),
				}
			}
			"getrawmempool" => Ok(json!(self.mempool.iter().map(|t| t.txid().to_hex()).collect::<Vec<_>>())),
			"gettxout" => {
				let (id, n) = (arg(0).parse::<Txid>().unwrap_or(Txid::all_zeros()), c.args.get(1).and_then(|v| v.as_u64()).unwrap_or(0));
				let spent = self.btc_txs().any(|(t, _)| {
					t.input.iter().any(|i| {
						i.previous_output
							== OutPoint {
								txid: id,
								vout: n as u32,
							}
					})
				});
				match self.btc_find(&id).and_then(|(t, at)| t.output.get(n as usize).map(|o| (o.clone(), at))) {
					Some((o, at)) if !spent => Ok(json!({
						"bestblock": self.btc[&self.btc_tip()].block_hash().to_hex(), "confirmations": at.map(|h| self.btc_tip() - h + 1).unwrap_or(0),
						"value": o.value as f64 / 1e8, "scriptPubKey": {"asm": "", "hex": mc::hex(o.script_pubkey.as_bytes()), "type": "nonstandard"}, "coinbase": false,
					})),
					_ => Ok(Value::Null),
				}
			}
			"sendrawtransaction" => {
				let t: Option<Transaction> = deserialize(&mc::unhex(&arg(0))).ok();
				let Some(t) = t else {
					self.complain("C10", "the Bitcoin node is sent something that is no transaction".into());
					return err(-22, "TX decode failed");
				};
				self.send(t)
			}
			_ => err(-32601, "Method not found"),
		}
	}

	fn verbose(&self, t: &Transaction, at: Option<u32>, raw: String) -> Value {
		let mut v = json!({
			"hex": raw, "txid": t.txid().to_hex(), "hash": t.wtxid().to_hex(), "size": t.size(), "vsize": t.vsize(), "version": t.version, "locktime": t.lock_time.0,
			"vin": t.input.iter().map(|i| {
				let s = json!({"asm": "", "hex": mc::hex(i.script_sig.as_bytes())});
				if t.is_coin_base() { json!({"coinbase": mc::hex(i.script_sig.as_bytes()), "sequence": i.sequence.0}) }
				else { json!({"txid": i.previous_output.txid.to_hex(), "vout": i.previous_output.vout, "scriptSig": s, "sequence": i.sequence.0, "txinwitness": i.witness.to_vec().iter().map(mc::hex).collect::<Vec<_>>()}) }
			}).collect::<Vec<_>>(),
			"vout": t.output.iter().enumerate().map(|(n, o)| json!({"value": o.value as f64 / 1e8, "n": n, "scriptPubKey": {"asm": "", "hex": mc::hex(o.script_pubkey.as_bytes()), "type": "nonstandard"}})).collect::<Vec<_>>(),
		});
		if let Some(h) = at {
			v["blockhash"] = json!(self.btc[&h].block_hash().to_hex());
			v["confirmations"] = json!(self.btc_tip() - h + 1);
			v["time"] = json!(self.btc[&h].header.time);
			v["blocktime"] = v["time"].clone();
		}
		v
	}

	fn send(&mut self, t: Transaction) -> Result<Value, (i32, String)> {
		let id = t.txid();
		match self.btc_find(&id) {
			Some((_, None)) => return Ok(json!(id.to_hex())),
			Some((_, Some(_))) => return Err((-27, "Transaction already in block chain".into())),
			None => {}
		}
		let all: HashMap<Txid, &Transaction> = self.btc_txs().map(|(t, _)| (t.txid(), t)).collect();
		let spent: HashSet<OutPoint> = self.btc_txs().flat_map(|(t, _)| t.input.iter().map(|i| i.previous_output)).collect();
		let mut prevs: Vec<TxOut> = vec![];
		for i in &t.input {
			let o = all.get(&i.previous_output.txid).and_then(|t| t.output.get(i.previous_output.vout as usize));
			match o {
				Some(o) if !spent.contains(&i.previous_output) => prevs.push(o.clone()),
				o => {
					let p = if o.is_some() { "C08" } else { "C10" };
					self.complain(p, format!("payout {id} spends {} which is {}", i.previous_output, if o.is_some() { "spent already" } else { "unknown" }));
					return Err((-25, "bad-txns-inputs-missingorspent".into()));
				}
			}
		}
		let (a, b): (u64, u64) = (prevs.iter().map(|o| o.value).sum(), t.output.iter().map(|o| o.value).sum());
		if b > a || a - b < t.vsize() as u64 {
			self.complain("C10", format!("payout {id} takes {a} and gives {b}"));
			return Err((-26, "min relay fee not met".into()));
		}
		for (n, (i, o)) in t.input.iter().zip(&prevs).enumerate() {
			if o.script_pubkey != self.wallet || !key_spend(&t, n, &prevs, &self.cfg) {
				self.complain("C10", format!("payout {id}: input {n}, {:?}, is not validly spent by the wallet", i.previous_output));
				return Err((-26, "mandatory-script-verify-flag-failed".into()));
			}
		}
		match self.audit_payout(&t) {
			Err(e) => self.complain("C10", e),
			Ok(op) => {
				if let Some(p) = self.payouts.iter().find(|p| p.op == op) {
					let m = format!("withdrawal {op} is paid out by {} and again by {id}", p.txid);
					self.complain("C01", m);
				}
				if !self.seen.values().any(|x| x.op == Some(op) && x.verdict == Some(true)) {
					self.complain("C02", format!("withdrawal {op} is paid out though no burn for it succeeded"));
				}
				self.payouts.push(Payout { op, txid: id });
			}
		}
		self.trace.push(format!("   accepted payout {id}"));
		self.mempool.push(t);
		Ok(json!(id.to_hex()))
	}

	fn audit_payout(&self, t: &Transaction) -> Result<usize, String> {
		let o = &t.output;
		let data = o.first().and_then(|o| crate::btc::ref_op_return_data(o.script_pubkey.as_bytes()));
		let (Some(data), Some(pay)) = (data, o.get(1)) else { return Err(format!("a Bitcoin transaction that is no payout: {t:?}")) };
		if o[0].value != 0 || o.len() > 3 || o.get(2).is_some_and(|c| c.script_pubkey != self.wallet) {
			return Err(format!("a payout with other outputs: {:?}", t.output));
		}
		// an earlier one may already have been paid the same
		let alike: Vec<usize> = (0..self.wants.len()).filter(|i| matches!(&self.wants[*i], Want::Burn { amount, payee, .. } if *amount == pay.value && *payee == pay.script_pubkey)).collect();
		let unpaid = || alike.iter().copied().filter(|i| self.payouts.iter().all(|p| p.op != *i));
		let due = |i: &usize| self.seen.values().any(|x| x.op == Some(*i) && x.verdict == Some(true));
		let Some(op) = unpaid().find(due).or(unpaid().next()).or(alike.first().copied()) else {
			return Err(format!("a payout of {} to {} that nobody asked for", pay.value, pay.script_pubkey));
		};
		let ok = alike.iter().any(|i| {
			let Want::Burn { height, .. } = &self.wants[*i] else { return false };
			// the Stacks chain tip as of that Bitcoin block
			self.stx.iter().rfind(|b| b.burn_height <= *height).is_some_and(|b| {
				let mut want = ref_magic(self.cfg.bitcoin_network).to_vec();
				want.push(b'!');
				want.extend_from_slice(&b.hash);
				data == want
			})
		});
		if ok {
			Ok(op)
		} else {
			Err(format!("the payout of withdrawal {op} carries the data {}", mc::hex(&data)))
		}
	}
}

fn mempool_entry(t: &Transaction) -> Value {
	json!({
		"vsize": t.vsize(), "weight": t.weight(), "time": 1, "height": 1, "descendantcount": 1, "descendantsize": 1, "ancestorcount": 1, "ancestorsize": 1,
		"wtxid": t.wtxid().to_hex(), "fees": {"base": 0.00001, "modified": 0.00001, "ancestor": 0.00001, "descendant": 0.00001}, "depends": [], "spentby": [],
		"bip125-replaceable": false, "unbroadcast": false, "fee": 0.00001, "size": t.size(),
	})
}

/// Whether the input is a valid taproot key spend by the operator's wallet.
fn key_spend(t: &Transaction, n: usize, prevs: &[TxOut], cfg: &Config) -> bool {
	let w = t.input[n].witness.to_vec();
	let [sig] = &w[..] else { return false };
	let secp = Secp256k1::verification_only();
	let internal: XOnlyPublicKey = cfg.bitcoin_credentials.public_key_p2tr().x_only_public_key().0;
	let (out, _) = internal.tap_tweak(&secp, None);
	let (s, ty) = match sig.len() {
		64 => (&sig[..], SchnorrSighashType::Default),
		65 => match SchnorrSighashType::from_consensus_u8(sig[64]) {
			Ok(t) => (&sig[..64], t),
			Err(_) => return false,
		},
		_ => return false,
	};
	let Ok(sig) = Signature::from_slice(s) else { return false };
	let Ok(h) = SighashCache::new(t).taproot_key_spend_signature_hash(n, &Prevouts::All(prevs), ty) else { return false };
	secp.verify_schnorr(&sig, &Message::from_slice(&h.into_inner()).unwrap(), &out.to_inner()).is_ok()
}

impl sim::Node for Net {
	fn http(&mut self, r: &HttpRequest) -> Result<HttpResponse, HttpFault> {
		let what = format!("{} {}", r.method, r.url.split('?').next().unwrap().trim_start_matches("http://stacks.test:3999"));
		self.trace.push(what.clone());
		let f = self.fault(&HTTP_FAULTS, 0, &what);
		let say = |status: u16, v: Value| {
			Ok(HttpResponse {
				status,
				body: v.to_string().into_bytes(),
			})
		};
		match f {
			Some(Fault::Broken) => return Err(if sim::Exec::get().map(|e| e.now()).unwrap_or(0) < self.down[0] { HttpFault::Connect } else { HttpFault::Broken }),
			Some(Fault::TooMany) => return say(429, json!({"error": "Too Many Requests"})),
			Some(Fault::TimedOut) => return say(522, json!("Connection Timed Out")),
			_ => {}
		}
		self.lost = f == Some(Fault::AnswerLost);
		if !r.url.starts_with("http://stacks.test:3999/") {
			return Err(HttpFault::Connect);
		}
		let key: Vec<&str> = r.headers.iter().filter(|h| h.0 == "x-hiro-api-key").map(|h| h.1.as_str()).collect();
		if key != self.cfg.hiro_api_key.as_deref().into_iter().collect::<Vec<_>>() {
			let m = format!("{what} is sent with the API keys {key:?}");
			self.complain("C36", m);
		}
		if let Some(id) = r.url.split('?').next().unwrap().split("/tx/").nth(1) {
			if let Some((id, _)) = self.stx_known(id) {
				let t = self.stx_truth(&id);
				self.told.entry(id.to_string()).or_default().push(t);
			}
		}
		// a cache in front of the node keeps what changes slowly for most callers
		let caching = r.method == "GET" && (r.url.contains("/nonces") || r.url.contains("/extended/v1/tx/")) && !r.headers.iter().any(|h| h.0 == "pragma" || h.0 == "cache-control" && (h.1.contains("no-") || h.1.contains("max-age=0")));
		let now = sim::Exec::get().map(|e| e.now()).unwrap_or(0);
		if caching {
			if let Some((_, v)) = self.cache.get(&r.url).filter(|c| now < c.0) {
				return say(200, v.clone());
			}
		}
		match self.stx_answer(r) {
			Ok(v) => {
				if caching {
					self.cache.insert(r.url.clone(), (now + CACHED, v.clone()));
				}
				say(200, v)
			}
			Err((c, v)) => say(c, v),
		}
	}
	fn http_answer_lost(&mut self, _: &HttpRequest) -> bool {
		std::mem::take(&mut self.lost)
	}
	fn rpc(&mut self, c: &RpcCall) -> Result<Value, RpcFault> {
		let what = format!("{} {}", c.cmd, c.args.first().map(|a| a.to_string().chars().take(20).collect::<String>()).unwrap_or_default());
		self.trace.push(what.clone());
		let f = self.fault(&RPC_FAULTS, 1, &what);
		if f == Some(Fault::Broken) || (c.user.as_str(), c.pass.as_str()) != ("user", "pass") || !c.url.starts_with("http://bitcoin.test:18443") {
			return Err(RpcFault::Transport);
		}
		if f == Some(Fault::WarmingUp) {
			return Err(RpcFault::Rpc(-28, "Verifying blocks…".into()));
		}
		for a in c.args.iter().filter_map(|a| a.as_str()).filter(|a| a.len() == 64) {
			if let Some(t) = a.parse().ok().and_then(|id| self.btc_truth(&id)) {
				self.told.entry(a.to_string()).or_default().push(t);
			}
		}
		let r = self.rpc_answer(c).map_err(|(c, m)| RpcFault::Rpc(c, m));
		if f == Some(Fault::AnswerLost) {
			return Err(RpcFault::Transport);
		}
		r
	}
	fn electrum(&mut self, url: &str) -> Result<(u32, Vec<Placed>), String> {
		self.trace.push("electrum".into());
		self.served += 1;
		if url != "tcp://electrum.test:60401" {
			return Err("no such server".into());
		}
		let v = self.btc_txs().map(|(t, at)| (t.clone(), at.map(|h| (h, self.btc[&h].header.time as u64)))).collect();
		Ok((self.btc_tip(), v))
	}
	fn disk(&mut self) -> u64 {
		self.disk
	}
	fn as_any(&mut self) -> &mut dyn Any {
		self
	}
}
