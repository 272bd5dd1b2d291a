//! C03: which transactions of a block the operator acts on, and with what values.
//! The real state machine is driven through whole blocks; the chains cooperate.
use std::{
	collections::{BTreeMap, VecDeque},
	path::Path,
};

use bdk::bitcoin::{hashes::Hash, Block, BlockHash, Network, Script, Transaction, Txid, Witness};
use blockstack_lib::burnchains::Txid as StxId;
use mc::{ensure_eq, CaseResult, Ctx, Fail, Idx};
use romeo::{
	config::Config,
	event::{Event, TransactionStatus as St},
	state::State,
	task::Task,
};

use crate::{btc::*, c17::deposit_payload, events::wd, fx::*, wr::*};

const STX0: u32 = 10;
const BTC0: u32 = 100;
/// heights at which numbers grow longer
const HEIGHTS: [u32; 12] = [17, 126, 254, 32_766, 65_534, 830_000, 8_388_606, 16_777_214, 16_777_216, 500_000_000, 2_147_483_600, 4_294_000_000];
pub const NETS: [Network; 4] = [Network::Testnet, Network::Bitcoin, Network::Regtest, Network::Signet];

#[derive(Default, Debug, PartialEq)]
struct Acted {
	mints: Vec<String>,
	burns: Vec<String>,
	pays: Vec<String>,
}

/// Runs the operator's state machine over the blocks, every task succeeding.
fn drive(cfg: &Config, first: u32, blocks: &[Block]) -> Result<Acted, Fail> {
	let mut a = Acted::default();
	let mut s = State::new();
	let mut q: VecDeque<Task> = s.bootstrap().into();
	let mut n = 0u32;
	let before = first - 1;
	let last = before + blocks.len() as u32;
	let mut steps = 0;
	let mut end = None;
	while let Some(t) = q.pop_front() {
		steps += 1;
		if steps > 5000 {
			mc::fail!("no end of tasks");
		}
		n += 1;
		let mut id = [0; 32];
		id[..4].copy_from_slice(&n.to_le_bytes());
		let e = match t {
			Task::GetContractBlockHeight => Event::ContractBlockHeight(STX0, before),
			Task::UpdateContractPublicKey => Event::ContractPublicKeySetBroadcasted(StxId(id)),
			Task::CreateMint(d) => {
				a.mints.push(format!("{:?}", of_deposit(&d)));
				Event::MintBroadcasted(d, StxId(id))
			}
			Task::CreateBurn(w) => {
				a.burns.push(format!("{:?}", of_withdrawal(&w)));
				Event::BurnBroadcasted(w, StxId(id))
			}
			Task::CreateFulfillment(w) => {
				a.pays.push(format!("{:?}", of_withdrawal(&w)));
				Event::FulfillBroadcasted(w, Txid::from_inner(id))
			}
			Task::CheckStacksTransactionStatus(id) => Event::StacksTransactionUpdate(id, St::Confirmed),
			Task::CheckBitcoinTransactionStatus(id) => Event::BitcoinTransactionUpdate(id, St::Confirmed),
			Task::FetchStacksBlock(h) => {
				// some more once the last Bitcoin block is in
				if end.is_some_and(|e| h > e) {
					continue;
				}
				Event::StacksBlock(h, vec![])
			}
			Task::FetchBitcoinBlock(h) => {
				if h > last + 6 {
					continue;
				}
				if h == last + 6 {
					end = Some(STX0 + 40 + n);
				}
				let b = blocks.get((h - first) as usize).cloned().unwrap_or_else(|| block(h, BlockHash::all_zeros(), vec![], h));
				Event::BitcoinBlock(h, b)
			}
		};
		q.extend(mc::no_panic(|| s.update(e, cfg)).map_err(|p| Fail::from(format!("panic: {p}")))?);
	}
	a.mints.sort();
	a.burns.sort();
	a.pays.sort();
	Ok(a)
}

fn expected(cfg: &Config, first: u32, blocks: &[Block]) -> Acted {
	let w = wallet_script(cfg);
	let mut a = Acted::default();
	for (i, b) in blocks.iter().enumerate() {
		for t in &b.txdata {
			for x in reference(cfg.bitcoin_network, &w, first + i as u32, t) {
				match x {
					Want::Mint { .. } => a.mints.push(format!("{x:?}")),
					Want::Burn { .. } => {
						a.burns.push(format!("{x:?}"));
						a.pays.push(format!("{x:?}"));
					}
				}
			}
		}
	}
	a.mints.sort();
	a.burns.sort();
	a.pays.sort();
	a
}

fn judge(cfg: &Config, blocks: Vec<Block>) -> CaseResult {
	judge_at(cfg, BTC0 + 1, blocks)
}
fn judge_at(cfg: &Config, first: u32, blocks: Vec<Block>) -> CaseResult {
	let want = expected(cfg, first, &blocks);
	let got = drive(cfg, first, &blocks)?;
	ensure_eq!(got.mints, want.mints, "mints");
	ensure_eq!(got.burns, want.burns, "burns");
	ensure_eq!(got.pays, want.pays, "payouts");
	Ok(match want.mints.len() + want.burns.len() {
		0 => "nothing asked for",
		1 => "one operation",
		_ => "several operations",
	})
}

fn build(h: u32, txs: Vec<Transaction>) -> Block {
	block(h, BlockHash::all_zeros(), txs, h)
}

/// Kinds of transactions a block may have.
fn kinds(cfg: &Config) -> Vec<(&'static str, Vec<bdk::bitcoin::TxOut>)> {
	let net = cfg.bitcoin_network;
	let w = wallet_script(cfg);
	let other = Script::new_witness_program(bdk::bitcoin::util::address::WitnessVersion::V0, &[9; 20]);
	let o = |op: Op| op.tx(net, &w, 0).output;
	let d = |amount, name| {
		o(Op::Deposit {
			amount,
			version: if net == Network::Bitcoin { 22 } else { 26 },
			hash: [3; 20],
			name,
		})
	};
	let wi = o(wd(700, 1, 1));
	let to = |mut v: Vec<bdk::bitcoin::TxOut>, i: usize| {
		v[i].script_pubkey = other.clone();
		v
	};
	let data = |mut v: Vec<bdk::bitcoin::TxOut>, f: &dyn Fn(&mut Vec<u8>)| {
		let mut p = ref_op_return_data(v[0].script_pubkey.as_bytes()).unwrap().to_vec();
		f(&mut p);
		v[0].script_pubkey = op_return(&p);
		v
	};
	let foreign = if net == Network::Bitcoin { Network::Testnet } else { Network::Bitcoin };
	let swap = |mut v: Vec<bdk::bitcoin::TxOut>, a: usize, b: usize| {
		v.swap(a, b);
		v
	};
	let plus = |mut v: Vec<bdk::bitcoin::TxOut>, s: &Script| {
		v.push(out(s, 1234));
		v
	};
	vec![
		("deposit", d(1000, None)),
		("withdrawal", wi.clone()),
		("deposit to a contract, with change", plus(d(2000, Some("a-b")), &other)),
		("payment to the wallet", vec![out(&w, 5000)]),
		("deposit elsewhere", to(d(1000, None), 1)),
		("withdrawal elsewhere", to(wi.clone(), 2)),
		("deposit with the wallet behind", plus(to(d(1000, None), 1), &w)),
		("deposit of another network", data(d(1000, None), &|p| p[..2].copy_from_slice(&ref_magic(foreign)))),
		("withdrawal of another network", data(wi.clone(), &|p| p[..2].copy_from_slice(&ref_magic(foreign)))),
		("other opcode", data(d(1000, None), &|p| p[2] = b'x')),
		("fulfillment", data(d(1000, None), &|p| p[2] = b'!')),
		("deposit data as a withdrawal", data(d(1000, None), &|p| p[2] = b'>')),
		("withdrawal data as a deposit", data(wi.clone(), &|p| p[2] = b'<')),
		("withdrawal with another amount", data(wi.clone(), &|p| p[10] ^= 1)),
		("withdrawal with a broken signature", data(wi.clone(), &|p| p[11..].fill(0xff))),
		("withdrawal, payee and wallet swapped", swap(wi.clone(), 1, 2)),
		("deposit, outputs swapped", swap(d(1000, None), 0, 1)),
		("withdrawal without fee output", wi[..2].to_vec()),
		("data only", d(1000, None)[..1].to_vec()),
		("no outputs", vec![]),
	]
}

fn place(salt: u32, outs: &[bdk::bitcoin::TxOut]) -> Transaction {
	let mut t = tx(salt, outs.to_vec());
	if salt % 2 == 0 {
		// a witness changes the wtxid, not the txid
		t.input[0].witness = Witness::from_vec(vec![vec![1, 2, 3]]);
	}
	t
}

pub fn run(ctx: &Ctx) {
	ctx.rule("Blocks: every sequence of up to 3 transactions (2 on regtest and signet; thorough: 3, and 4 on testnet) of 20 kinds in one block, every split of two over two blocks, the kinds in the coinbase, on every network, strict or not; single operations swept over amounts, principal versions and names, payee scripts, keys; every single-byte change of a deposit's and a withdrawal's data. A case is one chain driven through the real state machine with all tasks succeeding; the mints, burns and payouts it decides on are compared with an independent parser.");
	let cfgs: Vec<Config> = NETS.iter().map(|n| config(*n, false, Path::new("/nonexistent"))).collect();
	for cfg in &cfgs {
		let k = kinds(cfg);
		let net = cfg.bitcoin_network;
		let n = k.len() as u64;
		let depth = match (ctx.thorough(), net) {
			(true, Network::Testnet) => 4,
			(false, Network::Regtest | Network::Signet) => 2,
			_ => 3,
		};
		for len in 1..=depth {
			ctx.each(&format!("{net} blocks of {len}"), n.pow(len), |i| {
				let mut i = i;
				let txs: Vec<Transaction> = (0..len)
					.map(|p| {
						let j = (i % n) as usize;
						i /= n;
						place(p + 1, &k[j].1)
					})
					.collect();
				mc::note(|| format!("{txs:?}"));
				judge(cfg, vec![build(BTC0 + 1, txs)])
			});
		}
		ctx.each(&format!("{net} two blocks"), n * n * 3, |i| {
			let mut x = Idx(i);
			let (a, b, gap) = (x.take(n as usize), x.take(n as usize), x.take(3));
			let mut v = vec![build(BTC0 + 1, vec![place(1, &k[a].1)])];
			v.extend((0..gap).map(|g| build(BTC0 + 2 + g as u32, vec![])));
			v.push(build(BTC0 + 2 + gap as u32, vec![place(2, &k[b].1)]));
			judge(cfg, v)
		});
		ctx.each(&format!("{net} heights"), n * HEIGHTS.len() as u64, |i| {
			let mut x = Idx(i);
			let (h, a) = (*x.pick(&HEIGHTS), x.take(n as usize));
			// three blocks, so that some boundaries are crossed
			judge_at(cfg, h, (0..3).map(|d| build(h + d, vec![place(1 + d, &k[a].1)])).collect())
		});
		ctx.each(&format!("{net} coinbase"), n * n, |i| {
			let mut x = Idx(i);
			let (a, b) = (x.take(n as usize), x.take(n as usize));
			let mut c = coinbase(BTC0 + 1, vec![]);
			c.output = k[a].1.clone();
			judge(cfg, vec![block_of(BlockHash::all_zeros(), vec![c, place(2, &k[b].1)], 1)])
		});
		let w = wallet_script(cfg);
		// contents of single operations
		let amounts = [1u64, 2, 255, 256, 545, 546, 547, 65_535, 65_536, 1 << 32, 100_000_000, 2_100_000_000_000_000];
		let names = [None, Some("a"), Some("Z9-_"), Some("a234567890123456789012345678901234567890")];
		ctx.each(&format!("{net} deposits"), (amounts.len() * names.len() * 256) as u64, |i| {
			let mut x = Idx(i);
			let (v, name, amount) = (x.take(256) as u8, *x.pick(&names), *x.pick(&amounts));
			let op = Op::Deposit {
				amount,
				version: v,
				hash: *b"\x00\xff12345678901234567\x80",
				name,
			};
			judge(cfg, vec![build(BTC0 + 1, vec![op.tx(net, &w, 1)])])
		});
		let payees: Vec<Script> = (0..=2).flat_map(scripts).chain([w.clone()]).collect();
		ctx.each(&format!("{net} withdrawals"), (amounts.len() * payees.len() * 4) as u64, |i| {
			let mut x = Idx(i);
			let (key, payee, amount) = (x.take(2) as u8 + 1, x.pick(&payees).clone(), *x.pick(&amounts));
			let op = Op::Withdraw {
				amount,
				key,
				payee,
				fee: [546, 2000][x.take(2)],
			};
			judge(cfg, vec![build(BTC0 + 1, vec![op.tx(net, &w, 1)])])
		});
		for (name, outs) in [&k[0], &k[1], &k[2]] {
			let p = ref_op_return_data(outs[0].script_pubkey.as_bytes()).unwrap().to_vec();
			let all = if ctx.thorough() || p.len() < 30 { 255 } else { 8 };
			ctx.each(&format!("{net} {name}, one byte changed"), p.len() as u64 * all, |i| {
				let mut x = Idx(i);
				let (at, d) = (x.take(p.len()), x.take(all as usize));
				let mut q = p.clone();
				q[at] ^= if all == 8 { 1 << d } else { d as u8 + 1 };
				let mut o = outs.clone();
				o[0].script_pubkey = op_return(&q);
				judge(cfg, vec![build(BTC0 + 1, vec![place(1, &o)])])
			});
			ctx.each(&format!("{net} {name}, truncated"), p.len() as u64, |i| {
				let mut o = outs.clone();
				o[0].script_pubkey = op_return(&p[..i as usize]);
				judge(cfg, vec![build(BTC0 + 1, vec![place(1, &o)])])
			});
		}
	}
	let _ = deposit_payload;
}
