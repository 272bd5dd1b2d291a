//! C37: broadcast sends exactly the transaction it is given.
use bdk::bitcoin::{consensus::serialize, hashes::Hash, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use mc::{ensure, ensure_eq, CaseResult, Ctx, Fail, Idx};

use crate::server::*;

fn tx(inputs: usize, outputs: usize, witness: usize, script: usize, version: i32, lock: u32) -> Transaction {
	Transaction {
		version,
		lock_time: PackedLockTime(lock),
		input: (0..inputs)
			.map(|i| TxIn {
				previous_output: OutPoint {
					txid: Txid::from_inner([i as u8 + 9; 32]),
					vout: i as u32 * 70_000,
				},
				script_sig: Script::from(vec![0x51; script]),
				sequence: Sequence(0xffff_ffff - i as u32),
				witness: Witness::from_vec((0..witness).map(|w| vec![w as u8; w * 40]).collect()),
			})
			.collect(),
		output: (0..outputs)
			.map(|i| TxOut {
				value: [0, 1, 546, 2_100_000_000_000_000][i % 4],
				script_pubkey: Script::from(vec![0x6a; [0, 22, 252, 253][i % 4]]),
			})
			.collect(),
	}
}

fn judge(t: &Transaction, upper: bool, chain: Chain) -> CaseResult {
	let hex = mc::hex(serialize(t));
	let arg = if upper { hex.to_uppercase() } else { hex.clone() };
	let (reject, faults) = (chain.reject, chain.faults.clone());
	mc::note(|| format!("broadcast {hex} {faults:?}"));
	let s = Server::start(chain);
	let r = sbtc(&["broadcast".into(), s.url(), arg]);
	let seen = s.stop();
	let r = r?;
	ensure!(seen.bad.is_empty(), "odd requests {:?}", seen.bad);
	for b in &seen.broadcast {
		ensure_eq!(*b, hex, "transaction sent");
	}
	if reject || faults.iter().any(|f| f.1 == Fault::Error) {
		r.refused()?;
		return Ok("refusal reported");
	}
	if faults.len() > 1 || faults.iter().any(|f| f.1 == Fault::Garbage) {
		if r.ok {
			ensure!(!seen.broadcast.is_empty(), "claims to have sent it");
		} else {
			r.refused()?;
		}
		return Ok("fault reported");
	}
	ensure!(!seen.broadcast.is_empty(), "nothing sent");
	let mut bare = t.clone();
	bare.input.iter_mut().for_each(|i| i.witness.clear());
	let mut id = mc::sha::sha256d(&serialize(&bare));
	id.reverse();
	ensure_eq!(r.json()?, serde_json::json!(mc::hex(id)), "id printed");
	if faults.is_empty() {
		ensure_eq!(seen.broadcast.len(), 1usize, "times sent");
	}
	Ok("sent")
}

pub fn run(ctx: &Ctx) {
	ctx.rule("all transactions of up to 3 inputs and 4 outputs with each shape of witnesses, scripts, version and lock time; a server that refuses; every fault of the server; every truncation, extension and non-hex text. What the loopback server receives must be exactly the bytes given, and what is printed its id; a text that is no transaction is never sent.");
	ctx.each("transactions", 3 * 4 * 3 * 3 * 3, |i| {
		let mut x = Idx(i);
		let t = tx(1 + x.take(3), 1 + x.take(4), x.take(3), [0, 1, 253][x.take(3)], [1, 2, i32::MAX][x.take(3)], [0, 1, 499_999_999, u32::MAX][(i % 4) as usize]);
		judge(&t, i % 5 == 0, Chain::default())
	});
	let words = [
		"",
		"the transaction was rejected by network rules.\n\nTransaction already in block chain\n[02]",
		"the transaction was rejected by network rules.\n\ntxn-already-in-mempool\n[02]",
		"the transaction was rejected by network rules.\n\ntxn-mempool-conflict",
		"the transaction was rejected by network rules.\n\nmin relay fee not met, 0 < 110",
		"timeout",
	];
	ctx.each("refused by the server", 3 * 3 * words.len() as u64, |i| {
		let mut x = Idx(i);
		judge(&tx(1 + x.take(3), 1, x.take(3), 0, 2, 0), false, Chain {
			reject: true,
			words: x.pick(&words),
			..Default::default()
		})
	});
	let kinds = [Fault::Lost, Fault::AnswerLost, Fault::Error, Fault::Garbage];
	ctx.each("faults", 4 + 16, |i| {
		let mut faults = vec![(0, kinds[i as usize % 4])];
		if i >= 4 {
			faults.push((1, kinds[(i as usize - 4) / 4]));
		}
		judge(&tx(2, 2, 2, 0, 2, 0), false, Chain {
			faults,
			..Default::default()
		})
	});
	let t = tx(1, 2, 2, 3, 2, 0);
	let hex = mc::hex(serialize(&t));
	let mut bad: Vec<String> = (0..hex.len()).map(|n| hex[..n].to_string()).collect();
	bad.extend([format!("{hex}0"), format!("{hex}00"), format!("0x{hex}"), format!(" {hex}"), format!("{hex}\n"), "x".into(), "zz".into()]);
	for p in 0..hex.len() {
		let mut b = hex.clone();
		b.replace_range(p..p + 1, "g");
		bad.push(b);
	}
	let s = Server::start(Chain::default());
	let url = s.url();
	ctx.each("no transaction", bad.len() as u64, |i| {
		mc::note(|| bad[i as usize].clone());
		sbtc(&["broadcast".into(), url.clone(), bad[i as usize].clone()])?.refused()?;
		Ok("refused")
	});
	for v in [vec!["broadcast"], vec!["broadcast", &url], vec!["broadcast", "", &hex], vec!["broadcast", &hex], vec!["broadcast", &url, &hex, &hex]] {
		ctx.case(format!("{} arguments, {:?}", v.len(), v.get(1).map(|x| x.len())), || {
			sbtc(&v.iter().map(|s| s.to_string()).collect::<Vec<_>>())?.refused()?;
			Ok("refused")
		});
	}
	let seen = s.stop();
	ctx.case("nothing sent", || {
		ensure!(seen.broadcast.is_empty(), "sent {:?}", seen.broadcast);
		Ok("nothing sent")
	});
	let _: Option<Fail> = None;
}
