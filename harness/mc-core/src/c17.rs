//! C17: deposit transactions are built as requested and parse back.
use bdk::bitcoin::Network;
use mc::{ensure, ensure_eq, fail, CaseResult, Ctx, Fail, Idx};
use sbtc_core::{
	operations::op_return::deposit::{build_deposit_transaction, Deposit, DepositOutputData},
	SBTCError,
};
use stacks_core::codec::Codec;

use crate::{btc::*, c26::*, fix::*};

pub fn deposit_payload(net: Network, v: u8, h: &[u8], name: Option<&str>) -> Vec<u8> {
	let mut d = ref_magic(net).to_vec();
	d.push(b'<');
	d.extend(ref_principal_bytes(v, h, name));
	d
}

#[allow(clippy::too_many_arguments)]
fn judge(
	net: Network,
	kind: usize,
	own: bool,
	r: &(usize, usize, Option<String>),
	cs: &[u64],
	amount: u64,
	seed: u8,
	res: Result<bdk::bitcoin::Transaction, SBTCError>,
	coins: &Coins,
	sbtc: &bdk::bitcoin::Address,
	rec: &stacks_core::utils::PrincipalData,
) -> CaseResult {
	let few = few_hashes();
	let dust = if own { ref_dust(2) } else { ref_dust(kind) };
	if amount < dust {
		return match res {
			Err(SBTCError::AmountInsufficient(a, d)) if a == amount && d == dust => Ok("dust refused"),
			o => fail!("deposit of {amount} below dust {dust}: {o:?}"),
		};
	}
	let total: u64 = cs.iter().sum();
	let tx = match res {
		Err(SBTCError::BDKError(..)) if total < amount.saturating_add(2000) => return Ok("not enough coins"),
		Err(e) => fail!("deposit of {amount} from {cs:?}: {e}"),
		Ok(t) => t,
	};
	let payload = deposit_payload(net, VERSION_BYTES[r.0], &few[r.1], r.2.as_deref());
	let script = if own { coins.script.clone() } else { scripts(seed)[kind].clone() };
	audit(&tx, coins, &[(op_return(&payload), 0), (script, amount)])?;
	let p = Deposit::parse(net, tx).map_err(|e| Fail::from(format!("own deposit refused: {e}")))?;
	ensure_eq!(p.amount, amount, "parsed amount");
	ensure!(p.recipient == *rec, "parsed recipient {:?}, expected {:?}", p.recipient, rec);
	ensure_eq!(p.sbtc_wallet_address.script_pubkey(), sbtc.script_pubkey(), "parsed wallet");
	ensure_eq!(p.sbtc_wallet_address.to_string(), sbtc.to_string(), "parsed wallet address");
	ensure_eq!(p.network, net, "parsed network");
	Ok("built and parsed")
}

pub fn run(ctx: &Ctx) {
	ctx.rule("networks x sBTC address kinds x recipients (both principal kinds, name lengths 1/2/39/40, every version) x amounts around 0/dust/available funds x coin sets (none, one, exact, several, one that must leave change equal to the deposit, and the wallet's own address as destination); each build repeated because the wallet library shuffles outputs. Every built transaction is audited: output order, exact payload bytes, values, change, every signature, no money created; then parsed back.");
	ctx.assume("Coin selection, fee estimation and PSBT signing are bdk's; the audit checks their result, not their choice.");
	let reps = if ctx.replay.is_some() { 40 } else { 3 };
	let few = few_hashes();
	let recips: Vec<(usize, usize, Option<String>)> = {
		let mut v = vec![];
		for ver in 0..4 {
			v.push((ver, 3, None));
			v.push((ver, 1, Some("asset".to_string())));
		}
		for l in [1usize, 2, 39, 40] {
			v.push((2, 4, Some("n".repeat(l))));
		}
		v
	};
	let coins: Vec<Vec<u64>> = vec![vec![], vec![100_000], vec![1000, 2000, 50_000], vec![600, 600, 600], vec![u64::from(u32::MAX) * 3, 1], vec![2_099_999_900_000_000, 50_000_000], vec![5_000; 300]];
	let seeds: [u8; 2] = [3, 77];
	let check = |net: Network, kind: usize, own: bool, r: &(usize, usize, Option<String>), cs: &[u64], amount: u64, seed: u8| -> CaseResult {
		let (w, coins) = wallet(net, seed, cs);
		let sbtc = if own {
			bdk::bitcoin::Address::from_script(&coins.script, net).unwrap()
		} else {
			address(kind, seed, net)
		};
		let rec = principal(r.0, &few[r.1], r.2.as_deref());
		mc::note(|| format!("{net} kind {kind} own={own} {r:?} coins {cs:?} amount {amount}"));
		// the other builder, used when the wallet comes from a private key
		#[cfg(verif)]
		let psbt = sbtc_core::operations::op_return::deposit::verif_partially_signed_deposit(&w, rec.clone(), &sbtc, amount, net).and_then(|mut p| {
			w.sign(&mut p, bdk::SignOptions::default()).unwrap();
			Ok(p.extract_tx())
		});
		let res = build_deposit_transaction(w, rec.clone(), sbtc.clone(), amount, net);
		#[cfg(verif)]
		judge(net, kind, own, r, cs, amount, seed, psbt, &coins, &sbtc, &rec)?;
		judge(net, kind, own, r, cs, amount, seed, res, &coins, &sbtc, &rec)
	};
	let amts = |dust: u64, total: u64| -> Vec<u64> {
		let mut v = vec![0, 1, dust - 1, dust, dust + 1, 10_000, total / 2, total.saturating_sub(400), total.saturating_sub(160), total, total.saturating_add(1), 1 << 32, (1 << 48) - 1, 1 << 48, (1 << 48) + 12_345, 2_100_000_000_000_000, u64::MAX / 2];
		v.sort();
		v.dedup();
		v
	};
	let na = 17usize;
	ctx.each("build", 4 * 5 * recips.len() as u64 * coins.len() as u64 * na as u64, |i| {
		let mut ix = Idx(i);
		let net = *ix.pick(&NETS);
		let kind = ix.take(5);
		let r = ix.pick(&recips);
		let cs = ix.pick(&coins);
		let am = amts(ref_dust(kind), cs.iter().sum());
		let a = ix.take(na);
		if a >= am.len() {
			return Ok("~n/a");
		}
		// thin: all amounts with every recipient only on the first two coin sets
		if !ctx.thorough() && cs.len() != 1 && r.1 != 3 {
			return Ok("~thinned");
		}
		let mut out = "";
		for _ in 0..if cs.is_empty() { 1 } else { reps } {
			out = match check(net, kind, false, r, cs, am[a], seeds[kind % 2]) {
				Ok(o) => o,
				e => return e,
			};
			if out != "built and parsed" {
				break;
			}
		}
		Ok(out)
	});
	// depositing to the wallet's own address: change may equal the deposit
	ctx.each("own", 4 * 3 * 400, |i| {
		let mut ix = Idx(i);
		let net = *ix.pick(&NETS);
		let r = ix.pick(&recips[..3]);
		let d = ix.take(400) as u64;
		check(net, 2, true, r, &[100_000], 49_700 + d, 5)
	});
	// the data output codec
	ctx.each("payload", 4 * 4 * few.len() as u64 * 52, |i| {
		let mut ix = Idx(i);
		let net = *ix.pick(&NETS);
		let v = ix.take(4);
		let h = *ix.pick(&few);
		let names = contract_names();
		let k = ix.take(52);
		if k > names.len() {
			return Ok("~n/a");
		}
		let name = if k == 0 { None } else { Some(names[k - 1].as_str()) };
		let b = deposit_payload(net, VERSION_BYTES[v], &h, name);
		let mut r = &b[..];
		let d = DepositOutputData::codec_deserialize(&mut r).map_err(|e| Fail::from(format!("payload {} refused: {e}", mc::hex(&b))))?;
		ensure!(r.is_empty(), "payload not consumed");
		ensure_eq!(d.serialize_to_vec(), b, "payload does not survive a round trip");
		Ok("payload")
	});
}
