//! C24: commit addresses and reveal transactions agree.
use std::str::FromStr;

use bdk::bitcoin::{
	secp256k1::{Parity, Scalar, Secp256k1, XOnlyPublicKey},
	hashes::Hash,
	Amount, OutPoint, Script, Transaction, Txid,
};
use mc::{ensure, ensure_eq, fail, sha::sha256, CaseResult, Ctx, Fail, Idx};
use sbtc_core::operations::commit_reveal::{
	deposit::{deposit_commit_address, deposit_reveal_unsigned_tx, DepositData},
	utils::{commit, reveal, RevealInputs},
	withdrawal_request::{withdrawal_request_commit_address, withdrawal_request_reveal_unsigned_tx, WithdrawalData},
};
use stacks_core::codec::Codec;

use crate::{btc::*, c26::*, fix::*, wr::*};

fn tagged(tag: &str, data: &[u8]) -> [u8; 32] {
	let t = sha256(tag.as_bytes());
	sha256(&[&t, &t, data].concat())
}

fn push(d: &[u8]) -> Vec<u8> {
	let n = d.len();
	match n {
		0..=75 => [&[n as u8], d].concat(),
		76..=255 => [&[0x4c, n as u8], d].concat(),
		_ => [&[0x4d, n as u8, (n >> 8) as u8], d].concat(),
	}
}

pub struct RefTree {
	pub script: Vec<u8>,
	pub output: Vec<u8>,
	pub control: Vec<u8>,
}

/// BIP-341/342 by hand: two leaves of depth one under the unspendable key.
pub fn ref_tree(data: &[u8], revealer: &XOnlyPublicKey, reclaim: &XOnlyPublicKey) -> RefTree {
	let secp = Secp256k1::new();
	let internal = mc::unhex("50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0");
	let mut a = push(data);
	a.push(0x75);
	a.push(32);
	a.extend(revealer.serialize());
	a.push(0xac);
	let mut b = vec![32];
	b.extend(reclaim.serialize());
	b.push(0xac);
	let leaf = |s: &[u8]| {
		let mut v = vec![0xc0];
		if s.len() < 253 {
			v.push(s.len() as u8);
		} else {
			v.push(253);
			v.extend((s.len() as u16).to_le_bytes());
		}
		v.extend(s);
		tagged("TapLeaf", &v)
	};
	let (la, lb) = (leaf(&a), leaf(&b));
	let (x, y) = if la < lb { (la, lb) } else { (lb, la) };
	let root = tagged("TapBranch", &[x, y].concat());
	let tweak = tagged("TapTweak", &[&internal[..], &root].concat());
	let p = XOnlyPublicKey::from_slice(&internal).unwrap();
	let (q, parity) = p.add_tweak(&secp, &Scalar::from_be_bytes(tweak).unwrap()).unwrap();
	let mut output = vec![0x51, 32];
	output.extend(q.serialize());
	let mut control = vec![0xc0 | (parity == Parity::Odd) as u8];
	control.extend(&internal);
	control.extend(lb);
	RefTree { script: a, output, control }
}

fn check_reveal(tx: &Transaction, t: &RefTree, op: &OutPoint, magic: &[u8; 2], rest: &[(Script, u64)]) -> Result<(), Fail> {
	ensure_eq!(tx.version, 2, "version");
	ensure_eq!(tx.lock_time.0, 0, "lock time");
	ensure_eq!(tx.input.len(), 1usize, "inputs");
	ensure_eq!(tx.input[0].previous_output, *op, "spent output");
	ensure_eq!(tx.input[0].sequence.0, u32::MAX, "sequence");
	ensure!(tx.input[0].script_sig.is_empty(), "script_sig is not empty");
	let w = tx.input[0].witness.to_vec();
	ensure_eq!(w.iter().map(mc::hex).collect::<Vec<_>>(), vec![mc::hex(&t.script), mc::hex(&t.control)], "witness");
	let mut want = vec![(op_return(&[magic[0], magic[1], b'w']), 0)];
	want.extend_from_slice(rest);
	let got: Vec<(Script, u64)> = tx.output.iter().map(|o| (o.script_pubkey.clone(), o.value)).collect();
	ensure_eq!(got, want, "outputs");
	Ok(())
}

pub fn run(ctx: &Ctx) {
	ctx.rule("revealer x reclaim keys (including equal) x principals (both kinds, name lengths 1/2/39/40) x fees x commit amounts x spent outpoints (indices to 2^32-1) x address kinds, plus raw data of every push-encoding length 0..75/76/255/256/520: address, witness script, control block and outputs against a hand-computed BIP-341 tree; embedded data decodes to the request. Data codecs: every truncation, every opcode and recovery id value.");
	ctx.put("exhaustive", true);
	ctx.assume("Commit amounts cover the fees; the commit address network is testnet by design of the library.");
	let keys: Vec<XOnlyPublicKey> = public_keys().iter().map(|k| k.x_only_public_key().0).collect();
	let keys = &keys[..if ctx.thorough() { keys.len() } else { 5 }];
	let op = OutPoint::from_str("0101010101010101010101010101010101010101010101010101010101010101:3").unwrap();
	let vouts = [3u32, 0, 1, 255, 256, 65535, 65536, u32::MAX];
	let at = |i: u64| OutPoint {
		txid: if i % 5 == 0 { op.txid } else { Txid::from_inner(sha256(&[i as u8 % 7])) },
		vout: vouts[(i / 5 + i) as usize % 8],
	};
	let few = few_hashes();
	let long = "n".repeat(40);
	let names = [None, Some("a"), Some("ab"), Some(&long[..39]), Some(&long[..])];
	let fees = [0u64, 1, 546, 10_000, 1 << 33, u64::MAX];
	let large = [100_000u64, (1 << 32) + 3, (1 << 48) + 9, 2_100_000_000_000_000];
	let magics: [[u8; 2]; 3] = [*b"T2", *b"X2", [0, 255]];
	let nk = keys.len();
	ctx.each("deposit", (nk * nk * 4 * few.len() * names.len() * fees.len() * 3) as u64, |i| {
		let mut ix = Idx(i);
		let (rv, rc) = (ix.pick(keys), ix.pick(keys));
		let v = ix.take(4);
		let h = *ix.pick(&few);
		let n = *ix.pick(&names);
		let fee = *ix.pick(&fees);
		let extra = [0u64, 1, large[i as usize % 7 % 4]][ix.take(3)];
		let kind = i as usize % 5;
		let magic = &magics[i as usize % 3];
		let commit_amount = fee.saturating_add(extra);
		let mut bytes = vec![b'<'];
		bytes.extend(ref_principal_bytes(VERSION_BYTES[v], &h, n));
		bytes.extend(fee.to_be_bytes());
		mc::note(|| format!("deposit data {} commit {commit_amount}", mc::hex(&bytes)));
		let data = || DepositData {
			principal: principal(v, &h, n),
			reveal_fee: Amount::from_sat(fee),
		};
		ensure_eq!(mc::hex(data().serialize_to_vec()), mc::hex(&bytes), "deposit data bytes");
		let d = DepositData::deserialize(&mut &bytes[..]).map_err(|e| Fail::from(format!("deposit data refused: {e}")))?;
		ensure!(d.principal == data().principal && d.reveal_fee == data().reveal_fee, "deposit data does not survive a round trip");
		let t = ref_tree(&bytes, rv, rc);
		let a = deposit_commit_address(data(), rv, rc).map_err(|e| Fail::from(e.to_string()))?;
		ensure_eq!(mc::hex(a.script_pubkey().as_bytes()), mc::hex(&t.output), "commit address");
		let inputs = RevealInputs {
			commit_output: at(i),
			stacks_magic_bytes: magic,
			revealer_key: rv,
			reclaim_key: rc,
		};
		let to = address(kind, 4, bdk::bitcoin::Network::Testnet);
		let tx = deposit_reveal_unsigned_tx(data(), inputs, Amount::from_sat(commit_amount), to.clone()).map_err(|e| Fail::from(e.to_string()))?;
		check_reveal(&tx, &t, &at(i), magic, &[(to.script_pubkey(), commit_amount - fee)])?;
		Ok("deposit")
	});
	let amounts = [0u64, 1, 546, u64::MAX, 1 << 40];
	ctx.each("withdrawal", (nk * nk * amounts.len() * 4 * 4 * 3 * 5) as u64, |i| {
		let mut ix = Idx(i);
		let (rv, rc) = (ix.pick(keys), ix.pick(keys));
		let amount = *ix.pick(&amounts);
		let fee = fees[..4][ix.take(4)];
		let ff = [0u64, 1, 546, 1 << 34][ix.take(4)];
		let extra = [0u64, 1, large[i as usize % 7 % 4]][ix.take(3)];
		let kind = ix.take(5);
		let magic = &magics[i as usize % 3];
		let commit_amount = fee + ff + extra;
		let rcp = address(kind, 6, bdk::bitcoin::Network::Testnet);
		let sbtc = address((kind + 1 + (i as usize % 4)) % 5, 7, bdk::bitcoin::Network::Testnet);
		let sig = ref_sign(&secret_keys()[i as usize % 5], amount, rcp.script_pubkey().as_bytes(), bdk::bitcoin::Network::Testnet);
		let mut bytes = vec![b'>'];
		bytes.extend(amount.to_be_bytes());
		bytes.extend(&sig);
		bytes.extend(fee.to_be_bytes());
		mc::note(|| format!("withdrawal data {} commit {commit_amount}", mc::hex(&bytes)));
		let data = || WithdrawalData::deserialize(&mut &bytes[..]).map_err(|e| Fail::from(format!("withdrawal data refused: {e}")));
		let d = data()?;
		ensure_eq!((d.amount.to_sat(), d.reveal_fee.to_sat(), sig_bytes(&d.signature)), (amount, fee, sig.clone()), "withdrawal data fields");
		ensure_eq!(mc::hex(d.serialize_to_vec()), mc::hex(&bytes), "withdrawal data bytes");
		let t = ref_tree(&bytes, rv, rc);
		let a = withdrawal_request_commit_address(d, rv, rc).map_err(|e| Fail::from(e.to_string()))?;
		ensure_eq!(mc::hex(a.script_pubkey().as_bytes()), mc::hex(&t.output), "commit address");
		let inputs = RevealInputs {
			commit_output: at(i),
			stacks_magic_bytes: magic,
			revealer_key: rv,
			reclaim_key: rc,
		};
		let tx = withdrawal_request_reveal_unsigned_tx(data()?, inputs, Amount::from_sat(ff), Amount::from_sat(commit_amount), sbtc.clone(), rcp.clone()).map_err(|e| Fail::from(e.to_string()))?;
		check_reveal(&tx, &t, &at(i), magic, &[(rcp.script_pubkey(), extra), (sbtc.script_pubkey(), ff)])?;
		Ok("withdrawal")
	});
	let lens: Vec<usize> = (0..=130).chain([250, 251, 252, 253, 254, 255, 256, 257, 300, 519, 520]).collect();
	ctx.each("raw data", (nk * nk * lens.len()) as u64, |i| {
		let mut ix = Idx(i);
		let (rv, rc) = (ix.pick(keys), ix.pick(keys));
		let n = *ix.pick(&lens);
		let data: Vec<u8> = (0..n).map(|x| (x * 31 + 7) as u8).collect();
		let t = ref_tree(&data, rv, rc);
		mc::note(|| format!("{n} bytes of data"));
		let a = commit(&data, rv, rc).map_err(|e| Fail::from(e.to_string()))?;
		ensure_eq!(mc::hex(a.script_pubkey().as_bytes()), mc::hex(&t.output), "commit address");
		let tx = reveal(
			&data,
			RevealInputs {
				commit_output: at(i),
				stacks_magic_bytes: b"T2",
				revealer_key: rv,
				reclaim_key: rc,
			},
		)
		.map_err(|e| Fail::from(e.to_string()))?;
		check_reveal(&tx, &t, &at(i), b"T2", &[])?;
		Ok("raw data")
	});
	// codecs reject everything else
	let dep = |v: usize, n: Option<&str>| {
		let mut b = vec![b'<'];
		b.extend(ref_principal_bytes(VERSION_BYTES[v], &few[3], n));
		b.extend(77u64.to_be_bytes());
		b
	};
	let parse_dep = |b: &[u8]| -> CaseResult {
		let mut r = b;
		let got = DepositData::codec_deserialize(&mut r);
		let want = (b.first() == Some(&b'<')).then(|| ref_parse_principal(&b[1..])).flatten().filter(|p| b.len() >= 1 + p.3 + 8);
		match (got, want) {
			(Ok(d), Some((v, h, n, u))) => {
				ensure_eq!(parts(&d.principal), (v, h, n), "principal");
				ensure_eq!(d.reveal_fee.to_sat(), u64::from_be_bytes(b[1 + u..9 + u].try_into().unwrap()), "fee");
				ensure_eq!(b.len() - r.len(), 9 + u, "bytes used");
				Ok("data accepted")
			}
			(Err(_), None) => Ok("data rejected"),
			(g, w) => fail!("deposit data {}: accepted {}, expected {w:?}", mc::hex(b), g.is_ok()),
		}
	};
	ctx.each("deposit cuts", 80 * names.len() as u64, |i| {
		let mut ix = Idx(i);
		let l = ix.take(80);
		let mut b = dep(2, names[ix.take(names.len())]);
		b.resize(l, b'q');
		parse_dep(&b)
	});
	ctx.each("deposit header", 256 * 3 * 2, |i| {
		let mut ix = Idx(i);
		let c = ix.take(256) as u8;
		let p = ix.take(3);
		let mut b = dep(1, names[ix.take(2)]);
		b[p] = c;
		parse_dep(&b)
	});
	let wd = {
		let mut b = vec![b'>'];
		b.extend(5u64.to_be_bytes());
		b.extend(ref_sign(&secret_keys()[4], 5, scripts(1)[0].as_bytes(), bdk::bitcoin::Network::Testnet));
		b.extend(9u64.to_be_bytes());
		b
	};
	let parse_wd = |b: &[u8]| -> CaseResult {
		let mut r = b;
		let got = WithdrawalData::codec_deserialize(&mut r);
		let ok = b.len() >= 82 && b[0] == b'>' && b[9] <= 3;
		match got {
			Ok(d) if ok => {
				ensure_eq!(mc::hex(d.serialize_to_vec()), mc::hex(&b[..82]), "round trip");
				ensure_eq!(r.len(), b.len() - 82, "bytes left");
				Ok("data accepted")
			}
			Err(_) if !ok => Ok("data rejected"),
			g => fail!("withdrawal data {}: accepted {}, expected {ok}", mc::hex(b), g.is_ok()),
		}
	};
	ctx.each("withdrawal cuts", 90, |i| {
		let mut b = wd.clone();
		b.resize(i as usize, 1);
		parse_wd(&b)
	});
	ctx.each("withdrawal header", 512, |i| {
		let mut b = wd.clone();
		b[if i < 256 { 0 } else { 9 }] = i as u8;
		parse_wd(&b)
	});
}
