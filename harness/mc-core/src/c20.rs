//! C20: the withdrawal signature binds signer, amount and payee.
use bdk::bitcoin::{
	secp256k1::{ecdsa::RecoverableSignature, Secp256k1},
	Network, Script,
};
use mc::{ensure, ensure_eq, Ctx, Fail, Idx};
use sbtc_core::operations::op_return::withdrawal_request::{create_signature, create_signing_message, create_withdrawal_request_signing_message, recover_signature, WithdrawalRequestDataOutputData};
use stacks_core::codec::Codec;

use crate::{btc::*, fix::*, wr::*};

pub fn run(ctx: &Ctx) {
	ctx.rule("signing keys (scalar edges and hashes) x amounts (0, powers of two and their neighbours, powers of ten and their neighbours, u64 max) x payee scripts (five kinds, two hashes, taproot-like programs of every length 2..40) x networks; for each: message hash against an independent encoder, recovery gives the signer; every ordered pair of different (amount, payee, network-text) gives another key; every single-bit flip of the signature never gives the signer's key.");
	ctx.put("exhaustive", true);
	let keys = secret_keys();
	let mut amounts: Vec<u64> = vec![0, 1, 2, 9, u64::MAX, u64::MAX - 1];
	for k in 0..64 {
		let p = 1u64 << k;
		amounts.extend([p - 1, p, p.saturating_add(1)]);
	}
	let mut t = 1u64;
	for _ in 0..19 {
		amounts.extend([t - 1, t, t + 1]);
		t = t.saturating_mul(10);
	}
	amounts.sort();
	amounts.dedup();
	let mut payees: Vec<Script> = scripts(1);
	payees.extend(scripts(2));
	for l in 2..=40u8 {
		for v in [0x52u8, 0x60] {
			let mut s = vec![v, l];
			s.extend((0..l).map(|i| i ^ v));
			payees.push(Script::from(s));
		}
	}
	let secp = Secp256k1::new();
	ctx.each("message", amounts.len() as u64 * payees.len() as u64 * 4, |i| {
		let mut ix = Idx(i);
		let a = *ix.pick(&amounts);
		let s = ix.pick(&payees);
		let net = *ix.pick(&NETS);
		let addr = bdk::bitcoin::Address::from_script(s, net).map_err(|e| Fail::from(e.to_string()))?;
		mc::note(|| format!("{a} sat to {addr}"));
		ensure_eq!(addr.to_string(), ref_address_text(s.as_bytes(), net).unwrap(), "address text");
		let m = create_withdrawal_request_signing_message(a, &addr);
		ensure_eq!(mc::hex(m.as_ref()), mc::hex(ref_message(a, s.as_bytes(), net)), "message hash for {a} to {addr}");
		let key = keys[i as usize % keys.len()];
		let sig = create_signature(&key, &addr, a);
		ensure_eq!(mc::hex(sig_bytes(&sig)), mc::hex(ref_sign(&key, a, s.as_bytes(), net)), "signature");
		let pk = recover_signature(a, &addr, &sig).map_err(|e| Fail::from(format!("own signature: {e}")))?;
		ensure_eq!(pk, key.public_key(&secp), "recovered key");
		let d = WithdrawalRequestDataOutputData::new(&addr, &key, a, net);
		ensure_eq!(d.serialize_to_vec(), request_payload(net, a, &sig_bytes(&sig)), "data output");
		ensure_eq!(d.amount(), a, "amount accessor");
		ensure_eq!(d.network(), net, "network accessor");
		ensure_eq!(sig_bytes(&d.signature()), sig_bytes(&sig), "signature accessor");
		Ok("message and signature")
	});
	// arbitrary text of every length the one-byte length prefix can express
	ctx.each("text length", 256, |i| {
		let text: Vec<u8> = (0..i as usize).map(|x| (x * 7) as u8).collect();
		let mut m = vec![23u8];
		m.extend_from_slice(b"Stacks Signed Message:\n");
		m.push(i as u8);
		m.extend(&text);
		ensure_eq!(mc::hex(create_signing_message(&text).as_ref()), mc::hex(mc::sha::sha256(&m)), "hash of {} byte text", i);
		Ok("text")
	});
	// a signature for one request is never the signer's for another
	let pool: Vec<(u64, Script, Network)> = {
		let mut v = vec![];
		for a in [0u64, 1, 10, 100, 1000, 1001, 256, 1 << 32, 1 << 40, u64::MAX] {
			for s in &payees[..if ctx.thorough() { 12 } else { 6 }] {
				for n in [Network::Bitcoin, Network::Testnet, Network::Regtest] {
					v.push((a, s.clone(), n));
				}
			}
		}
		v
	};
	let n = pool.len() as u64;
	ctx.each("pairs", n * n, |i| {
		let mut ix = Idx(i);
		let (x, y) = (ix.pick(&pool), ix.pick(&pool));
		let key = keys[5];
		let at = |e: &(u64, Script, Network)| bdk::bitcoin::Address::from_script(&e.1, e.2).unwrap();
		// base58 test networks share one text form
		let same = x.0 == y.0 && at(x).to_string() == at(y).to_string();
		let sig = RecoverableSignature::from_compact(&ref_sign(&key, x.0, x.1.as_bytes(), x.2)[1..], bdk::bitcoin::secp256k1::ecdsa::RecoveryId::from_i32(ref_sign(&key, x.0, x.1.as_bytes(), x.2)[0] as i32).unwrap()).unwrap();
		let got = recover_signature(y.0, &at(y), &sig).ok();
		mc::note(|| format!("signed {} to {}, presented for {} to {}", x.0, at(x), y.0, at(y)));
		let signer = got == Some(key.public_key(&secp));
		ensure!(signer == same, "a signature for {} to {} {} {} to {}", x.0, at(x), if signer { "also authorises" } else { "does not authorise" }, y.0, at(y));
		Ok(if same { "same request" } else { "other request" })
	});
	ctx.each("bit flips", 65 * 8 * 6, |i| {
		let mut ix = Idx(i);
		let (byte, bit) = (ix.take(65), ix.take(8));
		let s = &payees[ix.take(6)];
		let addr = bdk::bitcoin::Address::from_script(s, Network::Testnet).unwrap();
		let key = keys[6];
		let mut b = ref_sign(&key, 1000, s.as_bytes(), Network::Testnet);
		b[byte] ^= 1 << bit;
		let mut r = &b[..];
		let Ok(sig) = RecoverableSignature::codec_deserialize(&mut r) else {
			ensure!(byte == 0 && b[0] > 3 || ref_recover(1000, s.as_bytes(), Network::Testnet, &b).is_none(), "valid signature bytes refused");
			return Ok("flip refused");
		};
		let got = recover_signature(1000, &addr, &sig).ok();
		ensure_eq!(got, ref_recover(1000, s.as_bytes(), Network::Testnet, &b), "recovered key");
		ensure!(got != Some(key.public_key(&secp)), "a damaged signature still gives the signer");
		Ok("flip gives another key")
	});
}
