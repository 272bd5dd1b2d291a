//! C31: the four address hash forms.
use mc::{ensure_eq, sha, Ctx, Idx};
use stacks_core::{address::StacksAddress, crypto::PublicKey};

use crate::fix::*;

fn multisig(keys: &[PublicKey], m: usize) -> Vec<u8> {
	let mut s = vec![0x50 + m as u8];
	for k in keys {
		s.push(33);
		s.extend_from_slice(&k.serialize());
	}
	s.push(0x50 + keys.len() as u8);
	s.push(0xae);
	s
}

pub fn run(ctx: &Ctx) {
	ctx.rule("every key list of length 1..=16 drawn as a rotation/permutation/repetition of 12 keys (both parities), every threshold 1..=n, every address version, all four hash forms; all ordered pairs and triples of keys. Compared with scripts assembled byte by byte and an independent SHA-256/RIPEMD-160.");
	ctx.assume("Segwit-wrapped key lists longer than 16 cannot be expressed with small-integer opcodes and are outside the domain; plain ones are checked to 40 keys.");
	ctx.put("exhaustive", true);
	let keys = public_keys();
	let nk = keys.len();
	ctx.each("single", nk as u64 * 4, |i| {
		let mut ix = Idx(i);
		let k = keys[ix.take(nk)];
		let v = ix.take(4);
		let h = sha::hash160(&k.serialize());
		ensure_eq!(StacksAddress::p2pkh(VERSIONS[v], &k).to_string(), ref_address(VERSION_BYTES[v], &h), "p2pkh of {k}");
		ensure_eq!(StacksAddress::from_public_key(VERSIONS[v], &k).to_string(), ref_address(VERSION_BYTES[v], &h), "from_public_key of {k}");
		let mut s = vec![0u8, 20];
		s.extend_from_slice(&h);
		ensure_eq!(StacksAddress::p2wpkh(VERSIONS[v], &k).to_string(), ref_address(VERSION_BYTES[v], &sha::hash160(&s)), "p2wpkh of {k}");
		mc::note(|| format!("{k} {:?}", VERSIONS[v]));
		Ok("single key")
	});
	// p2sh lists longer than a small integer can count (the script then pushes the number)
	ctx.each("long lists", 4 * 24 * 24 * 3, |i| {
		let mut ix = Idx(i);
		let v = ix.take(4);
		let (n, m, rot) = (ix.take(24) + 17, ix.take(24) + 1, ix.take(3));
		if m > n {
			return Ok("~n/a");
		}
		let list: Vec<PublicKey> = (0..n).map(|j| keys[(rot * 5 + j) % nk]).collect();
		let num = |x: usize| if x <= 16 { vec![0x50 + x as u8] } else { vec![1, x as u8] };
		let mut s = num(m);
		for k in &list {
			s.push(33);
			s.extend_from_slice(&k.serialize());
		}
		s.extend(num(n));
		s.push(0xae);
		mc::note(|| format!("{m}-of-{n} {:?}", VERSIONS[v]));
		ensure_eq!(StacksAddress::p2sh(VERSIONS[v], &list, m).to_string(), ref_address(VERSION_BYTES[v], &sha::hash160(&s)), "p2sh {m}-of-{n}");
		Ok("long list")
	});
	let multi = |list: &[PublicKey], m: usize, v: usize| {
		let s = multisig(list, m);
		let a = StacksAddress::p2sh(VERSIONS[v], list, m);
		ensure_eq!(a.to_string(), ref_address(VERSION_BYTES[v], &sha::hash160(&s)), "p2sh {m}-of-{}", list.len());
		let mut w = vec![0u8, 32];
		w.extend_from_slice(&sha::sha256(&s));
		let a = StacksAddress::p2wsh(VERSIONS[v], list, m);
		ensure_eq!(a.to_string(), ref_address(VERSION_BYTES[v], &sha::hash160(&w)), "p2wsh {m}-of-{}", list.len());
		mc::note(|| format!("{m}-of-{} {:?}", list.len(), VERSIONS[v]));
		Ok("multi key")
	};
	ctx.each("multi", 16 * 16 * nk as u64 * 4 * 4, |i| {
		let mut ix = Idx(i);
		let n = ix.take(16) + 1;
		let m = ix.take(16) + 1;
		let rot = ix.take(nk);
		let v = ix.take(4);
		let step = [1usize, 5, 7, 0][ix.take(4)];
		if m > n {
			return Ok("~n/a");
		}
		let list: Vec<PublicKey> = (0..n).map(|j| keys[(rot + j * step) % nk]).collect();
		multi(&list, m, v)
	});
	ctx.each("pairs and triples", (nk as u64).pow(3) * 3 * 2, |i| {
		let mut ix = Idx(i);
		let l = [*ix.pick(&keys), *ix.pick(&keys), *ix.pick(&keys)];
		let m = ix.take(3) + 1;
		if ix.take(2) == 0 {
			multi(&l, m, 1)
		} else {
			multi(&l[..2], m.min(2), 3)
		}
	});
}
