//! C29: WIF export/import.
use bdk::bitcoin::{secp256k1::SecretKey, util::base58};
use mc::{ensure, ensure_eq, sha::sha256d, CaseResult, Ctx, Idx};
use stacks_core::{crypto::wif::WIF, Network};

use crate::fix::*;

fn ref_bytes(prefix: u8, key: &[u8]) -> Vec<u8> {
	let mut b = vec![prefix];
	b.extend_from_slice(key);
	b.push(1);
	let c = sha256d(&b);
	b.extend_from_slice(&c[..4]);
	b
}

fn ref_base58(b: &[u8]) -> String {
	const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
	let z = b.iter().take_while(|x| **x == 0).count();
	let mut d: Vec<u32> = vec![];
	for x in b {
		let mut c = *x as u32;
		for v in d.iter_mut() {
			c += *v << 8;
			*v = c % 58;
			c /= 58;
		}
		while c > 0 {
			d.push(c % 58);
			c /= 58;
		}
	}
	let mut s = vec![b'1'; z];
	s.extend(d.iter().rev().map(|x| A[*x as usize]));
	String::from_utf8(s).unwrap()
}

fn valid(b: &[u8]) -> bool {
	b.len() == 38 && (b[0] == 128 || b[0] == 239) && SecretKey::from_slice(&b[1..33]).is_ok() && b[33] == 1 && sha256d(&b[..34])[..4] == b[34..]
}

fn parse(b: &[u8]) -> CaseResult {
	mc::note(|| format!("WIF bytes {}", mc::hex(b)));
	let want = valid(b);
	let r = WIF::from_bytes(b);
	ensure!(r.is_ok() == want, "WIF::from_bytes({}) ok={}, expected {want}", mc::hex(b), r.is_ok());
	let s = ref_base58(b);
	let r2 = WIF::try_from(s.clone());
	ensure!(r2.is_ok() == want, "WIF::try_from({s}) ok={}, expected {want}", r2.is_ok());
	if let (Ok(w), Ok(w2)) = (r, r2) {
		let net = if b[0] == 128 { Network::Mainnet } else { Network::Testnet };
		for w in [w, w2] {
			ensure!(w.network().ok() == Some(net), "network of {}", mc::hex(b));
			ensure!(w.private_key().ok().map(|k| k.secret_bytes().to_vec()) == Some(b[1..33].to_vec()), "key of {}", mc::hex(b));
			ensure_eq!(w.to_string(), s, "string form");
		}
		return Ok("accepted");
	}
	Ok("rejected")
}

pub fn run(ctx: &Ctx) {
	ctx.rule("both networks x boundary and hashed secret keys: byte-exact export; every single-bit flip, every value of each structural byte (with and without recomputed checksum), every length 0..=80, every single-character edit of the string form. Reference: hand-written base58, double SHA-256 and WIF layout; secret-key validity by libsecp256k1.");
	ctx.put("exhaustive", true);
	let keys = secret_keys();
	let nets = [(Network::Mainnet, 128u8), (Network::Testnet, 239u8)];
	ctx.each("export", 2 * keys.len() as u64, |i| {
		let mut ix = Idx(i);
		let (net, p) = nets[ix.take(2)];
		let k = *ix.pick(&keys);
		let b = ref_bytes(p, &k.secret_bytes());
		let w = WIF::new(net, k);
		ensure_eq!(w.to_string(), ref_base58(&b), "WIF of {}", mc::hex(k.secret_bytes()));
		ensure!(w.network().ok() == Some(net), "network");
		ensure!(w.private_key().ok() == Some(k), "private key");
		parse(&b)?;
		let back = WIF::try_from(w.to_string());
		ensure!(back.is_ok(), "own string form refused");
		Ok("export")
	});
	let bases: Vec<Vec<u8>> = keys.iter().flat_map(|k| nets.iter().map(|n| ref_bytes(n.1, &k.secret_bytes())).collect::<Vec<_>>()).collect();
	let nb = bases.len() as u64;
	ctx.each("bits", nb * 38 * 8, |i| {
		let mut ix = Idx(i);
		let mut b = ix.pick(&bases).clone();
		let p = ix.take(38);
		b[p] ^= 1 << ix.take(8);
		parse(&b)
	});
	// structural bytes with a correct checksum
	ctx.each("struct", 256 * 256, |i| {
		let mut b = ref_bytes((i % 256) as u8, &keys[5].secret_bytes());
		b[33] = (i / 256) as u8;
		let c = sha256d(&b[..34]);
		b[34..].copy_from_slice(&c[..4]);
		parse(&b)
	});
	// one key byte changed, checksum recomputed; includes invalid scalars
	let scalars: Vec<Vec<u8>> = [
		"0000000000000000000000000000000000000000000000000000000000000000",
		"0000000000000000000000000000000000000000000000000000000000000001",
		"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140",
		"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
		"fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142",
		"ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
	]
	.iter()
	.map(|s| mc::unhex(s))
	.collect();
	ctx.each("scalars", 6 * 2, |i| {
		let mut ix = Idx(i);
		let s = ix.pick(&scalars);
		parse(&ref_bytes(nets[ix.take(2)].1, s))
	});
	ctx.each("lengths", 81 * 2 * 2, |i| {
		let mut ix = Idx(i);
		let l = ix.take(81);
		let n = nets[ix.take(2)].1;
		let base = ref_bytes(n, &keys[6].secret_bytes());
		let mut b: Vec<u8> = base.iter().cycle().take(l).copied().collect();
		if ix.take(2) == 1 && l > 4 {
			let c = sha256d(&b[..l - 4]);
			b[l - 4..].copy_from_slice(&c[..4]);
		}
		parse(&b)
	});
	// uncompressed-form WIF (37 bytes) must not be taken for a compressed one
	ctx.each("uncompressed", keys.len() as u64 * 2, |i| {
		let mut ix = Idx(i);
		let mut b = vec![nets[ix.take(2)].1];
		b.extend_from_slice(&ix.pick(&keys).secret_bytes());
		let c = sha256d(&b);
		b.extend_from_slice(&c[..4]);
		parse(&b)
	});
	let affixed: Vec<String> = bases.iter().take(2).flat_map(|b| mc::affixed(&ref_base58(b))).collect();
	ctx.each("affixes", affixed.len() as u64, |i| {
		let m = &affixed[i as usize];
		let want = base58::from(m).map(|b| valid(&b)).unwrap_or(false);
		mc::note(|| format!("WIF {m:?}"));
		ensure!(WIF::try_from(m.clone()).is_ok() == want, "WIF::try_from({m:?}) should be ok={want}");
		Ok(if want { "accepted" } else { "rejected" })
	});
	// string edits
	let strs: Vec<String> = bases.iter().take(6).map(|b| ref_base58(b)).collect();
	let chars: Vec<char> = (0u8..128).map(|c| c as char).chain(['é', '１']).collect();
	ctx.each("edits", strs.len() as u64 * 56 * chars.len() as u64 * 3, |i| {
		let mut ix = Idx(i);
		let s = ix.pick(&strs);
		let p = ix.take(56);
		let c = *ix.pick(&chars);
		let mut v: Vec<char> = s.chars().collect();
		match ix.take(3) {
			0 if p < v.len() => v[p] = c,
			1 if p <= v.len() => v.insert(p, c),
			2 if p < v.len() && c == 'a' => {
				v.remove(p);
			}
			_ => return Ok("~n/a"),
		}
		let m: String = v.into_iter().collect();
		let want = base58::from(&m).map(|b| valid(&b)).unwrap_or(false);
		mc::note(|| format!("WIF {m:?}"));
		let r = WIF::try_from(m.clone());
		ensure!(r.is_ok() == want, "WIF::try_from({m:?}) ok={}, expected {want}", r.is_ok());
		Ok(if want { "accepted" } else { "rejected" })
	});
}
