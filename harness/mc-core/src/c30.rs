//! C30: wallet derivation.
use std::str::FromStr;

use bdk::{
	bitcoin::{
		hashes::{hmac, sha256, sha512, Hash, HashEngine, Hmac},
		secp256k1::{Scalar, Secp256k1, SecretKey},
		util::bip32::DerivationPath,
		AddressType, Network as BNet,
	},
	keys::bip39::Mnemonic,
};
use mc::{
	ensure, ensure_eq, fail,
	sha::{hash160, sha256 as refsha},
	CaseResult, Ctx, Idx,
};
use stacks_core::{
	wallet::{bitcoin_derivation_path, stacks_derivation_path, BitcoinCredentials, Credentials, Wallet},
	Network,
};

use crate::fix::ref_address;

fn hmac512(key: &[u8], data: &[u8]) -> [u8; 64] {
	let mut e = hmac::HmacEngine::<sha512::Hash>::new(key);
	e.input(data);
	Hmac::<sha512::Hash>::from_engine(e).into_inner()
}

fn seed(m: &str) -> [u8; 64] {
	// PBKDF2-HMAC-SHA512, 2048 rounds, one block
	let mut u = hmac512(m.as_bytes(), b"mnemonic\0\0\0\x01");
	let mut t = u;
	for _ in 1..2048 {
		u = hmac512(m.as_bytes(), &u);
		for (a, b) in t.iter_mut().zip(u) {
			*a ^= b;
		}
	}
	t
}

#[derive(Clone, Copy)]
pub struct X {
	pub k: SecretKey,
	c: [u8; 32],
}

fn split(i: [u8; 64]) -> ([u8; 32], [u8; 32]) {
	(i[..32].try_into().unwrap(), i[32..].try_into().unwrap())
}

pub fn master(m: &str) -> X {
	let (l, r) = split(hmac512(b"Bitcoin seed", &seed(m)));
	X {
		k: SecretKey::from_slice(&l).unwrap(),
		c: r,
	}
}

/// BIP-32 private derivation by hand.
pub fn derive(x: X, path: &[u32]) -> X {
	let secp = Secp256k1::new();
	let mut x = x;
	for i in path {
		let mut d = vec![];
		if i >> 31 == 1 {
			d.push(0);
			d.extend_from_slice(&x.k.secret_bytes());
		} else {
			d.extend_from_slice(&x.k.public_key(&secp).serialize());
		}
		d.extend_from_slice(&i.to_be_bytes());
		let (l, r) = split(hmac512(&x.c, &d));
		x = X {
			k: x.k.add_tweak(&Scalar::from_be_bytes(l).unwrap()).unwrap(),
			c: r,
		};
	}
	x
}

pub const H: u32 = 1 << 31;

pub fn mnemonics(th: bool) -> Vec<String> {
	let mut v = vec![];
	for len in [16usize, 20, 24, 28, 32] {
		for e in [vec![0u8; len], vec![0x7f; len], vec![0xff; len], refsha(&[len as u8])[..len].to_vec()] {
			v.push(Mnemonic::from_entropy(&e).unwrap().to_string());
		}
	}
	if th {
		for i in 0..40u8 {
			v.push(Mnemonic::from_entropy(&refsha(&[9, i])).unwrap().to_string());
		}
	}
	v
}

/// BIP-39: 12, 15, 18, 21 or 24 words, each from the list, whose last bits are
/// the start of the hash of the others.
pub fn ref_mnemonic(w: &[&str]) -> bool {
	if !matches!(w.len(), 12 | 15 | 18 | 21 | 24) {
		return false;
	}
	let list = bdk::keys::bip39::Language::English.word_list();
	let mut bits: Vec<bool> = vec![];
	for x in w {
		let Some(n) = list.iter().position(|y| y == x) else {
			return false;
		};
		bits.extend((0..11).rev().map(|b| n >> b & 1 == 1));
	}
	let ent = w.len() * 32 / 3;
	let bytes: Vec<u8> = bits[..ent].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | *b as u8)).collect();
	let h = refsha(&bytes);
	bits[ent..].iter().enumerate().all(|(i, b)| (h[i / 8] >> (7 - i % 8) & 1 == 1) == *b)
}

pub fn b58check(v: u8, h: &[u8]) -> String {
	let mut b = vec![v];
	b.extend_from_slice(h);
	bdk::bitcoin::util::base58::check_encode_slice(&b)
}

pub fn p2tr_script(k: &SecretKey) -> Vec<u8> {
	let secp = Secp256k1::new();
	let (x, _) = k.public_key(&secp).x_only_public_key();
	let tag = sha256::Hash::hash(b"TapTweak").into_inner();
	let mut d = tag.to_vec();
	d.extend_from_slice(&tag);
	d.extend_from_slice(&x.serialize());
	let t = refsha(&d);
	let (q, _) = x.add_tweak(&secp, &Scalar::from_be_bytes(t).unwrap()).unwrap();
	let mut s = vec![0x51, 32];
	s.extend_from_slice(&q.serialize());
	s
}

pub fn wif(prefix: u8, k: &SecretKey) -> String {
	let mut b = k.secret_bytes().to_vec();
	b.push(1);
	b58check(prefix, &b)
}

pub fn run(ctx: &Ctx) {
	ctx.rule("mnemonics of every size over edge entropies x indices (0,1,2,9,10,44,2^31-2,2^31-1, and refused 2^31, 2^32-1) x both Stacks and all four Bitcoin networks; every derived key, address and WIF compared with a hand-written BIP-32/BIP-39/BIP-86 derivation; every single-word substitution from a probe list must be refused unless its BIP-39 checksum is right, as must every list of 0..60 words that is not a mnemonic; 96 random wallets use every bit of their entropy independently; network names in every letter case.");
	ctx.put("exhaustive", true);
	let ms = mnemonics(ctx.thorough());
	let idx: Vec<u32> = [0u32, 1, 2, 9, 10, 44, 5757, 65536, H - 2, H - 1].into();
	let masters: Vec<std::sync::OnceLock<(X, Wallet)>> = ms.iter().map(|_| Default::default()).collect();
	let get = |i: usize| masters[i].get_or_init(|| (master(&ms[i]), Wallet::new(&ms[i]).expect("valid mnemonic refused")));
	ctx.each("wallet", ms.len() as u64, |i| {
		let m = &ms[i as usize];
		let (x, w) = get(i as usize);
		mc::note(|| m.clone());
		ensure_eq!(w.master_key(), x.k, "master key of {m:?}");
		ensure_eq!(w.mnemonic().to_string(), *m, "mnemonic");
		ensure_eq!(w.wif(Network::Mainnet).to_string(), wif(128, &x.k), "mainnet WIF");
		ensure_eq!(w.wif(Network::Testnet).to_string(), wif(239, &x.k), "testnet WIF");
		let w2: Wallet = serde_json::from_str(&serde_json::to_string(w).unwrap()).map_err(|e| mc::Fail::from(e.to_string()))?;
		ensure_eq!(w2.master_key(), x.k, "master key after JSON");
		ensure_eq!(w2.mnemonic().to_string(), *m, "mnemonic after JSON");
		ensure_eq!(w2.credentials(Network::Testnet, 3).unwrap().private_key(), w.credentials(Network::Testnet, 3).unwrap().private_key(), "derivation after JSON");
		Ok("wallet")
	});
	let secp = Secp256k1::new();
	ctx.each("stacks", ms.len() as u64 * idx.len() as u64 * 2, |i| {
		let mut ix = Idx(i);
		let (x, w) = get(ix.take(ms.len()));
		let n = *ix.pick(&idx);
		let (net, ver, wp) = [(Network::Mainnet, 22u8, 128u8), (Network::Testnet, 26, 239)][ix.take(2)];
		mc::note(|| format!("{net:?} index {n}"));
		let want = derive(*x, &[44 | H, 5757 | H, H, 0, n]).k;
		let c = w.credentials(net, n).map_err(|e| mc::Fail::from(format!("index {n}: {e}")))?;
		ensure_eq!(c.private_key(), want, "Stacks key at index {n}");
		ensure_eq!(c.public_key(), want.public_key(&secp), "Stacks public key");
		ensure_eq!(c.network(), net, "network");
		ensure_eq!(c.address().to_string(), ref_address(ver, &hash160(&want.public_key(&secp).serialize())), "Stacks address {net:?} index {n}");
		ensure_eq!(c.wif().to_string(), wif(wp, &want), "WIF");
		let c2: Credentials = serde_json::from_str(&serde_json::to_string(&c).unwrap()).map_err(|e| mc::Fail::from(e.to_string()))?;
		ensure!(c2.private_key() == want && c2.network() == net, "credentials after JSON");
		Ok("stacks")
	});
	let nets = [BNet::Bitcoin, BNet::Testnet, BNet::Signet, BNet::Regtest];
	ctx.each("bitcoin", ms.len() as u64 * idx.len() as u64 * 4, |i| {
		let mut ix = Idx(i);
		let (x, w) = get(ix.take(ms.len()));
		let n = *ix.pick(&idx);
		let net = *ix.pick(&nets);
		mc::note(|| format!("{net:?} index {n}"));
		let coin = if net == BNet::Bitcoin { 0 } else { 1 };
		let c = w.bitcoin_credentials(net, n).map_err(|e| mc::Fail::from(format!("index {n}: {e}")))?;
		let k = |p: u32| derive(*x, &[p | H, coin | H, n | H, 0, 0]).k;
		let (a, b, t) = (k(44), k(84), k(86));
		ensure_eq!(c.private_key_p2pkh(), a, "P2PKH key {net} {n}");
		ensure_eq!(c.private_key_p2wpkh(), b, "P2WPKH key {net} {n}");
		ensure_eq!(c.private_key_p2tr(), t, "P2TR key {net} {n}");
		ensure_eq!(c.public_key_p2pkh(), a.public_key(&secp), "P2PKH public key");
		ensure_eq!(c.public_key_p2wpkh(), b.public_key(&secp), "P2WPKH public key");
		ensure_eq!(c.public_key_p2tr(), t.public_key(&secp), "P2TR public key");
		ensure_eq!(c.network(), net, "network");
		let main = net == BNet::Bitcoin;
		let wp = if main { 128 } else { 239 };
		ensure_eq!(c.wif_p2pkh().to_string(), wif(wp, &a), "P2PKH WIF");
		ensure_eq!(c.wif_p2wpkh().to_string(), wif(wp, &b), "P2WPKH WIF");
		ensure_eq!(c.wif_p2tr().to_string(), wif(wp, &t), "P2TR WIF");
		ensure_eq!(c.address_p2pkh().to_string(), b58check(if main { 0 } else { 111 }, &hash160(&a.public_key(&secp).serialize())), "P2PKH address");
		let hrp = match net {
			BNet::Bitcoin => "bc1",
			BNet::Regtest => "bcrt1",
			_ => "tb1",
		};
		let wa = c.address_p2wpkh();
		let mut ws = vec![0u8, 20];
		ws.extend_from_slice(&hash160(&b.public_key(&secp).serialize()));
		ensure_eq!(wa.script_pubkey().to_bytes(), ws, "P2WPKH script");
		ensure!(wa.to_string().starts_with(hrp) && wa.network == net, "P2WPKH address network: {wa}");
		let ta = c.address_p2tr();
		ensure_eq!(ta.script_pubkey().to_bytes(), p2tr_script(&t), "P2TR script");
		ensure!(ta.to_string().starts_with(hrp) && ta.network == net, "P2TR address network: {ta}");
		let c2: BitcoinCredentials = serde_json::from_str(&serde_json::to_string(&c).unwrap()).map_err(|e| mc::Fail::from(e.to_string()))?;
		ensure!(c2.private_key_p2tr() == t && c2.private_key_p2pkh() == a && c2.private_key_p2wpkh() == b && c2.network() == net, "credentials after JSON");
		Ok("bitcoin")
	});
	// derivation paths, exactly
	let all: Vec<u32> = (0..200).chain(idx.iter().copied()).chain([H, H + 1, u32::MAX - 1, u32::MAX]).collect();
	let kinds = [(AddressType::P2pkh, Some(44)), (AddressType::P2wpkh, Some(84)), (AddressType::P2tr, Some(86)), (AddressType::P2sh, None), (AddressType::P2wsh, None)];
	ctx.each("paths", all.len() as u64 * 5 * 4, |i| {
		let mut ix = Idx(i);
		let n = *ix.pick(&all);
		let (kind, purpose) = *ix.pick(&kinds);
		let net = *ix.pick(&nets);
		mc::note(|| format!("{kind:?} {net:?} index {n}"));
		let sp = stacks_derivation_path(n);
		let bp = bitcoin_derivation_path(net, kind, n);
		if n >= H {
			ensure!(sp.is_err() && bp.is_err(), "index {n} accepted: {sp:?} {bp:?}");
			return Ok("refused index");
		}
		let sp = sp.map_err(|e| mc::Fail::from(e.to_string()))?;
		ensure_eq!(sp, DerivationPath::from_str(&format!("m/44'/5757'/0'/0/{n}")).unwrap(), "Stacks path {n}");
		match (purpose, bp) {
			(None, Err(_)) => Ok("refused kind"),
			(Some(p), Ok(b)) => {
				let coin = u32::from(net != BNet::Bitcoin);
				let got: Vec<u32> = b.into_iter().map(|c| u32::from(*c)).collect();
				ensure_eq!(got, vec![p | H, coin | H, n | H, 0, 0], "Bitcoin path {net:?} {kind:?} {n}");
				Ok("path")
			}
			(p, b) => fail!("path for {kind:?} {net:?} {n}: {b:?}, expected purpose {p:?}"),
		}
	});
	// refused mnemonics
	let words = ["abandon", "zoo", "ability", "letter", "", "Abandon", "notaword", "été"];
	let ml = ms.len().min(8) as u64;
	ctx.each("bad mnemonics", ml * 24 * words.len() as u64 * 3, |i| {
		let mut ix = Idx(i);
		let m = &ms[ix.take(ml as usize) * 2];
		let mut v: Vec<&str> = m.split(' ').collect();
		let p = ix.take(24);
		let w = *ix.pick(&words);
		match ix.take(3) {
			0 if p < v.len() => v[p] = w,
			1 if p <= v.len() => v.insert(p, w),
			2 if p < v.len() && w == "zoo" => {
				v.remove(p);
			}
			_ => return Ok("~n/a"),
		}
		let s = v.join(" ");
		mc::note(|| s.clone());
		let want = Mnemonic::parse_in_normalized(bdk::keys::bip39::Language::English, &s).or_else(|_| Mnemonic::from_str(&s)).is_ok();
		let r = Wallet::new(&s);
		ensure!(r.is_ok() == want, "Wallet::new({s:?}) ok={}, expected {want}", r.is_ok());
		Ok(if want { "accepted mnemonic" } else { "refused mnemonic" })
	});
	// mnemonics with anything from 0 to 60 words, some made of valid ones
	ctx.each("word counts", ms.len() as u64 * 61 * 3, |i| {
		let mut ix = Idx(i);
		let m = &ms[ix.take(ms.len())];
		let n = ix.take(61);
		let v: Vec<&str> = m.split(' ').collect();
		let w: Vec<&str> = match ix.take(3) {
			0 => v.iter().cycle().take(n).copied().collect(),
			1 if n >= v.len() => v.iter().copied().chain(std::iter::repeat("abandon")).take(n).collect(),
			2 if n >= v.len() => std::iter::repeat("zoo").take(n - v.len()).chain(v.iter().copied()).collect(),
			_ => return Ok("~n/a"),
		};
		let s = w.join(" ");
		mc::note(|| s.clone());
		let want = ref_mnemonic(&w);
		let r = Wallet::new(&s);
		ensure!(r.is_ok() == want, "Wallet::new of {n} words {s:?} ok={}, expected {want}", r.is_ok());
		Ok(if want { "accepted mnemonic" } else { "refused mnemonic" })
	});
	ctx.case("random wallets use all their entropy", || {
		let es: Vec<Vec<u8>> = (0..96)
			.map(|_| Wallet::random().map(|w| w.mnemonic().to_entropy()))
			.collect::<Result<_, _>>()
			.map_err(|e| mc::Fail::from(e.to_string()))?;
		let col = |b: usize| es.iter().map(|e| e[b / 8] >> (b % 8) & 1).collect::<Vec<u8>>();
		let cols: Vec<Vec<u8>> = (0..256).map(col).collect();
		for a in 0..256 {
			ensure!(cols[a].contains(&0) && cols[a].contains(&1), "bit {a} of 96 random wallets never changes");
			for b in 0..a {
				ensure!(cols[a] != cols[b] && cols[a].iter().zip(&cols[b]).any(|(x, y)| x == y), "bits {b} and {a} of 96 random wallets always agree or always differ");
			}
		}
		Ok("random")
	});
	ctx.case("random wallets differ", || {
		let a = Wallet::random().map_err(|e| mc::Fail::from(e.to_string()))?;
		let b = Wallet::random().map_err(|e| mc::Fail::from(e.to_string()))?;
		ensure!(a.mnemonic().to_string() != b.mnemonic().to_string(), "two random wallets share a mnemonic");
		ensure_eq!(a.mnemonic().word_count(), 24usize, "words in a random mnemonic");
		ensure_eq!(Wallet::new(a.mnemonic().to_string()).unwrap().master_key(), a.master_key(), "random wallet restores from its mnemonic");
		ensure_eq!(a.master_key(), master(&a.mnemonic().to_string()).k, "random wallet's master key");
		Ok("random")
	});
	// network names: any letter case, nothing else
	let bases = ["mainnet", "testnet", "main", "regtest", "signet", "bitcoin", "", "0", "1"];
	ctx.each("network names", bases.len() as u64 * 128, |i| {
		let mut ix = Idx(i);
		let b = *ix.pick(&bases);
		let mask = ix.take(128);
		let s: String = b.chars().enumerate().map(|(k, c)| if mask >> k & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
		let want = match b {
			"mainnet" => Some(Network::Mainnet),
			"testnet" => Some(Network::Testnet),
			_ => None,
		};
		ensure_eq!(Network::from_str(&s).ok(), want, "network named {s:?}");
		ensure_eq!(Network::try_from(s.clone()).ok(), want, "network named {s:?}, converted");
		ensure_eq!(serde_json::from_value::<Network>(s.clone().into()).ok(), want, "network named {s:?} in JSON");
		if let Some(n) = want {
			ensure_eq!(serde_json::to_string(&n).unwrap(), format!("\"{b}\""), "JSON of {n:?}");
		}
		Ok(if want.is_some() { "network" } else { "refused network" })
	});
	let _ = |c: CaseResult| c;
}
