//! C33: hash wrappers, hex forms and network identifiers.
use std::str::FromStr;

use bdk::bitcoin::Network as BNet;
use mc::{ensure, ensure_eq, sha, CaseResult, Ctx, Idx};
use stacks_core::{
	crypto::{hash160::Hash160Hasher, sha256::{DoubleSha256Hasher, Sha256Hasher}, Hasher, Hashing},
	Network,
};

fn input(len: usize, pat: usize) -> Vec<u8> {
	(0..len)
		.map(|i| match pat {
			0 => 0,
			1 => 0xff,
			2 => (i as u8).wrapping_mul(151).wrapping_add(3),
			_ => u8::from(i + 1 == len) << 7,
		})
		.collect()
}

fn one<T: Hashing<L> + PartialOrd, const L: usize>(name: &str, data: &[u8], want: &[u8]) -> Result<Hasher<T, L>, mc::Fail> {
	let h = Hasher::<T, L>::new(data);
	let n = data.len();
	ensure_eq!(h.as_ref(), want, "{name} of {n} bytes");
	ensure_eq!(h.as_bytes(), want, "{name} bytes");
	ensure_eq!(Hasher::<T, L>::hash(data).as_bytes(), want, "{name} hash()");
	ensure_eq!(h.to_hex(), mc::hex(want), "{name} hex");
	ensure_eq!(h.checksum()[..], want[..4], "{name} checksum");
	let b = |r: stacks_core::StacksResult<Hasher<T, L>>| r.ok().map(|x| x.as_bytes().to_vec());
	ensure_eq!(b(Hasher::from_hex(mc::hex(want))), Some(want.to_vec()), "{name} from hex");
	ensure_eq!(b(Hasher::from_hex(mc::hex(want).to_uppercase())), Some(want.to_vec()), "{name} from upper-case hex");
	ensure_eq!(b(Hasher::from_bytes(want)), Some(want.to_vec()), "{name} from bytes");
	ensure_eq!(b(Hasher::try_from(want)), Some(want.to_vec()), "{name} from slice");
	let arr: [u8; L] = want.try_into().unwrap();
	ensure_eq!(Hasher::<T, L>::from(arr).as_bytes(), want, "{name} from array");
	Ok(h)
}

fn refuse<T: Hashing<L>, const L: usize>(name: &str, l: usize) -> CaseResult {
	let z = vec![0x3cu8; l];
	ensure!(Hasher::<T, L>::from_bytes(&z).is_ok() == (l == L), "{name}::from_bytes of {l} bytes");
	ensure!(Hasher::<T, L>::try_from(&z[..]).is_ok() == (l == L), "{name}::try_from of {l} bytes");
	ensure!(Hasher::<T, L>::from_hex(mc::hex(&z)).is_ok() == (l == L), "{name}::from_hex of {l} bytes");
	ensure!(Hasher::<T, L>::from_hex(mc::hex(&z) + "a").is_err(), "{name}::from_hex of odd length");
	if l > 0 {
		let mut s = mc::hex(&z);
		s.replace_range(0..1, "g");
		ensure!(Hasher::<T, L>::from_hex(s).is_err(), "{name}::from_hex with a non-hex digit");
	}
	ensure_eq!(Hasher::<T, L>::zeroes().as_bytes(), &vec![0u8; L][..], "{name}::zeroes");
	ensure_eq!(Hasher::<T, L>::default().as_bytes(), &vec![0u8; L][..], "{name}::default");
	Ok(if l == L { "length accepted" } else { "length refused" })
}

trait Inner {
	type T;
}
impl<T: Hashing<L>, const L: usize> Inner for Hasher<T, L> {
	type T = T;
}

pub fn run(ctx: &Ctx) {
	ctx.rule("every input length 0..=300 (all block/padding boundaries) x 4 patterns, every 1- and 2-byte input, for SHA-256, double SHA-256 and HASH160 against independent implementations; every byte/hex length 0..=70; every single-character insertion, replacement and truncation of a hex form, and every pair of common affixes; JSON forms; every network spelling.");
	ctx.put("exhaustive", true);
	let go = |d: &[u8]| -> CaseResult {
		mc::note(|| mc::hex(d));
		let h = one("SHA-256", d, &sha::sha256(d))?;
		let _: &Sha256Hasher = &h;
		let js = serde_json::to_string(&h).unwrap();
		ensure_eq!(js, format!("\"{}\"", h.to_hex()), "SHA-256 JSON");
		ensure!(serde_json::from_str::<Sha256Hasher>(&js).ok() == Some(h), "SHA-256 from JSON");
		let h = one("double SHA-256", d, &sha::sha256d(d))?;
		let _: &DoubleSha256Hasher = &h;
		let h = one("HASH160", d, &sha::hash160(d))?;
		let js = serde_json::to_string(&h).unwrap();
		ensure_eq!(js, format!("\"{}\"", h.to_hex()), "HASH160 JSON");
		ensure!(serde_json::from_str::<Hash160Hasher>(&js).ok() == Some(h), "HASH160 from JSON");
		Ok(if d.is_empty() { "~empty" } else { "hashed" })
	};
	ctx.each("lengths", 301 * 4, |i| {
		let mut ix = Idx(i);
		let l = ix.take(301);
		go(&input(l, ix.take(4)))
	});
	ctx.each("short", 256 + 65536, |i| if i < 256 { go(&[i as u8]) } else { go(&((i - 256) as u16).to_be_bytes()) });
	ctx.each("refuse", 71, |i| {
		let l = i as usize;
		fn go<T: Hashing<L>, const L: usize>(_: fn(Hasher<T, L>), n: &str, l: usize) -> CaseResult {
			refuse::<T, L>(n, l)
		}
		go(|_: Sha256Hasher| (), "SHA-256", l)?;
		go(|_: DoubleSha256Hasher| (), "double SHA-256", l)?;
		go(|_: Hash160Hasher| (), "HASH160", l)
	});
	// texts close to a hash's hex form: only exact hex of the right length is a hash
	fn text<T: Hashing<L>, const L: usize>(name: &str, s: &str) -> CaseResult {
		mc::note(|| format!("{name} text {s:?}"));
		let want = if s.len() == 2 * L && s.bytes().all(|c| c.is_ascii_hexdigit()) { Some(mc::unhex(&s.to_lowercase())) } else { None };
		let b = |r: Option<Hasher<T, L>>| r.map(|x| x.as_bytes().to_vec());
		ensure_eq!(b(Hasher::<T, L>::from_hex(s).ok()), want, "{name}::from_hex({s:?})");
		Ok(if want.is_some() { "text accepted" } else { "text refused" })
	}
	let base: String = "0123456789abcdef".repeat(4);
	let chars: Vec<char> = (0u8..128).map(|c| c as char).chain(['é', '１']).collect();
	let mut texts = vec![];
	for cut in [40usize, 64] {
		let b = &base[..cut];
		texts.extend(mc::affixed(b));
		texts.extend(mc::affixed(&b[2..]));
		for p in 0..=cut {
			for c in &chars {
				texts.push(format!("{}{c}{}", &b[..p], &b[p..]));
				if p < cut {
					texts.push(format!("{}{c}{}", &b[..p], &b[p + 1..]));
				}
			}
			texts.push(b[..p].to_string());
		}
	}
	ctx.each("texts", texts.len() as u64, |i| {
		let s = &texts[i as usize];
		text::<<Sha256Hasher as Inner>::T, 32>("SHA-256", s)?;
		text::<<DoubleSha256Hasher as Inner>::T, 32>("double SHA-256", s)?;
		let v = serde_json::Value::String(s.clone());
		ensure!(serde_json::from_value::<Sha256Hasher>(v.clone()).ok() == Sha256Hasher::from_hex(s).ok(), "SHA-256 from JSON {s:?}");
		ensure!(serde_json::from_value::<Hash160Hasher>(v).ok() == Hash160Hasher::from_hex(s).ok(), "HASH160 from JSON {s:?}");
		text::<<Hash160Hasher as Inner>::T, 20>("HASH160", s)
	});
	// equality and order follow the bytes
	ctx.each("order", 40 * 40, |i| {
		let mut ix = Idx(i);
		let mk = |j: usize| -> [u8; 20] {
			let mut a = [0u8; 20];
			a[j / 2] = if j % 2 == 0 { 1 } else { 0x80 };
			a
		};
		let (a, b) = (mk(ix.take(40)), mk(ix.take(40)));
		let (x, y) = (Hash160Hasher::from(a), Hash160Hasher::from(b));
		ensure_eq!(x == y, a == b, "equality");
		ensure_eq!(x.cmp(&y), a.cmp(&b), "order");
		Ok("order")
	});
	// networks
	let spell: Vec<(String, Option<Network>)> = ["mainnet", "testnet", "regtest", "main", "", "mainnet ", "bitcoin", "0", "test"]
		.iter()
		.flat_map(|s| {
			let want = match *s {
				"mainnet" => Some(Network::Mainnet),
				"testnet" => Some(Network::Testnet),
				_ => None,
			};
			// every case variant of the first four letters
			(0..16u32).map(move |m| {
				let t: String = s
					.chars()
					.enumerate()
					.map(|(i, c)| if i < 4 && m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c })
					.collect();
				(t, want)
			})
		})
		.chain([("MAINNET".to_string(), Some(Network::Mainnet)), ("TESTNET".to_string(), Some(Network::Testnet))])
		.collect();
	ctx.each("networks", spell.len() as u64, |i| {
		let (s, want) = &spell[i as usize];
		mc::note(|| s.clone());
		ensure_eq!(Network::from_str(s).ok(), *want, "network {s:?}");
		ensure_eq!(Network::try_from(s.clone()).ok(), *want, "network from String {s:?}");
		ensure_eq!(serde_json::from_str::<Network>(&format!("\"{s}\"")).ok(), *want, "network from JSON {s:?}");
		Ok(if want.is_some() { "network" } else { "bad network" })
	});
	ctx.case("network maps", || {
		for (n, s, b, r) in [(Network::Mainnet, "mainnet", BNet::Bitcoin, 0u8), (Network::Testnet, "testnet", BNet::Testnet, 1)] {
			ensure_eq!(n.to_string(), s.to_string(), "network name");
			ensure_eq!(Into::<String>::into(n), s.to_string(), "network name");
			ensure_eq!(serde_json::to_string(&n).unwrap(), format!("\"{s}\""), "network JSON");
			ensure_eq!(Into::<BNet>::into(n), b, "Bitcoin network of {s}");
			ensure_eq!(n as u8, r, "network number");
			ensure_eq!(Network::from_repr(r), Some(n), "network of number");
		}
		for (b, n) in [(BNet::Bitcoin, Network::Mainnet), (BNet::Testnet, Network::Testnet), (BNet::Signet, Network::Testnet), (BNet::Regtest, Network::Testnet)] {
			ensure_eq!(Into::<Network>::into(b), n, "Stacks network of {b}");
		}
		for r in 2..=255u8 {
			ensure!(Network::from_repr(r).is_none(), "network number {r}");
		}
		Ok("network maps")
	});
}
