//! C27: contract names.
use mc::{ensure, ensure_eq, fail, CaseResult, Ctx, Idx};
use stacks_core::{codec::Codec, contract_name::ContractName};

use crate::fix::*;

fn one(s: &str) -> CaseResult {
	mc::note(|| format!("{s:?}"));
	let want = ref_contract_name(s);
	let got = ContractName::new(s);
	let got2 = ContractName::try_from(s);
	ensure!(got.is_ok() == got2.is_ok(), "new and try_from disagree on {s:?}");
	let mut enc = vec![(s.len() & 0xff) as u8];
	enc.extend_from_slice(s.as_bytes());
	let dec = if s.len() < 256 { Some(ContractName::codec_deserialize(&mut &enc[..])) } else { None };
	match got {
		Ok(n) => {
			ensure!(want, "{s:?} (length {}) is accepted as a contract name", s.len());
			ensure_eq!(&*n, s, "deref");
			ensure_eq!(n.as_ref() as &str, s, "as_ref");
			ensure_eq!(n.to_string(), s.to_string(), "display");
			ensure_eq!(Into::<String>::into(n.clone()), s.to_string(), "into string");
			ensure_eq!(n.serialize_to_vec(), enc, "encoding of {s:?}");
			match dec {
				Some(Ok(d)) => ensure!(d == n, "{s:?} decoded as {d:?}"),
				d => fail!("encoding of {s:?} does not decode: {d:?}"),
			}
			Ok("accepted")
		}
		Err(_) => {
			ensure!(!want, "{s:?} is refused as a contract name");
			ensure!(!matches!(dec, Some(Ok(_))), "{s:?} is decoded as a contract name");
			Ok("rejected")
		}
	}
}

pub fn run(ctx: &Ctx) {
	ctx.rule("every string of length <=2 over all ASCII and some non-ASCII characters, <=4 over a class-edge alphabet, every length 0..=300 with every (first, filler, last) class; every Unicode character in every role, every byte value at every position of the wire form and every pair of bytes, every truncation of it. Reference: the name grammar written by hand.");
	ctx.put("exhaustive", true);
	let chars: Vec<char> = (0u8..128).map(|c| c as char).chain("éßАａ０\u{2028}\u{7f}🦀".chars()).collect();
	let n = chars.len() as u64;
	ctx.each("len<=2", 1 + n + n * n, |i| match i {
		0 => one(""),
		i if i <= n => one(&chars[i as usize - 1].to_string()),
		i => {
			let mut ix = Idx(i - 1 - n);
			one(&[*ix.pick(&chars), *ix.pick(&chars)].iter().collect::<String>())
		}
	});
	let small: Vec<char> = "azAZ09-_ .@[`{/:^\n\u{0}é".chars().collect();
	for len in 3..=4usize {
		ctx.each(&format!("len{len}"), (small.len() as u64).pow(len as u32), |i| {
			let mut ix = Idx(i);
			one(&(0..len).map(|_| *ix.pick(&small)).collect::<String>())
		});
	}
	ctx.each("lengths", 301 * (small.len() as u64).pow(2) * 4, |i| {
		let mut ix = Idx(i);
		let l = ix.take(301);
		let f = *ix.pick(&small);
		let z = *ix.pick(&small);
		let fill = ['a', 'Z', '7', '-'][ix.take(4)];
		if l < 2 {
			return Ok("~n/a");
		}
		let mut s = String::new();
		s.push(f);
		for _ in 2..l {
			s.push(fill);
		}
		s.push(z);
		one(&s)
	});
	// one bad character at every position of names of every length
	ctx.each("positions", 40 * 40 * small.len() as u64, |i| {
		let mut ix = Idx(i);
		let l = ix.take(40) + 1;
		let p = ix.take(40);
		let c = *ix.pick(&small);
		if p >= l {
			return Ok("~n/a");
		}
		let mut v = vec!['q'; l];
		v[p] = c;
		one(&v.iter().collect::<String>())
	});
	for s in ["__transient", "__transien", "__transientt", "__Transient", "_", "__", "-a", "__transient\n", "a\n", "\na"] {
		ctx.case(format!("special {s:?}"), || one(s));
	}
	let affixed: Vec<String> = ["a", "asset-token", "__transient"].iter().flat_map(|b| mc::affixed(b)).collect();
	ctx.each("affixes", affixed.len() as u64, |i| one(&affixed[i as usize]));
	// every Unicode character, first, last and in the middle
	ctx.each("unicode", 0x110000, |i| {
		let Some(c) = char::from_u32(i as u32) else {
			return Ok("~not a character");
		};
		one(c.encode_utf8(&mut [0; 4]))?;
		one(&format!("a{c}"))?;
		one(&format!("{c}a"))?;
		one(&format!("a{c}b"))
	});
	// wire form: every byte value, every pair of byte values, in names of several lengths
	let raw = |b: &[u8]| -> CaseResult {
		let mut w = vec![b.len() as u8];
		w.extend_from_slice(b);
		let want = std::str::from_utf8(b).ok().filter(|s| ref_contract_name(s));
		match (ContractName::codec_deserialize(&mut &w[..]), want) {
			(Ok(n), Some(s)) => {
				ensure_eq!(&*n, s, "decoded name");
				Ok("bytes accepted")
			}
			(Err(_), None) => Ok("bytes rejected"),
			(g, w) => fail!("name bytes {}: {g:?}, expected {w:?}", mc::hex(b)),
		}
	};
	ctx.each("byte pairs", 65536 * 3, |i| {
		let mut ix = Idx(i);
		let (x, y) = (ix.take(256) as u8, ix.take(256) as u8);
		match ix.take(3) {
			0 => raw(&[x, y]),
			1 => raw(&[b'a', x, y]),
			_ => raw(&[b'a', x, b'-', y, b'9']),
		}
	});
	ctx.each("byte at", 40 * 40 * 256, |i| {
		let mut ix = Idx(i);
		let (l, p, x) = (ix.take(40) + 1, ix.take(40), ix.take(256) as u8);
		if p >= l {
			return Ok("~n/a");
		}
		let mut v = vec![b'm'; l];
		v[p] = x;
		raw(&v)
	});
	// wire form: declared length versus bytes present
	ctx.each("wire", 256 * 64, |i| {
		let mut ix = Idx(i);
		let l = ix.take(256);
		let have = ix.take(64);
		let mut b = vec![l as u8];
		b.extend(vec![b'k'; have]);
		let mut r = &b[..];
		let got = ContractName::codec_deserialize(&mut r);
		let ok = l >= 1 && l <= 40 && have >= l;
		match got {
			Ok(n) if ok => {
				ensure_eq!(&*n, "k".repeat(l).as_str(), "decoded name");
				ensure_eq!(r.len(), have - l, "bytes left");
				Ok("wire accepted")
			}
			Err(_) if !ok => Ok("wire rejected"),
			g => fail!("declared length {l} with {have} bytes present: {g:?}"),
		}
	});
}
