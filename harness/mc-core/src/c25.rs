//! C25: c32 encoding is a bijection, checksummed, and total.
use mc::{ensure, ensure_eq, fail, CaseResult, Ctx, Idx};
use stacks_core::{address::StacksAddress, c32};

use crate::fix::*;

fn roundtrip(b: &[u8]) -> CaseResult {
	let e = c32::encode(b);
	mc::note(|| format!("{} <-> {e}", mc::hex(b)));
	let want = ref_c32_encode(b);
	ensure_eq!(e, want, "c32 encoding of {}", mc::hex(b));
	let d = c32::decode(&e);
	ensure!(d.as_deref() == Ok(b), "decode(encode({})) = {:?}", mc::hex(b), d);
	let l = c32::decode(e.to_ascii_lowercase());
	ensure!(l.as_deref() == Ok(b), "lower case decode of {e} = {l:?}");
	let a: String = e
		.chars()
		.map(|c| match c {
			'0' => 'o',
			'1' => 'L',
			c => c,
		})
		.collect();
	let al = c32::decode(&a);
	ensure!(al.as_deref() == Ok(b), "decode of {a}, an alias spelling of {e}, = {al:?}, expected {}", mc::hex(b));
	Ok(if b.is_empty() {
		"~empty"
	} else if b[0] == 0 {
		"leading zeros"
	} else {
		"plain"
	})
}

fn decode_any(s: &str) -> CaseResult {
	let got = c32::decode(s);
	mc::note(|| format!("decode {s:?}"));
	let want = if s.is_ascii() { ref_c32_decode(s) } else { None };
	match (got, want) {
		(Ok(g), Some(w)) => {
			ensure_eq!(g, w, "decode({s:?})");
			Ok("decoded")
		}
		(Err(_), None) => Ok("rejected"),
		(g, w) => fail!("decode({s:?}) = {g:?}, expected {w:?}"),
	}
}

fn parse_any(s: &str) -> CaseResult {
	let got = c32::decode_address(s);
	mc::note(|| format!("address {s:?}"));
	let want = ref_parse_address(s);
	let r = match (&got, &want) {
		(Ok((v, d)), Some((wv, wd))) => {
			ensure_eq!(*v as u8, *wv, "version of {s:?}");
			ensure_eq!(d, wd, "data of {s:?}");
			"accepted"
		}
		(Err(_), None) => "rejected",
		_ => fail!("decode_address({s:?}) = {got:?}, expected {want:?}"),
	};
	// the address type accepts exactly the 20-byte ones
	let a = StacksAddress::try_from(s);
	let ok = matches!(&want, Some((_, d)) if d.len() == 20);
	ensure!(a.is_ok() == ok, "StacksAddress::try_from({s:?}) = {a:?}, expected ok={ok}");
	if let (Ok(a), Some((v, d))) = (&a, &want) {
		ensure_eq!(a.version() as u8, *v, "address version of {s:?}");
		ensure_eq!(a.hash().as_ref(), &d[..], "address hash of {s:?}");
	}
	Ok(r)
}

pub fn run(ctx: &Ctx) {
	ctx.rule("every byte string up to 2 (quick) / 3 (thorough) bytes, up to 64 bytes over zero/edge patterns, and every length to 300 (samples to 2049); every Unicode character alone and inside an address; every ASCII string up to length 3 over a class-covering alphabet; every single-character substitution, deletion, insertion, transposition and case change of valid addresses of every version; compared with an independent big-integer c32 and an independent double-SHA256. Non-trivial: the string is not empty.");
	ctx.put("exhaustive", true);
	// all short byte strings
	ctx.each("bytes<=2", 1 + 256 + 65536, |i| {
		let b: Vec<u8> = match i {
			0 => vec![],
			1..=256 => vec![(i - 1) as u8],
			_ => ((i - 257) as u16).to_be_bytes().to_vec(),
		};
		roundtrip(&b)
	});
	if ctx.thorough() {
		ctx.each("bytes3", 1 << 24, |i| roundtrip(&(i as u32).to_be_bytes()[1..]));
	}
	let edge = [0u8, 1, 0x1f, 0x20, 0x7f, 0x80, 0xff];
	for len in 3..=5usize {
		if len == 5 && !ctx.thorough() {
			break;
		}
		ctx.each(&format!("edge{len}"), (edge.len() as u64).pow(len as u32), |i| {
			let mut ix = Idx(i);
			let b: Vec<u8> = (0..len).map(|_| *ix.pick(&edge)).collect();
			roundtrip(&b)
		});
	}
	// long strings: every (length, leading zeros, first byte, tail pattern)
	let tails: [fn(usize) -> u8; 5] = [
		|_| 0,
		|_| 0xff,
		|i| (i as u8).wrapping_mul(73).wrapping_add(5),
		|i| if i % 2 == 0 { 0 } else { 0x80 },
		|i| if i % 5 == 4 { 1 } else { 0 },
	];
	let firsts = [1u8, 2, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255];
	ctx.each("long", 65 * 65 * 13 * 5, |i| {
		let mut ix = Idx(i);
		let len = ix.take(65);
		let z = ix.take(65);
		let f = *ix.pick(&firsts);
		let t = *ix.pick(&tails);
		if z > len {
			return Ok("~n/a");
		}
		let mut b = vec![0u8; len];
		for j in z..len {
			b[j] = if j == z { f } else { t(j - z) };
		}
		roundtrip(&b)
	});
	// every length up to 300 and around the powers of two beyond
	let lens: Vec<usize> = (0..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2049]).collect();
	ctx.each("longer", lens.len() as u64 * 3 * 3, |i| {
		let mut ix = Idx(i);
		let len = *ix.pick(&lens);
		let z = ix.take(3);
		let t = ix.pick(&tails[1..4]);
		if z > len {
			return Ok("~n/a");
		}
		let b: Vec<u8> = (0..len).map(|j| if j < z { 0 } else { t(j) }).collect();
		roundtrip(&b)
	});
	// every Unicode character, alone and inside an address
	let probe = ref_address(26, &few_hashes()[3]);
	ctx.each("unicode", 0x110000, |i| {
		let Some(c) = char::from_u32(i as u32) else {
			return Ok("~not a character");
		};
		decode_any(c.encode_utf8(&mut [0; 4]))?;
		let k = 2 + i as usize % (probe.len() - 2);
		parse_any(&format!("{}{c}{}", &probe[..k], &probe[k + 1..]))
	});
	// characters that case folding or width folding turns into the right one
	let all: Vec<String> = (0..4).flat_map(|v| few_hashes().into_iter().map(move |h| ref_address(VERSION_BYTES[v], &h))).chain(["0123456789ABCDEFGHJKMNPQRSTVWXYZ".to_string()]).collect();
	ctx.each("folded", all.len() as u64 * 41 * 6, |i| {
		let mut ix = Idx(i);
		let s = ix.pick(&all);
		let p = ix.take(41);
		let Some(c) = s[p.min(s.len())..].chars().next() else {
			return Ok("~n/a");
		};
		let u = c as u32;
		let f = match ix.take(6) {
			0 => char::from_u32(0xff00 + u - 0x20),
			1 if c == 'S' => Some('\u{17f}'),
			1 if c == 'K' => Some('\u{212a}'),
			1 if c == '1' => Some('\u{131}'),
			2 => char::from_u32(u + 0x80),
			3 => char::from_u32(u + 0x100),
			4 => char::from_u32(u + 0x10000),
			5 if c.is_ascii_alphabetic() => char::from_u32(0x1d400 + u - 0x41),
			_ => None,
		};
		let Some(f) = f else {
			return Ok("~n/a");
		};
		let m = format!("{}{f}{}", &s[..p], &s[p + 1..]);
		decode_any(&m)?;
		parse_any(&m)
	});
	// decoding arbitrary strings: total, exact
	let chars: Vec<char> = (0u8..128).map(|c| c as char).chain(['é', '０', '\u{80}', '\u{10FFFF}']).collect();
	let n = chars.len() as u64;
	ctx.each("str<=2", 1 + n + n * n, |i| {
		let s: String = match i {
			0 => String::new(),
			i if i <= n => chars[(i - 1) as usize].to_string(),
			i => {
				let mut ix = Idx(i - 1 - n);
				[*ix.pick(&chars), *ix.pick(&chars)].iter().collect()
			}
		};
		decode_any(&s)?;
		c32_check(&s)?;
		parse_any(&s)
	});
	let small: Vec<char> = "01OoLlIiAaZzUu9 -.é@[`{/:\0\u{7f}SsPpMmTtNn".chars().collect();
	for len in 3..=4usize {
		if len == 4 && !ctx.thorough() {
			break;
		}
		ctx.each(&format!("str{len}"), (small.len() as u64).pow(len as u32), |i| {
			let mut ix = Idx(i);
			let s: String = (0..len).map(|_| *ix.pick(&small)).collect();
			decode_any(&s)?;
			c32_check(&s)?;
			parse_any(&format!("S{s}"))
		});
	}
	// strings of c32 digits of every length with edge digits, incl. alias zeros
	let digs: Vec<char> = "0O1Z".chars().collect();
	let dl = if ctx.thorough() { 9 } else { 7 };
	for len in 4..=dl {
		ctx.each(&format!("digits{len}"), 4u64.pow(len), |i| {
			let mut ix = Idx(i);
			let s: String = (0..len).map(|_| *ix.pick(&digs)).collect();
			decode_any(&s)?;
			c32_check(&s)
		});
	}
	// every version byte with a correct checksum: only the four known versions parse
	ctx.each("versions", 32 * 3, |i| {
		let mut ix = Idx(i);
		let v = ix.take(32) as u8;
		let h = few_hashes()[ix.take(3)];
		parse_any(&ref_address(v, &h))
	});
	// every payload length with a correct checksum
	ctx.each("lengths", 41 * 4 * 2, |i| {
		let mut ix = Idx(i);
		let l = ix.take(41);
		let v = ix.take(4);
		let fill = [0u8, 0xa7][ix.take(2)];
		let data = vec![fill; l];
		let s = c32::encode_address(VERSIONS[v], &data);
		ensure_eq!(s, ref_address(VERSION_BYTES[v], &data), "address encoding of {}", mc::hex(&data));
		parse_any(&s)
	});
	// all hash patterns, all versions
	let pats = hash_patterns();
	ctx.each("hashes", pats.len() as u64 * 4, |i| {
		let mut ix = Idx(i);
		let v = ix.take(4);
		let h = pats[ix.take(pats.len())];
		let s = c32::encode_address(VERSIONS[v], h);
		ensure_eq!(s, ref_address(VERSION_BYTES[v], &h), "address encoding of {}", mc::hex(h));
		let vc = c32::version_check_encode(VERSIONS[v], h);
		ensure_eq!(format!("S{vc}"), s, "version_check_encode of {}", mc::hex(h));
		let d = c32::version_check_decode(&vc);
		ensure!(matches!(&d, Ok((ver, data)) if *ver == VERSIONS[v] && data[..] == h), "version_check_decode({vc}) = {d:?}");
		parse_any(&s)?;
		parse_any(&s.to_ascii_lowercase())?;
		parse_any(&format!("S{}", s[1..].to_ascii_lowercase()))
	});
	// every single edit of valid addresses
	let bases: Vec<String> = {
		let hs = few_hashes();
		let k = if ctx.thorough() { hs.len() } else { 3 };
		(0..4).flat_map(|v| hs[..k].iter().map(move |h| ref_address(VERSION_BYTES[v], h)).collect::<Vec<_>>()).collect()
	};
	for (bi, base) in bases.iter().enumerate() {
		let cs: Vec<char> = base.chars().collect();
		let len = cs.len();
		ctx.each(&format!("edit{bi}"), (len as u64 + 1) * (n * 2 + 2), |i| {
			let mut ix = Idx(i);
			let p = ix.take(len + 1);
			let k = ix.take((n * 2 + 2) as usize);
			let mut m = cs.clone();
			let nn = n as usize;
			if k < nn {
				if p >= len {
					return Ok("~n/a");
				}
				m[p] = chars[k];
			} else if k < 2 * nn {
				m.insert(p, chars[k - nn]);
			} else if k == 2 * nn {
				if p >= len {
					return Ok("~n/a");
				}
				m.remove(p);
			} else {
				if p + 1 >= len {
					return Ok("~n/a");
				}
				m.swap(p, p + 1);
			}
			let s: String = m.iter().collect();
			parse_any(&s)
		});
		// every prefix and suffix
		ctx.each(&format!("cut{bi}"), 2 * len as u64, |i| {
			let p = (i / 2) as usize;
			let s: String = if i % 2 == 0 { cs[..p].iter().collect() } else { cs[p..].iter().collect() };
			c32_check(&s)?;
			parse_any(&s)
		});
		// every single-bit corruption of the encoded payload and checksum
		let body = ref_c32_decode(&base[2..]).unwrap();
		ctx.each(&format!("bit{bi}"), body.len() as u64 * 8, |i| {
			let mut b = body.clone();
			b[(i / 8) as usize] ^= 1 << (i % 8);
			parse_any(&format!("{}{}", &base[..2], ref_c32_encode(&b)))
		});
	}
}

fn c32_check(s: &str) -> CaseResult {
	let got = c32::version_check_decode(s);
	let want = ref_parse_address(&format!("S{s}"));
	match (&got, &want) {
		(Ok((v, d)), Some((wv, wd))) if *v as u8 == *wv && d == wd => Ok("accepted"),
		(Err(_), None) => Ok("rejected"),
		_ => fail!("version_check_decode({s:?}) = {got:?}, expected {want:?}"),
	}
}
