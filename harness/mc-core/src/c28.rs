//! C28: Uint arithmetic and conversions agree with big-integer arithmetic.
use mc::{ensure, ensure_eq, fail, CaseResult, Ctx, Idx};
use stacks_core::{
	codec::Codec,
	crypto::{sha256::DoubleSha256Hasher, Hashing},
	uint::Uint,
};

/// Boring little-endian base-2^32 bignum.
#[derive(Clone, PartialEq, Eq, Debug)]
struct Big(Vec<u32>);

impl Big {
	fn from_words(w: &[u64]) -> Big {
		Big(w.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect())
	}
	fn words(&self, n: usize) -> Vec<u64> {
		(0..n)
			.map(|i| {
				let g = |j: usize| self.0.get(j).copied().unwrap_or(0) as u64;
				g(2 * i) | (g(2 * i + 1) << 32)
			})
			.collect()
	}
	fn bit(&self, i: usize) -> bool {
		self.0.get(i / 32).is_some_and(|w| w >> (i % 32) & 1 == 1)
	}
	fn bits(&self) -> usize {
		(0..self.0.len() * 32).rev().find(|i| self.bit(*i)).map(|i| i + 1).unwrap_or(0)
	}
	fn add(&self, o: &Big) -> Big {
		let n = self.0.len().max(o.0.len()) + 1;
		let mut r = vec![0u32; n];
		let mut c = 0u64;
		for (i, x) in r.iter_mut().enumerate() {
			let s = *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64 + c;
			*x = s as u32;
			c = s >> 32;
		}
		Big(r)
	}
	/// self - o modulo 2^(32 n)
	fn sub_mod(&self, o: &Big, n: usize) -> Big {
		let mut r = vec![0u32; n];
		let mut b = 0i64;
		for (i, x) in r.iter_mut().enumerate() {
			let mut s = *self.0.get(i).unwrap_or(&0) as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b;
			b = 0;
			if s < 0 {
				s += 1 << 32;
				b = 1;
			}
			*x = s as u32;
		}
		Big(r)
	}
	fn mul(&self, o: &Big) -> Big {
		let mut r = vec![0u32; self.0.len() + o.0.len() + 1];
		for (i, a) in self.0.iter().enumerate() {
			let mut c = 0u64;
			for (j, b) in o.0.iter().enumerate() {
				let s = *a as u64 * *b as u64 + r[i + j] as u64 + c;
				r[i + j] = s as u32;
				c = s >> 32;
			}
			let mut k = i + o.0.len();
			while c > 0 {
				let s = r[k] as u64 + c;
				r[k] = s as u32;
				c = s >> 32;
				k += 1;
			}
		}
		Big(r)
	}
	fn cmp(&self, o: &Big) -> std::cmp::Ordering {
		for i in (0..self.0.len().max(o.0.len())).rev() {
			let (a, b) = (*self.0.get(i).unwrap_or(&0), *o.0.get(i).unwrap_or(&0));
			if a != b {
				return a.cmp(&b);
			}
		}
		std::cmp::Ordering::Equal
	}
}

fn bin<const N: usize>(a: [u64; N], b: [u64; N], heavy: bool) -> CaseResult {
	mc::note(|| format!("{a:x?} op {b:x?}"));
	let (x, y) = (Uint::<N>::from_u64_array(a), Uint::<N>::from_u64_array(b));
	let (p, q) = (Big::from_words(&a), Big::from_words(&b));
	let w = |u: Uint<N>| -> Vec<u64> { u.into() };
	ensure_eq!(w(x + y), p.add(&q).words(N), "{a:x?} + {b:x?}");
	ensure_eq!(w(x - y), p.sub_mod(&q, 2 * N).words(N), "{a:x?} - {b:x?}");
	ensure_eq!(x.cmp(&y), p.cmp(&q), "cmp {a:x?} {b:x?}");
	ensure_eq!(x.partial_cmp(&y), Some(p.cmp(&q)), "partial_cmp {a:x?} {b:x?}");
	ensure_eq!(x == y, a == b, "== {a:x?} {b:x?}");
	for i in 0..N {
		ensure_eq!(w(x & y)[i], a[i] & b[i], "& word {i}");
		ensure_eq!(w(x | y)[i], a[i] | b[i], "| word {i}");
		ensure_eq!(w(x ^ y)[i], a[i] ^ b[i], "^ word {i}");
	}
	if heavy {
		ensure_eq!(w(x * y), p.mul(&q).words(N), "{a:x?} * {b:x?}");
		let m = b[0] as u32;
		ensure_eq!(w(x.mul_u32(m)), p.mul(&Big(vec![m])).words(N), "{a:x?} mul_u32 {m:x}");
		if b != [0; N] {
			let d = x / y;
			let dq = Big::from_words(&w(d));
			// d is the quotient iff 0 <= x - d*y < y, computed exactly
			let prod = dq.mul(&q);
			ensure!(prod.cmp(&p) != std::cmp::Ordering::Greater, "{a:x?} / {b:x?} = {d}: too big");
			let rem = p.sub_mod(&prod, 2 * N + 1);
			ensure!(rem.cmp(&q) == std::cmp::Ordering::Less, "{a:x?} / {b:x?} = {d}: too small");
		}
	}
	Ok(if a == [0; N] || b == [0; N] { "~zero operand" } else { "binary" })
}

fn un<const N: usize>(a: [u64; N]) -> CaseResult {
	mc::note(|| format!("{a:x?}"));
	let x = Uint::<N>::from_u64_array(a);
	let p = Big::from_words(&a);
	let w = |u: Uint<N>| -> Vec<u64> { u.into() };
	ensure_eq!(x.bits(), p.bits(), "bits of {a:x?}");
	ensure_eq!(x.low_u64(), a[0], "low_u64");
	ensure_eq!(x.low_u32(), a[0] as u32, "low_u32");
	let mut inc = x;
	inc.increment();
	ensure_eq!(w(inc), p.add(&Big(vec![1])).words(N), "increment {a:x?}");
	for (i, v) in w(!x).iter().enumerate() {
		ensure_eq!(*v, !a[i], "not, word {i}");
	}
	// shifts by every amount and beyond the width
	for s in (0..=64 * N + 65).chain([64 * N * 2, 100_000]) {
		let l = w(x << s);
		let r = w(x >> s);
		for wi in 0..N {
			// word wi of x << s
			let word = |lo: i64| -> u64 {
				let mut v = 0u64;
				let at = |k: i64| if k < 0 || k >= N as i64 { 0 } else { a[k as usize] };
				let (k, o) = (lo.div_euclid(64), lo.rem_euclid(64));
				v |= at(k) >> o;
				if o > 0 {
					v |= at(k + 1) << (64 - o);
				}
				v
			};
			ensure_eq!(l[wi], word(wi as i64 * 64 - s as i64), "{a:x?} << {s}, word {wi}");
			ensure_eq!(r[wi], word(wi as i64 * 64 + s as i64), "{a:x?} >> {s}, word {wi}");
		}
	}
	// byte and hex forms
	let le: Vec<u8> = a.iter().flat_map(|v| v.to_le_bytes()).collect();
	let be: Vec<u8> = le.iter().rev().copied().collect();
	ensure_eq!(x.to_le_bytes(), le, "to_le_bytes");
	ensure_eq!(x.to_be_bytes(), be, "to_be_bytes");
	ensure_eq!(x.to_le_hex(), mc::hex(&le), "to_le_hex");
	ensure_eq!(x.to_be_hex(), mc::hex(&be), "to_be_hex");
	ensure!(Uint::<N>::from_le_bytes(&le).ok() == Some(x), "from_le_bytes {a:x?}");
	ensure!(Uint::<N>::from_be_bytes(&be).ok() == Some(x), "from_be_bytes {a:x?}");
	ensure!(Uint::<N>::from_le_hex(mc::hex(&le)).ok() == Some(x), "from_le_hex {a:x?}");
	ensure!(Uint::<N>::from_be_hex(mc::hex(&be)).ok() == Some(x), "from_be_hex {a:x?}");
	ensure_eq!(x.serialize_to_vec(), be, "codec bytes");
	let mut r = &be[..];
	ensure!(Uint::<N>::codec_deserialize(&mut r).ok() == Some(x) && r.is_empty(), "codec round trip {a:x?}");
	ensure_eq!(format!("{x}"), format!("0x{}", mc::hex(&be)), "display");
	ensure_eq!(format!("{x:?}"), format!("0x{}", mc::hex(&be)), "debug");
	let js = serde_json::to_string(&x).unwrap();
	ensure_eq!(js, format!("[{}]", a.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")), "json");
	ensure!(serde_json::from_str::<Uint<N>>(&js).ok() == Some(x), "json round trip {a:x?}");
	ensure!(Uint::<N>::try_from(a.to_vec()).ok() == Some(x), "from Vec");
	// refused lengths
	for l in 0..(N + 2) * 8 + 1 {
		let z = vec![1u8; l];
		ensure!(Uint::<N>::from_le_bytes(&z).is_ok() == (l == N * 8), "from_le_bytes of {l} bytes");
		ensure!(Uint::<N>::from_be_bytes(&z).is_ok() == (l == N * 8), "from_be_bytes of {l} bytes");
		ensure!(Uint::<N>::codec_deserialize(&mut &z[..]).is_ok() == (l >= N * 8), "codec of {l} bytes");
	}
	for l in 0..N + 3 {
		ensure!(Uint::<N>::try_from(vec![1u64; l]).is_ok() == (l == N), "try_from Vec of {l}");
	}
	conv::<N, 1>(x, &a)?;
	conv::<N, 2>(x, &a)?;
	conv::<N, 3>(x, &a)?;
	conv::<N, 4>(x, &a)?;
	conv::<N, 8>(x, &a)?;
	Ok("unary")
}

fn conv<const N: usize, const M: usize>(x: Uint<N>, a: &[u64; N]) -> Result<(), mc::Fail> {
	let want: Vec<u64> = (0..M).map(|i| *a.get(i).unwrap_or(&0)).collect();
	let w = |u: Uint<M>| -> Vec<u64> { u.into() };
	ensure_eq!(w(x.to_uint_lossy::<M>()), want, "to_uint_lossy {N}->{M} of {a:x?}");
	ensure_eq!(w(Uint::<M>::from_uint_lossy::<N>(x)), want, "from_uint_lossy {N}->{M} of {a:x?}");
	if N < M {
		ensure_eq!(w(Uint::<M>::from_uint::<N>(x)), want, "from_uint {N}->{M} of {a:x?}");
	}
	if M >= N {
		match mc::no_panic(|| x.to_uint::<M>()) {
			Ok(u) => ensure_eq!(w(u), want, "to_uint {N}->{M} of {a:x?}"),
			Err(p) => fail!("to_uint {N}->{M} of {a:x?} panicked: {p}"),
		}
	}
	Ok(())
}

fn small<const N: usize>(v: u64, hi: u64) -> CaseResult {
	let w = |u: Uint<N>| -> Vec<u64> { u.into() };
	let pad = |x: u64, y: u64| -> Vec<u64> {
		let mut r = vec![0; N];
		r[0] = x;
		if N > 1 {
			r[1] = y;
		}
		r
	};
	ensure_eq!(w(Uint::<N>::from(v)), pad(v, 0), "from u64 {v:x}");
	ensure_eq!(w(Uint::<N>::from(v as u32)), pad(v as u32 as u64, 0), "from u32");
	ensure_eq!(w(Uint::<N>::from(v as u16)), pad(v as u16 as u64, 0), "from u16");
	ensure_eq!(w(Uint::<N>::from(v as u8)), pad(v as u8 as u64, 0), "from u8");
	if N > 1 {
		ensure_eq!(w(Uint::<N>::from(v as u128 | (hi as u128) << 64)), pad(v, hi), "from u128");
	}
	ensure_eq!(w(Uint::<N>::default()), vec![0; N], "default");
	ensure_eq!(w(Uint::<N>::MIN), vec![0; N], "MIN");
	ensure_eq!(w(Uint::<N>::MAX), vec![u64::MAX; N], "MAX");
	Ok("small")
}

fn arr<const N: usize>(ix: &mut Idx, al: &[u64]) -> [u64; N] {
	std::array::from_fn(|_| *ix.pick(al))
}

pub fn run(ctx: &Ctx) {
	ctx.rule("operands: every vector of words over boundary values (0, 1, 2^31, 2^32-1, 2^32, 2^63, 2^64-1, mixed) for widths 64, 128, 192, 256 and 512 bits, plus every 2^i and 2^i - 1; all pairs for binary operators; every shift amount 0..=width+65. Compared with an independent base-2^32 schoolbook bignum. Non-trivial: no zero operand.");
	ctx.assume("Division by zero and narrowing through the non-lossy conversions panic by documented contract and are not exercised.");
	ctx.put("exhaustive", true);
	let th = ctx.thorough();
	let full = [0u64, 1, 2, 3, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0xffff_ffff_0000_0000, 0xffff_ffff_ffff_fffe, u64::MAX, 0x0123_4567_89ab_cdef];
	let mid = [0u64, 1, 0xffff_ffff, 0x1_0000_0000, 0x8000_0000_0000_0000, u64::MAX];
	let few = [0u64, 1, 0x8000_0000_0000_0000, u64::MAX];
	let n = full.len() as u64;
	ctx.each("u64", n * n, |i| {
		let mut ix = Idx(i);
		bin::<1>(arr(&mut ix, &full), arr(&mut ix, &full), true)
	});
	ctx.each("u128", n.pow(4), |i| {
		let mut ix = Idx(i);
		bin::<2>(arr(&mut ix, &full), arr(&mut ix, &full), true)
	});
	ctx.each("u192", 6u64.pow(6), |i| {
		let mut ix = Idx(i);
		bin::<3>(arr(&mut ix, &mid), arr(&mut ix, &mid), true)
	});
	ctx.each("u256", if th { 6u64.pow(8) } else { 4u64.pow(8) }, |i| {
		let mut ix = Idx(i);
		let al: &[u64] = if th { &mid } else { &few };
		bin::<4>(arr(&mut ix, al), arr(&mut ix, al), true)
	});
	let two = [0u64, u64::MAX];
	ctx.each("u512", 2u64.pow(16), |i| {
		let mut ix = Idx(i);
		bin::<8>(arr(&mut ix, &two), arr(&mut ix, &two), true)
	});
	// one word of each operand at each place, all others alike
	let dense = [1u64, 0x8000_0000_8000_0000, 0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210, 0xdead_beef_dead_beef, 0xffff_ffff_0000_0001, u64::MAX];
	let rest = [0u64, 0x8000_0000_8000_0001, 0xdead_beef_dead_beef, u64::MAX];
	fn spot<const N: usize>(ix: &mut Idx, dense: &[u64], rest: &[u64]) -> [u64; N] {
		let mut a = [*ix.pick(rest); N];
		a[ix.take(N)] = *ix.pick(dense);
		a
	}
	ctx.each("spots 256", (4 * 4 * 7u64).pow(2), |i| {
		let mut ix = Idx(i);
		bin::<4>(spot(&mut ix, &dense, &rest), spot(&mut ix, &dense, &rest), true)
	});
	ctx.each("spots 512", (4 * 8 * 7u64).pow(2), |i| {
		let mut ix = Idx(i);
		bin::<8>(spot(&mut ix, &dense, &rest), spot(&mut ix, &dense, &rest), true)
	});
	ctx.each("spots unary", 4 * 8 * 7, |i| {
		un::<4>(spot(&mut Idx(i % 112), &dense, &rest))?;
		un::<8>(spot(&mut Idx(i), &dense, &rest))
	});
	// by a short number
	let short = [0u32, 1, 2, 3, 0xffff, 0x1_0001, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xdead_beef, 0xffff_fffe, u32::MAX];
	ctx.each("short factors", 4 * 8 * 7 * 12, |i| {
		let mut ix = Idx(i);
		let a: [u64; 8] = spot(&mut ix, &dense, &rest);
		let m = *ix.pick(&short);
		fn one<const N: usize>(a: &[u64], m: u32) -> Result<(), mc::Fail> {
			let a: [u64; N] = a.try_into().unwrap();
			let got: Vec<u64> = Uint::<N>::from_u64_array(a).mul_u32(m).into();
			ensure_eq!(got, Big::from_words(&a).mul(&Big(vec![m])).words(N), "{a:x?} mul_u32 {m:x}");
			Ok(())
		}
		one::<1>(&a[..1], m)?;
		one::<2>(&a[..2], m)?;
		one::<3>(&a[..3], m)?;
		one::<4>(&a[..4], m)?;
		one::<8>(&a, m)?;
		one::<4>(&a[4..], m)?;
		Ok("short factor")
	});
	// powers of two and their predecessors
	fn pow<const N: usize>(i: usize) -> [u64; N] {
		let mut a = [0u64; N];
		let b = i / 2;
		a[b / 64] = 1 << (b % 64);
		if i % 2 == 1 {
			for w in a.iter_mut().take(b / 64) {
				*w = u64::MAX;
			}
			a[b / 64] = (1u64 << (b % 64)).wrapping_sub(1);
		}
		a
	}
	ctx.each("pow256", 512 * 512, |i| {
		let mut ix = Idx(i);
		bin::<4>(pow(ix.take(512)), pow(ix.take(512)), th || i % 3 == 0)
	});
	ctx.each("pow128", 256 * 256, |i| {
		let mut ix = Idx(i);
		bin::<2>(pow(ix.take(256)), pow(ix.take(256)), true)
	});
	ctx.each("pow512", 1024 * 1024, |i| {
		let mut ix = Idx(i);
		bin::<8>(pow(ix.take(1024)), pow(ix.take(1024)), th)
	});
	ctx.each("unary1", n, |i| un::<1>(arr(&mut Idx(i), &full)));
	ctx.each("unary2", n * n, |i| un::<2>(arr(&mut Idx(i), &full)));
	ctx.each("unary3", 6u64.pow(3), |i| un::<3>(arr(&mut Idx(i), &mid)));
	ctx.each("unary4", 6u64.pow(4), |i| un::<4>(arr(&mut Idx(i), &mid)));
	ctx.each("unary4pow", 512, |i| un::<4>(pow(i as usize)));
	ctx.each("unary8", if th { 4u64.pow(8) } else { 256 }, |i| un::<8>(arr(&mut Idx(i), if th { &few } else { &two })));
	ctx.each("unary8pow", 1024, |i| un::<8>(pow(i as usize)));
	ctx.each("small", n * n, |i| {
		let mut ix = Idx(i);
		let (a, b) = (*ix.pick(&full), *ix.pick(&full));
		small::<1>(a, b)?;
		small::<2>(a, b)?;
		small::<4>(a, b)?;
		small::<8>(a, b)
	});
	// conversion from a double-SHA256 hash is the little-endian number
	ctx.each("hash", 256 * 32 + 256, |i| {
		let mut b = [0u8; 32];
		if i < 256 * 32 {
			b[(i / 256) as usize] = (i % 256) as u8;
		} else {
			b = mc::sha::sha256(&[i as u8]);
		}
		let h = DoubleSha256Hasher::from_bytes(&b).unwrap();
		let u = Uint::<4>::from(h);
		ensure_eq!(u.to_le_bytes(), b.to_vec(), "number of hash {}", mc::hex(b));
		Ok("hash")
	});
	// division: multiples and their neighbours
	let muls: Vec<[u64; 4]> = (0..64).map(|i| pow::<4>(i * 7 + 1)).collect();
	ctx.each("div", 64 * 64 * 3, |i| {
		let mut ix = Idx(i);
		let (a, b) = (*ix.pick(&muls), *ix.pick(&muls));
		let prod = Big::from_words(&a).mul(&Big::from_words(&b)).words(4);
		let mut x = Big::from_words(&prod);
		match ix.take(3) {
			0 => {}
			1 => x = x.add(&Big(vec![1])),
			_ => x = x.sub_mod(&Big(vec![1]), 8),
		}
		let x: [u64; 4] = x.words(4).try_into().unwrap();
		bin::<4>(x, b, true)
	});
	const ZEROS: &str = "000000000000000000000000000000000000000000000000000000000000000";
	const GS: &str = "gggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggggg";
	ctx.each("badhex", 7, |i| {
		let s = ["", "0", "zz", "0x00", "00000000000000000", ZEROS, GS][i as usize];
		ensure!(Uint::<4>::from_be_hex(s).is_err() && Uint::<4>::from_le_hex(s).is_err(), "{s:?} parsed as a number");
		Ok("bad hex")
	});
	let base = "0123456789abcdef".repeat(4);
	let mut texts = mc::affixed(&base);
	texts.extend(mc::affixed(&base[2..]));
	let chars: Vec<char> = (0u8..128).map(|c| c as char).chain(['é', '１']).collect();
	for p in 0..=64 {
		for c in &chars {
			texts.push(format!("{}{c}{}", &base[..p], &base[p..]));
			if p < 64 {
				texts.push(format!("{}{c}{}", &base[..p], &base[p + 1..]));
			}
		}
		texts.push(base[..p].to_string());
	}
	ctx.each("hex texts", texts.len() as u64, |i| {
		let s = &texts[i as usize];
		mc::note(|| format!("hex text {s:?}"));
		let ok = s.len() == 64 && s.bytes().all(|c| c.is_ascii_hexdigit());
		let le = Uint::<4>::from_le_hex(s).ok();
		let be = Uint::<4>::from_be_hex(s).ok();
		ensure!(le.is_some() == ok && be.is_some() == ok, "{s:?} parsed as a number: {}", !ok);
		if ok {
			ensure_eq!(le.unwrap().to_le_bytes(), mc::unhex(&s.to_lowercase()), "little-endian number of {s:?}");
			ensure_eq!(be.unwrap().to_be_bytes(), mc::unhex(&s.to_lowercase()), "big-endian number of {s:?}");
		}
		Ok(if ok { "hex text" } else { "bad hex text" })
	});
}
