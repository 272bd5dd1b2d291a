//! Shared fixtures and reference models.
use bdk::bitcoin::secp256k1::SecretKey;
use mc::sha::{sha256d, hash160};
use stacks_core::{address::AddressVersion, crypto::PublicKey};

pub const ALPHABET: &[u8; 32] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
pub const VERSIONS: [AddressVersion; 4] = [
	AddressVersion::MainnetSingleSig,
	AddressVersion::MainnetMultiSig,
	AddressVersion::TestnetSingleSig,
	AddressVersion::TestnetMultiSig,
];
/// Version bytes from the Stacks address specification (SIP-005).
pub const VERSION_BYTES: [u8; 4] = [22, 20, 26, 21];

/// Reference c32 value of a character (with the aliases of the c32 spec).
pub fn c32_val(c: u8) -> Option<u8> {
	let c = match c.to_ascii_uppercase() {
		b'O' => b'0',
		b'L' | b'I' => b'1',
		c => c,
	};
	ALPHABET.iter().position(|a| *a == c).map(|x| x as u8)
}

/// Reference c32 encoding: one '0' per leading zero byte, then the big-endian
/// integer in base 32 (schoolbook long division).
pub fn ref_c32_encode(data: &[u8]) -> String {
	let zeros = data.iter().take_while(|b| **b == 0).count();
	let mut n: Vec<u8> = data[zeros..].to_vec();
	let mut digits = vec![];
	while !n.is_empty() {
		let mut rem = 0u32;
		for b in n.iter_mut() {
			let v = rem * 256 + *b as u32;
			*b = (v / 32) as u8;
			rem = v % 32;
		}
		digits.push(ALPHABET[rem as usize]);
		let z = n.iter().take_while(|b| **b == 0).count();
		n.drain(..z);
	}
	digits.extend(std::iter::repeat(b'0').take(zeros));
	digits.reverse();
	String::from_utf8(digits).unwrap()
}

/// Reference c32 decoding; None when a character is outside the alphabet.
pub fn ref_c32_decode(s: &str) -> Option<Vec<u8>> {
	let mut vals = vec![];
	for c in s.bytes() {
		vals.push(c32_val(c)?);
	}
	let zeros = vals.iter().take_while(|v| **v == 0).count();
	let mut n: Vec<u8> = vec![]; // big-endian base 256
	for v in &vals[zeros..] {
		let mut carry = *v as u32;
		for b in n.iter_mut().rev() {
			let x = *b as u32 * 32 + carry;
			*b = (x & 0xff) as u8;
			carry = x >> 8;
		}
		while carry > 0 {
			n.insert(0, (carry & 0xff) as u8);
			carry >>= 8;
		}
	}
	let mut out = vec![0; zeros];
	out.extend(n);
	Some(out)
}

/// Reference address string.
pub fn ref_address(version: u8, data: &[u8]) -> String {
	let mut v = vec![version];
	v.extend_from_slice(data);
	let ck = sha256d(&v);
	let mut body = data.to_vec();
	body.extend_from_slice(&ck[..4]);
	format!("S{}{}", ALPHABET[version as usize] as char, ref_c32_encode(&body))
}

/// Reference address parser; None = must be rejected.
pub fn ref_parse_address(s: &str) -> Option<(u8, Vec<u8>)> {
	if !s.is_ascii() || !s.starts_with('S') || s.len() < 2 {
		return None;
	}
	let version = c32_val(s.as_bytes()[1])?;
	let body = ref_c32_decode(&s[2..])?;
	if body.len() < 4 {
		return None;
	}
	let (data, ck) = body.split_at(body.len() - 4);
	let mut v = vec![version];
	v.extend_from_slice(data);
	if sha256d(&v)[..4] != *ck || !VERSION_BYTES.contains(&version) {
		return None;
	}
	Some((version, data.to_vec()))
}

/// Hash patterns that stress leading zeros, single set bytes and carries.
pub fn hash_patterns() -> Vec<[u8; 20]> {
	let mut v = vec![[0u8; 20], [0xff; 20]];
	for i in 0..20 {
		for b in [1u8, 0x1f, 0x20, 0x80, 0xff] {
			let mut h = [0u8; 20];
			h[i] = b;
			v.push(h);
		}
		let mut h = [0u8; 20];
		for (j, x) in h.iter_mut().enumerate().skip(i) {
			*x = (j as u8).wrapping_mul(37).wrapping_add(11);
		}
		v.push(h);
		let mut h = [0xffu8; 20];
		h[i] = 0;
		v.push(h);
	}
	for i in 0..8u8 {
		v.push(hash160(&[i]));
	}
	v.sort();
	v.dedup();
	v
}

pub fn few_hashes() -> Vec<[u8; 20]> {
	let mut a = [0u8; 20];
	a[19] = 1;
	let mut b = [0u8; 20];
	b[0] = 0x80;
	vec![[0u8; 20], a, b, hash160(b"few"), [0xff; 20]]
}

/// Secret keys: boundary scalars and hashes.
pub fn secret_keys() -> Vec<SecretKey> {
	let mut v = vec![];
	let mut one = [0u8; 32];
	one[31] = 1;
	v.push(one);
	one[31] = 2;
	v.push(one);
	// n - 1, n - 2
	let n1 = mc::unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140");
	v.push(n1.clone().try_into().unwrap());
	let mut n2 = n1;
	n2[31] -= 1;
	v.push(n2.try_into().unwrap());
	// (n-1)/2
	v.push(mc::unhex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0").try_into().unwrap());
	for i in 0..6u8 {
		v.push(mc::sha::sha256(&[b'k', i]));
	}
	// leading zero bytes
	let mut z = mc::sha::sha256(b"zz");
	z[..3].fill(0);
	v.push(z);
	v.into_iter().map(|b| SecretKey::from_slice(&b).unwrap()).collect()
}

pub fn public_keys() -> Vec<PublicKey> {
	let secp = bdk::bitcoin::secp256k1::Secp256k1::new();
	secret_keys().iter().map(|s| s.public_key(&secp)).collect()
}

pub fn version_of(b: u8) -> Option<AddressVersion> {
	VERSION_BYTES.iter().position(|x| *x == b).map(|i| VERSIONS[i])
}

/// Contract name grammar of SIP-002/SIP-005: letter, then letters, digits, '-'
/// or '_', at most 40 in total; or the reserved "__transient".
pub fn ref_contract_name(s: &str) -> bool {
	if s == "__transient" {
		return true;
	}
	let b = s.as_bytes();
	!b.is_empty()
		&& b.len() <= 40
		&& b[0].is_ascii_alphabetic()
		&& b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_')
}

/// Valid names covering every length and every legal character class edge.
pub fn contract_names() -> Vec<String> {
	let mut v = vec![];
	for l in 1..=40usize {
		v.push("a".repeat(l));
	}
	for s in ["A", "Z", "z", "a0", "a9", "a-", "a_", "aZ", "asset", "sbtc-token_v2", "__transient"] {
		v.push(s.into());
	}
	let mut s = String::from("X");
	for i in 0..39 {
		s.push(b"09azAZ-_"[i % 8] as char);
	}
	v.push(s);
	v.sort();
	v.dedup();
	v
}
