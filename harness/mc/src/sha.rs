//! Independent reference hashes (FIPS 180-4 SHA-256, RIPEMD-160).

const K: [u32; 64] = [
	0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01,
	0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc,
	0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
	0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85,
	0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08,
	0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
	0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2,
];

fn pad(data: &[u8], be: bool) -> Vec<u8> {
	let mut m = data.to_vec();
	let bits = (data.len() as u64) * 8;
	m.push(0x80);
	while m.len() % 64 != 56 {
		m.push(0);
	}
	m.extend_from_slice(&if be { bits.to_be_bytes() } else { bits.to_le_bytes() });
	m
}

pub fn sha256(data: &[u8]) -> [u8; 32] {
	let mut h: [u32; 8] = [
		0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19,
	];
	for chunk in pad(data, true).chunks(64) {
		let mut w = [0u32; 64];
		for i in 0..16 {
			w[i] = u32::from_be_bytes(chunk[4 * i..4 * i + 4].try_into().unwrap());
		}
		for i in 16..64 {
			let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
			let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
			w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
		}
		let mut v = h;
		for i in 0..64 {
			let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
			let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
			let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(K[i]).wrapping_add(w[i]);
			let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
			let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
			let t2 = s0.wrapping_add(maj);
			v = [
				t1.wrapping_add(t2), v[0], v[1], v[2],
				v[3].wrapping_add(t1), v[4], v[5], v[6],
			];
		}
		for i in 0..8 {
			h[i] = h[i].wrapping_add(v[i]);
		}
	}
	let mut out = [0; 32];
	for i in 0..8 {
		out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_be_bytes());
	}
	out
}

pub fn sha256d(data: &[u8]) -> [u8; 32] {
	sha256(&sha256(data))
}

pub fn ripemd160(data: &[u8]) -> [u8; 20] {
	const R1: [usize; 80] = [
		0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4,
		9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14,
		1, 3, 8, 11, 6, 15, 13,
	];
	const R2: [usize; 80] = [
		5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7,
		14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2,
		13, 14, 0, 3, 9, 11,
	];
	const S1: [u32; 80] = [
		11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7,
		14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12,
		5, 12, 13, 14, 11, 8, 5, 6,
	];
	const S2: [u32; 80] = [
		8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11,
		8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6,
		8, 13, 6, 5, 15, 13, 11, 11,
	];
	const K1: [u32; 5] = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e];
	const K2: [u32; 5] = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0];
	fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
		match j / 16 {
			0 => x ^ y ^ z,
			1 => (x & y) | (!x & z),
			2 => (x | !y) ^ z,
			3 => (x & z) | (y & !z),
			_ => x ^ (y | !z),
		}
	}
	let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
	for chunk in pad(data, false).chunks(64) {
		let x: Vec<u32> = (0..16)
			.map(|i| u32::from_le_bytes(chunk[4 * i..4 * i + 4].try_into().unwrap()))
			.collect();
		let (mut a, mut b) = (h, h);
		for j in 0..80 {
			let t = a[0]
				.wrapping_add(f(j, a[1], a[2], a[3]))
				.wrapping_add(x[R1[j]])
				.wrapping_add(K1[j / 16])
				.rotate_left(S1[j])
				.wrapping_add(a[4]);
			a = [a[4], t, a[1], a[2].rotate_left(10), a[3]];
			let t = b[0]
				.wrapping_add(f(79 - j, b[1], b[2], b[3]))
				.wrapping_add(x[R2[j]])
				.wrapping_add(K2[j / 16])
				.rotate_left(S2[j])
				.wrapping_add(b[4]);
			b = [b[4], t, b[1], b[2].rotate_left(10), b[3]];
		}
		let t = h[1].wrapping_add(a[2]).wrapping_add(b[3]);
		h[1] = h[2].wrapping_add(a[3]).wrapping_add(b[4]);
		h[2] = h[3].wrapping_add(a[4]).wrapping_add(b[0]);
		h[3] = h[4].wrapping_add(a[0]).wrapping_add(b[1]);
		h[4] = h[0].wrapping_add(a[1]).wrapping_add(b[2]);
		h[0] = t;
	}
	let mut out = [0; 20];
	for i in 0..5 {
		out[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
	}
	out
}

pub fn hash160(data: &[u8]) -> [u8; 20] {
	ripemd160(&sha256(data))
}

#[cfg(test)]
mod tests {
	use super::*;
	#[test]
	fn vectors() {
		assert_eq!(crate::hex(sha256(b"abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
		assert_eq!(crate::hex(ripemd160(b"abc")), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
		assert_eq!(crate::hex(ripemd160(&[b'a'; 100])).len(), 40);
		assert_eq!(crate::hex(hash160(b"Hello world")), "f5e95668dadf6fdef8521f7e1aa8a5e650c9f849");
	}
}
