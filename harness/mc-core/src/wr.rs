//! Reference model of withdrawal requests.
use bdk::bitcoin::{
	secp256k1::{
		ecdsa::{RecoverableSignature, RecoveryId},
		Message, PublicKey, Secp256k1, SecretKey,
	},
	Network, Script, TxOut,
};

use crate::{btc::*, fix::*};

/// Text form of an address, written from its script: base58check or bech32(m)
/// through the reference encoders below.
pub fn ref_address_text(script: &[u8], net: Network) -> Option<String> {
	let main = net == Network::Bitcoin;
	let n = script.len();
	if n == 25 && script[..3] == [0x76, 0xa9, 20] && script[23..] == [0x88, 0xac] {
		return Some(base58check(if main { 0 } else { 111 }, &script[3..23]));
	}
	if n == 23 && script[..2] == [0xa9, 20] && script[22] == 0x87 {
		return Some(base58check(if main { 5 } else { 196 }, &script[2..22]));
	}
	if crate::c18::ref_is_address(script) {
		let hrp = match net {
			Network::Bitcoin => "bc",
			Network::Regtest => "bcrt",
			_ => "tb",
		};
		let v = if script[0] == 0 { 0 } else { script[0] - 0x50 };
		return Some(bech32(hrp, v, &script[2..]));
	}
	None
}

pub fn base58check(version: u8, h: &[u8]) -> String {
	const A: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
	let mut d = vec![version];
	d.extend_from_slice(h);
	let c = mc::sha::sha256d(&d);
	d.extend_from_slice(&c[..4]);
	let zeros = d.iter().take_while(|b| **b == 0).count();
	let mut digits: Vec<u8> = vec![]; // little-endian base 58
	for b in &d {
		let mut carry = *b as u32;
		for x in digits.iter_mut() {
			let v = *x as u32 * 256 + carry;
			*x = (v % 58) as u8;
			carry = v / 58;
		}
		while carry > 0 {
			digits.push((carry % 58) as u8);
			carry /= 58;
		}
	}
	let mut s = "1".repeat(zeros);
	s.extend(digits.iter().rev().map(|d| A[*d as usize] as char));
	s
}

pub fn bech32(hrp: &str, version: u8, prog: &[u8]) -> String {
	const A: &[u8] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
	fn polymod(v: &[u8]) -> u32 {
		let g = [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3];
		let mut c = 1u32;
		for x in v {
			let b = c >> 25;
			c = (c & 0x1ffffff) << 5 ^ *x as u32;
			for (i, gi) in g.iter().enumerate() {
				if (b >> i) & 1 == 1 {
					c ^= gi;
				}
			}
		}
		c
	}
	let mut data = vec![version];
	let (mut acc, mut bits) = (0u32, 0);
	for b in prog {
		acc = acc << 8 | *b as u32;
		bits += 8;
		while bits >= 5 {
			bits -= 5;
			data.push((acc >> bits & 31) as u8);
		}
		acc &= (1 << bits) - 1;
	}
	if bits > 0 {
		data.push((acc << (5 - bits) & 31) as u8);
	}
	let mut v: Vec<u8> = hrp.bytes().map(|c| c >> 5).collect();
	v.push(0);
	v.extend(hrp.bytes().map(|c| c & 31));
	v.extend(&data);
	v.extend([0; 6]);
	let k = polymod(&v) ^ if version == 0 { 1 } else { 0x2bc830a3 };
	for i in 0..6 {
		data.push((k >> (5 * (5 - i)) & 31) as u8);
	}
	format!("{hrp}1{}", data.iter().map(|d| A[*d as usize] as char).collect::<String>())
}

/// SIP-018-like signed text of a withdrawal request, hashed.
pub fn ref_message(amount: u64, script: &[u8], net: Network) -> [u8; 32] {
	let addr = ref_address_text(script, net).unwrap();
	let mut bin = amount.to_be_bytes().to_vec();
	bin.extend_from_slice(script);
	let text = format!("Withdraw request for {amount} satoshis to the bitcoin address {addr} ({})", mc::hex(&bin));
	assert!(text.len() < 256);
	let mut m = vec![23];
	m.extend_from_slice(b"Stacks Signed Message:\n");
	assert_eq!(m.len(), 24);
	m[0] = (m.len() - 1) as u8;
	m.push(text.len() as u8);
	m.extend_from_slice(text.as_bytes());
	mc::sha::sha256(&m)
}

pub fn sig_bytes(s: &RecoverableSignature) -> Vec<u8> {
	let (id, c) = s.serialize_compact();
	let mut v = vec![id.to_i32() as u8];
	v.extend_from_slice(&c);
	v
}

pub fn ref_sign(key: &SecretKey, amount: u64, script: &[u8], net: Network) -> Vec<u8> {
	let m = Message::from_slice(&ref_message(amount, script, net)).unwrap();
	sig_bytes(&Secp256k1::new().sign_ecdsa_recoverable(&m, key))
}

pub fn ref_recover(amount: u64, script: &[u8], net: Network, sig: &[u8]) -> Option<PublicKey> {
	if sig.len() < 65 || sig[0] > 3 {
		return None;
	}
	let s = RecoverableSignature::from_compact(&sig[1..65], RecoveryId::from_i32(sig[0] as i32).ok()?).ok()?;
	let m = Message::from_slice(&ref_message(amount, script, net)).unwrap();
	Secp256k1::new().recover_ecdsa(&m, &s).ok()
}

pub fn request_payload(net: Network, amount: u64, sig: &[u8]) -> Vec<u8> {
	let mut p = ref_magic(net).to_vec();
	p.push(b'>');
	p.extend(amount.to_be_bytes());
	p.extend_from_slice(sig);
	p
}

#[derive(Debug, PartialEq)]
pub struct RefRequest {
	pub amount: u64,
	pub sig: Vec<u8>,
	pub payee: Script,
	pub drawee: String,
	pub wallet: Script,
	pub fee: u64,
}

pub fn drawee(pk: &PublicKey, net: Network) -> String {
	ref_address(if net == Network::Bitcoin { 22 } else { 26 }, &mc::sha::hash160(&pk.serialize()))
}

/// Reference parser of withdrawal requests over raw outputs.
pub fn ref_parse(net: Network, outs: &[TxOut]) -> Option<RefRequest> {
	let d = ref_op_return_data(outs.first()?.script_pubkey.as_bytes())?;
	if d.len() < 76 || d[..2] != ref_magic(net) || d[2] != b'>' {
		return None;
	}
	let amount = u64::from_be_bytes(d[3..11].try_into().unwrap());
	let sig = d[11..76].to_vec();
	let payee = outs.get(1)?.script_pubkey.clone();
	if !crate::c18::ref_is_address(payee.as_bytes()) {
		return None;
	}
	let pk = ref_recover(amount, payee.as_bytes(), net, &sig)?;
	let o = outs.get(2)?;
	if !crate::c18::ref_is_address(o.script_pubkey.as_bytes()) {
		return None;
	}
	Some(RefRequest {
		amount,
		sig,
		payee,
		drawee: drawee(&pk, net),
		wallet: o.script_pubkey.clone(),
		fee: o.value,
	})
}
