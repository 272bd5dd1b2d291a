use std::io::{Read, Write};

use serde::{Deserialize, Serialize};

pub use crate::types::chainstate::{StacksAddress, StacksPrivateKey, StacksPublicKey};
use crate::{
	burnchains::Txid,
	codec::{read_next, write_next, Error, StacksMessageCodec},
	util::{
		hash::{Hash160, Sha512Trunc256Sum},
		secp256k1::MessageSignature,
	},
	vm::{types::Value, ClarityName, ContractName},
};

pub const C32_ADDRESS_VERSION_MAINNET_SINGLESIG: u8 = 22;
pub const C32_ADDRESS_VERSION_TESTNET_SINGLESIG: u8 = 26;

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum TransactionVersion {
	Mainnet = 0x00,
	Testnet = 0x80,
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum TransactionAnchorMode {
	OnChainOnly = 1,
	OffChainOnly = 2,
	Any = 3,
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum TransactionPostConditionMode {
	Allow = 1,
	Deny = 2,
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum TransactionPublicKeyEncoding {
	Compressed = 0,
	Uncompressed = 1,
}

#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum SinglesigHashMode {
	P2PKH = 0,
	P2WPKH = 2,
}

mod sig_serde {
	use super::*;
	pub fn serialize<S: serde::Serializer>(x: &MessageSignature, s: S) -> Result<S::Ok, S::Error> {
		s.serialize_str(&crate::util::hash::to_hex(&x.0))
	}
	pub fn deserialize<'de, D: serde::Deserializer<'de>>(d: D) -> Result<MessageSignature, D::Error> {
		let s = String::deserialize(d)?;
		let b = crate::util::hash::hex_bytes(&s).map_err(serde::de::Error::custom)?;
		Ok(MessageSignature(b.try_into().map_err(|_| serde::de::Error::custom("signature length"))?))
	}
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct SinglesigSpendingCondition {
	pub hash_mode: SinglesigHashMode,
	pub signer: Hash160,
	pub nonce: u64,
	pub tx_fee: u64,
	pub key_encoding: TransactionPublicKeyEncoding,
	#[serde(with = "sig_serde")]
	pub signature: MessageSignature,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TransactionSpendingCondition {
	Singlesig(SinglesigSpendingCondition),
}

impl TransactionSpendingCondition {
	pub fn new_singlesig_p2pkh(pubkey: StacksPublicKey) -> Option<Self> {
		let key_encoding = if pubkey.compressed { TransactionPublicKeyEncoding::Compressed } else { TransactionPublicKeyEncoding::Uncompressed };
		Some(Self::Singlesig(SinglesigSpendingCondition {
			hash_mode: SinglesigHashMode::P2PKH,
			signer: Hash160::from_data(&pubkey.to_bytes()),
			nonce: 0,
			tx_fee: 0,
			key_encoding,
			signature: MessageSignature::empty(),
		}))
	}
	pub fn nonce(&self) -> u64 {
		let Self::Singlesig(c) = self;
		c.nonce
	}
	pub fn tx_fee(&self) -> u64 {
		let Self::Singlesig(c) = self;
		c.tx_fee
	}
	pub fn set_nonce(&mut self, n: u64) {
		let Self::Singlesig(c) = self;
		c.nonce = n
	}
	pub fn set_tx_fee(&mut self, n: u64) {
		let Self::Singlesig(c) = self;
		c.tx_fee = n
	}
	pub fn make_sighash_presign(cur: &Txid, flag: u8, tx_fee: u64, nonce: u64) -> Txid {
		let mut b = cur.0.to_vec();
		b.push(flag);
		b.extend(tx_fee.to_be_bytes());
		b.extend(nonce.to_be_bytes());
		Txid(Sha512Trunc256Sum::from_data(&b).0)
	}
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TransactionAuth {
	Standard(TransactionSpendingCondition),
}

impl TransactionAuth {
	pub fn origin(&self) -> &TransactionSpendingCondition {
		let Self::Standard(c) = self;
		c
	}
	pub fn set_origin_nonce(&mut self, n: u64) {
		let Self::Standard(c) = self;
		c.set_nonce(n)
	}
	pub fn set_tx_fee(&mut self, n: u64) -> Result<(), Error> {
		let Self::Standard(c) = self;
		c.set_tx_fee(n);
		Ok(())
	}
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct TransactionContractCall {
	pub address: StacksAddress,
	pub contract_name: ContractName,
	pub function_name: ClarityName,
	pub function_args: Vec<Value>,
}

impl TransactionContractCall {
	pub fn contract_identifier(&self) -> crate::vm::types::QualifiedContractIdentifier {
		crate::vm::types::QualifiedContractIdentifier::new(
			crate::vm::types::StandardPrincipalData(self.address.version, self.address.bytes.0),
			self.contract_name.clone(),
		)
	}
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub enum TransactionPayload {
	ContractCall(TransactionContractCall),
	/// 34 bytes of memo, as in a block's coinbase
	Coinbase(Vec<u8>),
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct StacksTransaction {
	pub version: TransactionVersion,
	pub chain_id: u32,
	pub auth: TransactionAuth,
	pub anchor_mode: TransactionAnchorMode,
	pub post_condition_mode: TransactionPostConditionMode,
	pub post_conditions: Vec<()>,
	pub payload: TransactionPayload,
}

impl StacksTransaction {
	pub fn new(version: TransactionVersion, auth: TransactionAuth, payload: TransactionPayload) -> Self {
		Self {
			version,
			chain_id: 0,
			auth,
			anchor_mode: TransactionAnchorMode::Any,
			post_condition_mode: TransactionPostConditionMode::Deny,
			post_conditions: vec![],
			payload,
		}
	}
	pub fn tx_len(&self) -> u64 {
		self.serialize_to_vec().len() as u64
	}
	pub fn txid(&self) -> Txid {
		Txid(Sha512Trunc256Sum::from_data(&self.serialize_to_vec()).0)
	}
	pub fn is_mainnet(&self) -> bool {
		self.version == TransactionVersion::Mainnet
	}
	pub fn set_origin_nonce(&mut self, n: u64) {
		self.auth.set_origin_nonce(n)
	}
	pub fn get_origin_nonce(&self) -> u64 {
		self.auth.origin().nonce()
	}
	pub fn set_tx_fee(&mut self, n: u64) {
		self.auth.set_tx_fee(n).unwrap()
	}
	pub fn get_tx_fee(&self) -> u64 {
		self.auth.origin().tx_fee()
	}
	pub fn set_anchor_mode(&mut self, m: TransactionAnchorMode) {
		self.anchor_mode = m
	}
	pub fn set_post_condition_mode(&mut self, m: TransactionPostConditionMode) {
		self.post_condition_mode = m
	}
	pub fn sign_begin(&self) -> Txid {
		let mut t = self.clone();
		let TransactionAuth::Standard(TransactionSpendingCondition::Singlesig(c)) = &mut t.auth;
		c.nonce = 0;
		c.tx_fee = 0;
		c.signature = MessageSignature::empty();
		t.txid()
	}
	/// Checks the origin's signature, as a node does on arrival.
	pub fn verify(&self) -> Result<(), Error> {
		let TransactionAuth::Standard(TransactionSpendingCondition::Singlesig(c)) = &self.auth;
		let h = TransactionSpendingCondition::make_sighash_presign(&self.sign_begin(), 4, c.tx_fee, c.nonce);
		let bad = |s: &str| Error::DeserializeError(s.into());
		let id = secp256k1::ecdsa::RecoveryId::from_i32(c.signature.0[0] as i32).map_err(|_| bad("recovery id"))?;
		let sig = secp256k1::ecdsa::RecoverableSignature::from_compact(&c.signature.0[1..], id).map_err(|_| bad("signature"))?;
		let key = secp256k1::Secp256k1::verification_only()
			.recover_ecdsa(&secp256k1::Message::from_slice(&h.0).unwrap(), &sig)
			.map_err(|_| bad("recover"))?;
		let bytes = match c.key_encoding {
			TransactionPublicKeyEncoding::Compressed => key.serialize().to_vec(),
			TransactionPublicKeyEncoding::Uncompressed => key.serialize_uncompressed().to_vec(),
		};
		if Hash160::from_data(&bytes) != c.signer {
			return Err(bad("signer hash does not equal hash of public key(s)"));
		}
		Ok(())
	}
	pub fn origin_address(&self) -> StacksAddress {
		let TransactionAuth::Standard(TransactionSpendingCondition::Singlesig(c)) = &self.auth;
		StacksAddress {
			version: if self.is_mainnet() { C32_ADDRESS_VERSION_MAINNET_SINGLESIG } else { C32_ADDRESS_VERSION_TESTNET_SINGLESIG },
			bytes: c.signer,
		}
	}
}

macro_rules! byte_enum {
	($r:expr, $t:ident, $($v:ident),*) => {{
		let b: u8 = read_next($r)?;
		$(if b == $t::$v as u8 { $t::$v } else)*
		{ return Err(Error::DeserializeError(format!(concat!("bad ", stringify!($t), " {}"), b))) }
	}};
}

impl StacksMessageCodec for StacksTransaction {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
		write_next(fd, &(self.version as u8))?;
		write_next(fd, &self.chain_id)?;
		let TransactionAuth::Standard(TransactionSpendingCondition::Singlesig(c)) = &self.auth;
		write_next(fd, &4u8)?;
		write_next(fd, &(c.hash_mode as u8))?;
		write_next(fd, &c.signer)?;
		write_next(fd, &c.nonce)?;
		write_next(fd, &c.tx_fee)?;
		write_next(fd, &(c.key_encoding as u8))?;
		fd.write_all(&c.signature.0).map_err(Error::WriteError)?;
		write_next(fd, &(self.anchor_mode as u8))?;
		write_next(fd, &(self.post_condition_mode as u8))?;
		write_next(fd, &0u32)?;
		match &self.payload {
			TransactionPayload::ContractCall(c) => {
				write_next(fd, &2u8)?;
				write_next(fd, &c.address)?;
				write_next(fd, &c.contract_name)?;
				write_next(fd, &c.function_name)?;
				write_next(fd, &(c.function_args.len() as u32))?;
				for a in &c.function_args {
					write_next(fd, a)?;
				}
			}
			TransactionPayload::Coinbase(m) => {
				write_next(fd, &4u8)?;
				fd.write_all(m).map_err(Error::WriteError)?;
			}
		}
		Ok(())
	}
	fn consensus_deserialize<R: Read>(r: &mut R) -> Result<Self, Error> {
		let v: u8 = read_next(r)?;
		let version = if v & 0x80 == 0 { TransactionVersion::Mainnet } else { TransactionVersion::Testnet };
		let chain_id = read_next(r)?;
		let a: u8 = read_next(r)?;
		if a != 4 {
			return Err(Error::DeserializeError(format!("unsupported auth {a}")));
		}
		let hash_mode = byte_enum!(r, SinglesigHashMode, P2PKH, P2WPKH);
		let signer = read_next(r)?;
		let nonce = read_next(r)?;
		let tx_fee = read_next(r)?;
		let key_encoding = byte_enum!(r, TransactionPublicKeyEncoding, Compressed, Uncompressed);
		let mut signature = MessageSignature::empty();
		r.read_exact(&mut signature.0).map_err(Error::ReadError)?;
		let anchor_mode = byte_enum!(r, TransactionAnchorMode, OnChainOnly, OffChainOnly, Any);
		let post_condition_mode = byte_enum!(r, TransactionPostConditionMode, Allow, Deny);
		let n: u32 = read_next(r)?;
		if n != 0 {
			return Err(Error::DeserializeError("post-conditions are not supported".into()));
		}
		let p: u8 = read_next(r)?;
		let payload = match p {
			2 => {
				let address = read_next(r)?;
				let contract_name = read_next(r)?;
				let function_name = read_next(r)?;
				let n: u32 = read_next(r)?;
				let mut function_args = vec![];
				for _ in 0..n {
					function_args.push(read_next(r)?);
				}
				TransactionPayload::ContractCall(TransactionContractCall {
					address,
					contract_name,
					function_name,
					function_args,
				})
			}
			4 => {
				let mut m = vec![0; 32];
				r.read_exact(&mut m).map_err(Error::ReadError)?;
				TransactionPayload::Coinbase(m)
			}
			_ => return Err(Error::DeserializeError(format!("unsupported payload {p}"))),
		};
		Ok(Self {
			version,
			chain_id,
			auth: TransactionAuth::Standard(TransactionSpendingCondition::Singlesig(SinglesigSpendingCondition {
				hash_mode,
				signer,
				nonce,
				tx_fee,
				key_encoding,
				signature,
			})),
			anchor_mode,
			post_condition_mode,
			post_conditions: vec![],
			payload,
		})
	}
}

#[derive(Debug, Clone)]
pub struct StacksTransactionSigner {
	pub tx: StacksTransaction,
	pub sighash: Txid,
	done: bool,
}

impl StacksTransactionSigner {
	pub fn new(tx: &StacksTransaction) -> Self {
		Self {
			tx: tx.clone(),
			sighash: tx.sign_begin(),
			done: false,
		}
	}
	pub fn sign_origin(&mut self, k: &StacksPrivateKey) -> Result<(), Error> {
		if self.done {
			return Err(Error::SerializeError("Cannot sign a transaction more than necessary".into()));
		}
		let TransactionAuth::Standard(TransactionSpendingCondition::Singlesig(c)) = &mut self.tx.auth;
		let h = TransactionSpendingCondition::make_sighash_presign(&self.sighash, 4, c.tx_fee, c.nonce);
		let (id, rs) = secp256k1::Secp256k1::signing_only()
			.sign_ecdsa_recoverable(&secp256k1::Message::from_slice(&h.0).unwrap(), &k.key)
			.serialize_compact();
		c.signature.0[0] = id.to_i32() as u8;
		c.signature.0[1..].copy_from_slice(&rs);
		self.done = true;
		Ok(())
	}
	pub fn get_tx(&self) -> Option<StacksTransaction> {
		self.done.then(|| self.tx.clone())
	}
	pub fn get_tx_incomplete(&self) -> StacksTransaction {
		self.tx.clone()
	}
}
