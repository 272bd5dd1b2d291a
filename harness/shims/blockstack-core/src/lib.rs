//! The part of `blockstack-core` (the Stacks node library) that romeo uses, with the
//! real wire formats (SIP-005), names and error behaviour. The real crate is a git
//! dependency that cannot be fetched here.
#[macro_use]
mod util_macros {
	macro_rules! hex_array {
		($t:ident, $n:expr) => {
			#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
			pub struct $t(pub [u8; $n]);
			impl $t {
				pub fn from_bytes(b: &[u8]) -> Option<Self> {
					b.try_into().ok().map(Self)
				}
				pub fn from_vec(b: &Vec<u8>) -> Option<Self> {
					Self::from_bytes(b)
				}
				pub fn from_hex(s: &str) -> Result<Self, crate::util::HexError> {
					let b = crate::util::hash::hex_bytes(s)?;
					Self::from_bytes(&b).ok_or(crate::util::HexError::BadLength(s.len()))
				}
				pub fn to_hex(&self) -> String {
					crate::util::hash::to_hex(&self.0)
				}
				pub fn as_bytes(&self) -> &[u8; $n] {
					&self.0
				}
				pub fn to_bytes(&self) -> [u8; $n] {
					self.0
				}
			}
			impl AsRef<[u8]> for $t {
				fn as_ref(&self) -> &[u8] {
					&self.0
				}
			}
			impl From<[u8; $n]> for $t {
				fn from(b: [u8; $n]) -> Self {
					Self(b)
				}
			}
			impl std::fmt::Display for $t {
				fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
					f.write_str(&self.to_hex())
				}
			}
			impl std::fmt::Debug for $t {
				fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
					f.write_str(&self.to_hex())
				}
			}
			impl serde::Serialize for $t {
				fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
					s.serialize_str(&self.to_hex())
				}
			}
			impl<'de> serde::Deserialize<'de> for $t {
				fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
					let s = String::deserialize(d)?;
					Self::from_hex(&s).map_err(serde::de::Error::custom)
				}
			}
			impl crate::codec::StacksMessageCodec for $t {
				fn consensus_serialize<W: std::io::Write>(&self, fd: &mut W) -> Result<(), crate::codec::Error> {
					fd.write_all(&self.0).map_err(crate::codec::Error::WriteError)
				}
				fn consensus_deserialize<R: std::io::Read>(fd: &mut R) -> Result<Self, crate::codec::Error> {
					let mut b = [0; $n];
					fd.read_exact(&mut b).map_err(crate::codec::Error::ReadError)?;
					Ok(Self(b))
				}
			}
		};
	}
}

pub mod util {
	#[derive(Debug, Clone, PartialEq)]
	pub enum HexError {
		BadLength(usize),
		BadCharacter(char),
	}
	impl std::fmt::Display for HexError {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	impl std::error::Error for HexError {}
	pub mod hash {
		use super::HexError;
		pub fn to_hex(b: &[u8]) -> String {
			b.iter().map(|b| format!("{b:02x}")).collect()
		}
		pub fn hex_bytes(s: &str) -> Result<Vec<u8>, HexError> {
			let c: Vec<char> = s.chars().collect();
			if c.len() % 2 != 0 {
				return Err(HexError::BadLength(s.len()));
			}
			c.chunks(2)
				.map(|p| {
					let d = |c: char| c.to_digit(16).ok_or(HexError::BadCharacter(c));
					Ok((d(p[0])? * 16 + d(p[1])?) as u8)
				})
				.collect()
		}
		hex_array!(Hash160, 20);
		impl Hash160 {
			pub fn from_data(d: &[u8]) -> Self {
				use bitcoin_hashes::Hash;
				Hash160(bitcoin_hashes::hash160::Hash::hash(d).into_inner())
			}
		}
		hex_array!(Sha512Trunc256Sum, 32);
		impl Sha512Trunc256Sum {
			pub fn from_data(d: &[u8]) -> Self {
				use sha2::Digest;
				Self(sha2::Sha512_256::digest(d).into())
			}
		}
	}
	pub mod secp256k1 {
		#[derive(Clone, Copy, PartialEq, Eq)]
		pub struct MessageSignature(pub [u8; 65]);
		impl MessageSignature {
			pub fn empty() -> Self {
				Self([0; 65])
			}
		}
		impl std::fmt::Debug for MessageSignature {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				f.write_str(&super::hash::to_hex(&self.0))
			}
		}
	}
}

pub mod burnchains {
	hex_array!(Txid, 32);
}

pub mod core {
	pub const CHAIN_ID_MAINNET: u32 = 0x0000_0001;
	pub const CHAIN_ID_TESTNET: u32 = 0x8000_0000;
}

pub mod codec {
	use std::io::{Read, Write};

	#[derive(Debug)]
	pub enum Error {
		SerializeError(String),
		ReadError(std::io::Error),
		DeserializeError(String),
		WriteError(std::io::Error),
		UnderflowError(String),
		OverflowError(String),
	}
	impl std::fmt::Display for Error {
		fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
			write!(f, "{self:?}")
		}
	}
	impl std::error::Error for Error {}

	pub trait StacksMessageCodec {
		fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error>
		where
			Self: Sized;
		fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error>
		where
			Self: Sized;
		fn serialize_to_vec(&self) -> Vec<u8>
		where
			Self: Sized,
		{
			let mut v = vec![];
			self.consensus_serialize(&mut v).expect("BUG: serialization to buffer failed.");
			v
		}
	}
	macro_rules! ints { ($($t:ty),*) => {$(
		impl StacksMessageCodec for $t {
			fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
				fd.write_all(&self.to_be_bytes()).map_err(Error::WriteError)
			}
			fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
				let mut b = [0; std::mem::size_of::<$t>()];
				fd.read_exact(&mut b).map_err(Error::ReadError)?;
				Ok(<$t>::from_be_bytes(b))
			}
		}
	)*}}
	ints!(u8, u16, u32, u64);
	pub fn write_next<T: StacksMessageCodec, W: Write>(fd: &mut W, x: &T) -> Result<(), Error> {
		x.consensus_serialize(fd)
	}
	pub fn read_next<T: StacksMessageCodec, R: Read>(fd: &mut R) -> Result<T, Error> {
		T::consensus_deserialize(fd)
	}
}

pub mod types {
	pub mod chainstate {
		use std::io::{Read, Write};

		use crate::{
			codec::{read_next, write_next, Error, StacksMessageCodec},
			util::hash::Hash160,
		};

		hex_array!(StacksBlockId, 32);
		hex_array!(BurnchainHeaderHash, 32);

		#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
		pub struct StacksAddress {
			pub version: u8,
			pub bytes: Hash160,
		}
		impl StacksAddress {
			pub fn new(version: u8, bytes: Hash160) -> Self {
				Self {
					version,
					bytes,
				}
			}
		}
		impl std::fmt::Display for StacksAddress {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				f.write_str(&crate::vm::types::c32_address(self.version, &self.bytes.0))
			}
		}
		impl StacksMessageCodec for StacksAddress {
			fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
				write_next(fd, &self.version)?;
				write_next(fd, &self.bytes)
			}
			fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
				Ok(Self {
					version: read_next(fd)?,
					bytes: read_next(fd)?,
				})
			}
		}

		#[derive(Debug, Clone, PartialEq, Eq)]
		pub struct StacksPublicKey {
			pub key: secp256k1::PublicKey,
			pub compressed: bool,
		}
		impl StacksPublicKey {
			pub fn from_slice(b: &[u8]) -> Result<Self, &'static str> {
				match secp256k1::PublicKey::from_slice(b) {
					Ok(key) => Ok(Self {
						key,
						compressed: b.len() == 33,
					}),
					Err(_) => Err("Invalid public key: failed to load"),
				}
			}
			pub fn from_private(k: &StacksPrivateKey) -> Self {
				Self {
					key: secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::signing_only(), &k.key),
					compressed: k.compress_public,
				}
			}
			pub fn to_bytes(&self) -> Vec<u8> {
				if self.compressed {
					self.key.serialize().to_vec()
				} else {
					self.key.serialize_uncompressed().to_vec()
				}
			}
		}
		#[derive(Debug, Clone, PartialEq, Eq)]
		pub struct StacksPrivateKey {
			pub key: secp256k1::SecretKey,
			pub compress_public: bool,
		}
		impl StacksPrivateKey {
			pub fn from_slice(b: &[u8]) -> Result<Self, &'static str> {
				if b.len() < 32 {
					return Err("Invalid private key: shorter than 32 bytes");
				}
				if b.len() > 33 {
					return Err("Invalid private key: greater than 33 bytes");
				}
				let compress_public = if b.len() == 33 {
					if b[32] != 1 {
						return Err("Invalid private key: invalid compressed byte marker");
					}
					true
				} else {
					false
				};
				match secp256k1::SecretKey::from_slice(&b[..32]) {
					Ok(key) => Ok(Self {
						key,
						compress_public,
					}),
					Err(_) => Err("Invalid private key: failed to load"),
				}
			}
			pub fn set_compress_public(&mut self, c: bool) {
				self.compress_public = c;
			}
		}
	}
}

pub mod chainstate;
pub mod vm;
