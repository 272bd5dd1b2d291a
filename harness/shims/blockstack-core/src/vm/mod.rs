pub mod types;
pub use types::Value;

use std::io::{Read, Write};

use crate::codec::{read_next, write_next, Error, StacksMessageCodec};

fn word(s: &str) -> bool {
	let mut c = s.chars();
	c.next().is_some_and(|c| c.is_ascii_alphabetic()) && c.all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '_')
}
fn is_contract_name(s: &str) -> bool {
	s.len() <= 40 && (word(s) || s == "__transient")
}
fn is_clarity_name(s: &str) -> bool {
	if s.len() > 128 {
		return false;
	}
	let mut c = s.chars();
	if c.next().is_some_and(|c| c.is_ascii_alphabetic()) {
		return c.all(|c| c.is_ascii_alphanumeric() || "-_!?+<>=/*".contains(c));
	}
	matches!(s, "-" | "+" | "=" | "/" | "*" | "<" | ">" | "<=" | ">=")
}

macro_rules! guarded {
	($t:ident, $ok:ident, $max:expr) => {
		#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
		pub struct $t(String);
		impl $t {
			pub fn as_str(&self) -> &str {
				&self.0
			}
			pub fn len(&self) -> u8 {
				self.0.len() as u8
			}
		}
		impl TryFrom<String> for $t {
			type Error = types::RuntimeErrorType;
			fn try_from(s: String) -> Result<Self, Self::Error> {
				if $ok(&s) {
					Ok(Self(s))
				} else {
					Err(types::RuntimeErrorType::BadNameValue(stringify!($t), s))
				}
			}
		}
		impl From<&'_ str> for $t {
			fn from(s: &str) -> Self {
				Self::try_from(s.to_string()).unwrap()
			}
		}
		impl From<$t> for String {
			fn from(s: $t) -> String {
				s.0
			}
		}
		impl std::ops::Deref for $t {
			type Target = str;
			fn deref(&self) -> &str {
				&self.0
			}
		}
		impl AsRef<str> for $t {
			fn as_ref(&self) -> &str {
				&self.0
			}
		}
		impl std::fmt::Display for $t {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				f.write_str(&self.0)
			}
		}
		impl std::fmt::Debug for $t {
			fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
				write!(f, "{}({:?})", stringify!($t), self.0)
			}
		}
		impl serde::Serialize for $t {
			fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
				s.serialize_str(&self.0)
			}
		}
		impl<'de> serde::Deserialize<'de> for $t {
			fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
				let s = String::deserialize(d)?;
				Self::try_from(s).map_err(serde::de::Error::custom)
			}
		}
		impl StacksMessageCodec for $t {
			fn consensus_serialize<W: Write>(&self, fd: &mut W) -> Result<(), Error> {
				write_next(fd, &(self.0.len() as u8))?;
				fd.write_all(self.0.as_bytes()).map_err(Error::WriteError)
			}
			fn consensus_deserialize<R: Read>(fd: &mut R) -> Result<Self, Error> {
				let n: u8 = read_next(fd)?;
				if n < 1 || n > $max {
					return Err(Error::DeserializeError(format!("Failed to deserialize {}: invalid length: {}", stringify!($t), n)));
				}
				let mut b = vec![0; n as usize];
				fd.read_exact(&mut b).map_err(Error::ReadError)?;
				let s = String::from_utf8(b).map_err(|e| Error::DeserializeError(e.to_string()))?;
				Self::try_from(s).map_err(|e| Error::DeserializeError(e.to_string()))
			}
		}
	};
}
use std::convert::TryFrom;

guarded!(ContractName, is_contract_name, 40);
guarded!(ClarityName, is_clarity_name, 128);
