use std::{
	fmt,
	io::{Read, Write},
};

use serde::{Deserialize, Serialize};

use super::ContractName;
use crate::{
	codec::{read_next, write_next, Error, StacksMessageCodec},
	types::chainstate::StacksAddress,
	util::hash::to_hex,
};

#[derive(Debug, Clone, PartialEq)]
pub enum RuntimeErrorType {
	BadNameValue(&'static str, String),
	ValueTooLarge,
	TypeMismatch,
}
impl fmt::Display for RuntimeErrorType {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{self:?}")
	}
}
impl std::error::Error for RuntimeErrorType {}
pub type Result<T> = std::result::Result<T, RuntimeErrorType>;

/// The c32check form of an address.
pub fn c32_address(version: u8, hash: &[u8]) -> String {
	use bitcoin_hashes::{sha256d, Hash};
	const ALPHABET: &[u8] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
	let mut pre = vec![version];
	pre.extend(hash);
	let sum = sha256d::Hash::hash(&pre).into_inner();
	let mut data = hash.to_vec();
	data.extend(&sum[..4]);
	let zeros = data.iter().take_while(|b| **b == 0).count();
	let mut out = vec![];
	let (mut acc, mut bits) = (0u32, 0);
	for b in data.iter().rev() {
		acc |= (*b as u32) << bits;
		bits += 8;
		while bits >= 5 {
			out.push(ALPHABET[(acc & 31) as usize]);
			acc >>= 5;
			bits -= 5;
		}
	}
	if bits > 0 {
		out.push(ALPHABET[acc as usize]);
	}
	while out.last() == Some(&b'0') {
		out.pop();
	}
	out.extend(std::iter::repeat(b'0').take(zeros));
	out.reverse();
	format!("S{}{}", ALPHABET[(version & 31) as usize] as char, String::from_utf8(out).unwrap())
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct StandardPrincipalData(pub u8, pub [u8; 20]);
impl StandardPrincipalData {
	pub fn to_address(&self) -> String {
		c32_address(self.0, &self.1)
	}
}
impl fmt::Display for StandardPrincipalData {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		f.write_str(&self.to_address())
	}
}
impl fmt::Debug for StandardPrincipalData {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "StandardPrincipalData({})", self.to_address())
	}
}
impl From<StacksAddress> for StandardPrincipalData {
	fn from(a: StacksAddress) -> Self {
		Self(a.version, a.bytes.0)
	}
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct QualifiedContractIdentifier {
	pub issuer: StandardPrincipalData,
	pub name: ContractName,
}
impl QualifiedContractIdentifier {
	pub fn new(issuer: StandardPrincipalData, name: ContractName) -> Self {
		Self {
			issuer,
			name,
		}
	}
}
impl fmt::Display for QualifiedContractIdentifier {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "{}.{}", self.issuer, self.name)
	}
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum PrincipalData {
	Standard(StandardPrincipalData),
	Contract(QualifiedContractIdentifier),
}
impl fmt::Display for PrincipalData {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match self {
			Self::Standard(s) => write!(f, "{s}"),
			Self::Contract(c) => write!(f, "{c}"),
		}
	}
}
impl From<StandardPrincipalData> for PrincipalData {
	fn from(p: StandardPrincipalData) -> Self {
		Self::Standard(p)
	}
}
impl From<QualifiedContractIdentifier> for PrincipalData {
	fn from(p: QualifiedContractIdentifier) -> Self {
		Self::Contract(p)
	}
}
impl From<StacksAddress> for PrincipalData {
	fn from(a: StacksAddress) -> Self {
		Self::Standard(a.into())
	}
}
impl StacksMessageCodec for PrincipalData {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> std::result::Result<(), Error> {
		match self {
			Self::Standard(s) => {
				write_next(fd, &5u8)?;
				write_next(fd, &s.0)?;
				fd.write_all(&s.1).map_err(Error::WriteError)
			}
			Self::Contract(c) => {
				write_next(fd, &6u8)?;
				write_next(fd, &c.issuer.0)?;
				fd.write_all(&c.issuer.1).map_err(Error::WriteError)?;
				write_next(fd, &c.name)
			}
		}
	}
	fn consensus_deserialize<R: Read>(fd: &mut R) -> std::result::Result<Self, Error> {
		let t: u8 = read_next(fd)?;
		if t != 5 && t != 6 {
			return Err(Error::DeserializeError("Bad principal type".into()));
		}
		let version = read_next(fd)?;
		let mut h = [0; 20];
		fd.read_exact(&mut h).map_err(Error::ReadError)?;
		let s = StandardPrincipalData(version, h);
		Ok(if t == 5 { Self::Standard(s) } else { Self::Contract(QualifiedContractIdentifier::new(s, read_next(fd)?)) })
	}
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum TypeSignature {
	NoType,
	IntType,
	UIntType,
	BoolType,
	PrincipalType,
	/// longest buffer
	BufferType(u32),
	ListType(Box<ListTypeData>),
}
pub static BUFF_32: TypeSignature = TypeSignature::BufferType(32);
pub static BUFF_33: TypeSignature = TypeSignature::BufferType(33);
pub static BUFF_80: TypeSignature = TypeSignature::BufferType(80);

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct ListTypeData {
	max_len: u32,
	entry_type: Box<TypeSignature>,
}
impl ListTypeData {
	pub fn new_list(entry_type: TypeSignature, max_len: u32) -> Result<Self> {
		Ok(Self {
			max_len,
			entry_type: Box::new(entry_type),
		})
	}
	pub fn get_max_len(&self) -> u32 {
		self.max_len
	}
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct BuffData {
	pub data: Vec<u8>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct ListData {
	pub data: Vec<Value>,
	pub type_signature: ListTypeData,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum SequenceData {
	Buffer(BuffData),
	List(ListData),
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct OptionalData {
	pub data: Option<Box<Value>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Value {
	Int(i128),
	UInt(u128),
	Bool(bool),
	Sequence(SequenceData),
	Principal(PrincipalData),
	Optional(OptionalData),
}

pub const MAX_VALUE_SIZE: u32 = 1024 * 1024;

impl Value {
	pub fn buff_from(data: Vec<u8>) -> Result<Self> {
		if data.len() > MAX_VALUE_SIZE as usize {
			return Err(RuntimeErrorType::ValueTooLarge);
		}
		Ok(Self::Sequence(SequenceData::Buffer(BuffData {
			data,
		})))
	}
	pub fn buff_from_byte(b: u8) -> Self {
		Self::buff_from(vec![b]).unwrap()
	}
	pub fn list_from(data: Vec<Value>) -> Result<Self> {
		let entry = data.first().map(TypeSignature::of).unwrap_or(TypeSignature::NoType);
		let n = data.len() as u32;
		Self::list_with_type(data, ListTypeData::new_list(entry, n)?)
	}
	pub fn list_with_type(data: Vec<Value>, type_signature: ListTypeData) -> Result<Self> {
		if data.len() > type_signature.max_len as usize {
			return Err(RuntimeErrorType::TypeMismatch);
		}
		Ok(Self::Sequence(SequenceData::List(ListData {
			data,
			type_signature,
		})))
	}
	pub fn some(v: Value) -> Result<Self> {
		Ok(Self::Optional(OptionalData {
			data: Some(Box::new(v)),
		}))
	}
	pub fn none() -> Self {
		Self::Optional(OptionalData {
			data: None,
		})
	}
}
impl TypeSignature {
	fn of(v: &Value) -> Self {
		match v {
			Value::Int(_) => Self::IntType,
			Value::UInt(_) => Self::UIntType,
			Value::Bool(_) => Self::BoolType,
			Value::Principal(_) => Self::PrincipalType,
			Value::Sequence(SequenceData::Buffer(b)) => Self::BufferType(b.data.len() as u32),
			Value::Sequence(SequenceData::List(l)) => Self::ListType(Box::new(l.type_signature.clone())),
			Value::Optional(_) => Self::NoType,
		}
	}
}
impl From<PrincipalData> for Value {
	fn from(p: PrincipalData) -> Self {
		Self::Principal(p)
	}
}
impl From<StandardPrincipalData> for Value {
	fn from(p: StandardPrincipalData) -> Self {
		Self::Principal(p.into())
	}
}
impl fmt::Display for Value {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match self {
			Self::Int(n) => write!(f, "{n}"),
			Self::UInt(n) => write!(f, "u{n}"),
			Self::Bool(b) => write!(f, "{b}"),
			Self::Principal(p) => write!(f, "{p}"),
			Self::Sequence(SequenceData::Buffer(b)) => write!(f, "0x{}", to_hex(&b.data)),
			Self::Sequence(SequenceData::List(l)) => {
				let v: Vec<String> = l.data.iter().map(|v| v.to_string()).collect();
				write!(f, "({})", v.join(" "))
			}
			Self::Optional(o) => match &o.data {
				None => f.write_str("none"),
				Some(v) => write!(f, "(some {v})"),
			},
		}
	}
}
impl StacksMessageCodec for Value {
	fn consensus_serialize<W: Write>(&self, fd: &mut W) -> std::result::Result<(), Error> {
		let raw = |fd: &mut W, b: &[u8]| fd.write_all(b).map_err(Error::WriteError);
		match self {
			Self::Int(n) => {
				raw(fd, &[0])?;
				raw(fd, &n.to_be_bytes())
			}
			Self::UInt(n) => {
				raw(fd, &[1])?;
				raw(fd, &n.to_be_bytes())
			}
			Self::Bool(b) => raw(fd, &[if *b { 3 } else { 4 }]),
			Self::Principal(p) => write_next(fd, p),
			Self::Sequence(SequenceData::Buffer(b)) => {
				raw(fd, &[2])?;
				write_next(fd, &(b.data.len() as u32))?;
				raw(fd, &b.data)
			}
			Self::Sequence(SequenceData::List(l)) => {
				raw(fd, &[11])?;
				write_next(fd, &(l.data.len() as u32))?;
				for v in &l.data {
					write_next(fd, v)?;
				}
				Ok(())
			}
			Self::Optional(o) => match &o.data {
				None => raw(fd, &[9]),
				Some(v) => {
					raw(fd, &[10])?;
					write_next(fd, &**v)
				}
			},
		}
	}
	fn consensus_deserialize<R: Read>(fd: &mut R) -> std::result::Result<Self, Error> {
		let t: u8 = read_next(fd)?;
		let mut b16 = [0; 16];
		Ok(match t {
			0 | 1 => {
				fd.read_exact(&mut b16).map_err(Error::ReadError)?;
				if t == 0 {
					Self::Int(i128::from_be_bytes(b16))
				} else {
					Self::UInt(u128::from_be_bytes(b16))
				}
			}
			3 | 4 => Self::Bool(t == 3),
			5 | 6 => {
				let head = [t];
				let mut r = (&head[..]).chain(fd);
				Self::Principal(PrincipalData::consensus_deserialize(&mut r)?)
			}
			2 => {
				let n: u32 = read_next(fd)?;
				if n > MAX_VALUE_SIZE {
					return Err(Error::DeserializeError("buffer too long".into()));
				}
				let mut v = vec![0; n as usize];
				fd.read_exact(&mut v).map_err(Error::ReadError)?;
				Self::buff_from(v).unwrap()
			}
			11 => {
				let n: u32 = read_next(fd)?;
				let mut v = vec![];
				for _ in 0..n {
					let mut dynr: &mut dyn Read = fd;
					v.push(Value::consensus_deserialize(&mut dynr)?);
				}
				Self::list_from(v).map_err(|e| Error::DeserializeError(e.to_string()))?
			}
			9 => Self::none(),
			10 => {
				let mut dynr: &mut dyn Read = fd;
				Self::some(Value::consensus_deserialize(&mut dynr)?).unwrap()
			}
			_ => return Err(Error::DeserializeError(format!("Bad type prefix {t}"))),
		})
	}
}
