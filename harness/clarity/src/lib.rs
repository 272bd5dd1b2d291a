//! A small Clarity virtual machine: enough of the language to run the sBTC
//! asset contracts, unmodified, from the repository. Semantics follow the
//! Clarity reference: nested transactions roll back on an error response or a
//! runtime error, `contract-caller` changes on `contract-call?` and
//! `as-contract`, and arguments of calls are checked against declared types.
use std::{
	collections::{BTreeMap, BTreeSet},
	fmt,
	sync::Arc,
};

mod eval;
mod parse;

pub use parse::{c32_principal, parse, Expr, Op};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Principal {
	pub version: u8,
	pub hash: [u8; 20],
	pub name: Option<Arc<str>>,
}

impl Principal {
	pub fn standard(version: u8, hash: [u8; 20]) -> Self {
		Principal {
			version,
			hash,
			name: None,
		}
	}
	pub fn contract(&self, name: &str) -> Self {
		Principal {
			version: self.version,
			hash: self.hash,
			name: Some(name.into()),
		}
	}
	pub fn issuer(&self) -> Self {
		Principal {
			name: None,
			..self.clone()
		}
	}
}

impl fmt::Debug for Principal {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		write!(f, "'{}:{}", self.version, mc::hex(&self.hash[..]))?;
		if let Some(n) = &self.name {
			write!(f, ".{n}")?
		}
		Ok(())
	}
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Value {
	Int(i128),
	UInt(u128),
	Bool(bool),
	Buff(Arc<[u8]>),
	Ascii(Arc<str>),
	Utf8(Arc<str>),
	Principal(Principal),
	List(Arc<Vec<Value>>),
	Tuple(Arc<BTreeMap<Arc<str>, Value>>),
	None,
	Some(Arc<Value>),
	Ok(Arc<Value>),
	Err(Arc<Value>),
}

pub fn uint(n: u128) -> Value {
	Value::UInt(n)
}
pub fn buff(b: impl AsRef<[u8]>) -> Value {
	Value::Buff(b.as_ref().into())
}
pub fn list(v: Vec<Value>) -> Value {
	Value::List(Arc::new(v))
}
pub fn some(v: Value) -> Value {
	Value::Some(Arc::new(v))
}
pub fn ok(v: Value) -> Value {
	Value::Ok(Arc::new(v))
}
pub fn err(v: Value) -> Value {
	Value::Err(Arc::new(v))
}
pub fn tuple(v: impl IntoIterator<Item = (&'static str, Value)>) -> Value {
	Value::Tuple(Arc::new(v.into_iter().map(|(k, v)| (Arc::from(k), v)).collect()))
}

impl fmt::Debug for Value {
	fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
		match self {
			Value::Int(n) => write!(f, "{n}"),
			Value::UInt(n) => write!(f, "u{n}"),
			Value::Bool(b) => write!(f, "{b}"),
			Value::Buff(b) => write!(f, "0x{}", mc::hex(b)),
			Value::Ascii(s) => write!(f, "{s:?}"),
			Value::Utf8(s) => write!(f, "u{s:?}"),
			Value::Principal(p) => write!(f, "{p:?}"),
			Value::List(l) => {
				write!(f, "(list")?;
				for v in l.iter() {
					write!(f, " {v:?}")?
				}
				write!(f, ")")
			}
			Value::Tuple(t) => {
				write!(f, "{{")?;
				for (k, v) in t.iter() {
					write!(f, " {k}: {v:?}")?
				}
				write!(f, " }}")
			}
			Value::None => write!(f, "none"),
			Value::Some(v) => write!(f, "(some {v:?})"),
			Value::Ok(v) => write!(f, "(ok {v:?})"),
			Value::Err(v) => write!(f, "(err {v:?})"),
		}
	}
}

impl Value {
	pub fn is_ok(&self) -> bool {
		matches!(self, Value::Ok(_))
	}
	/// Consensus serialization.
	pub fn serialize(&self, out: &mut Vec<u8>) {
		fn clarity_name(s: &str, out: &mut Vec<u8>) {
			out.push(s.len() as u8);
			out.extend_from_slice(s.as_bytes());
		}
		fn long(tag: u8, b: &[u8], out: &mut Vec<u8>) {
			out.push(tag);
			out.extend_from_slice(&(b.len() as u32).to_be_bytes());
			out.extend_from_slice(b);
		}
		match self {
			Value::Int(n) => {
				out.push(0);
				out.extend_from_slice(&n.to_be_bytes());
			}
			Value::UInt(n) => {
				out.push(1);
				out.extend_from_slice(&n.to_be_bytes());
			}
			Value::Buff(b) => long(2, b, out),
			Value::Bool(true) => out.push(3),
			Value::Bool(false) => out.push(4),
			Value::Principal(p) => {
				out.push(if p.name.is_some() { 6 } else { 5 });
				out.push(p.version);
				out.extend_from_slice(&p.hash);
				if let Some(n) = &p.name {
					clarity_name(n, out)
				}
			}
			Value::Ok(v) => {
				out.push(7);
				v.serialize(out)
			}
			Value::Err(v) => {
				out.push(8);
				v.serialize(out)
			}
			Value::None => out.push(9),
			Value::Some(v) => {
				out.push(10);
				v.serialize(out)
			}
			Value::List(l) => {
				out.push(11);
				out.extend_from_slice(&(l.len() as u32).to_be_bytes());
				l.iter().for_each(|v| v.serialize(out));
			}
			Value::Tuple(t) => {
				out.push(12);
				out.extend_from_slice(&(t.len() as u32).to_be_bytes());
				for (k, v) in t.iter() {
					clarity_name(k, out);
					v.serialize(out);
				}
			}
			Value::Ascii(s) => long(13, s.as_bytes(), out),
			Value::Utf8(s) => long(14, s.as_bytes(), out),
		}
	}

	pub fn deserialize(d: &mut &[u8]) -> Option<Value> {
		fn take<'a>(d: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
			if d.len() < n {
				return None;
			}
			let (a, b) = d.split_at(n);
			*d = b;
			Some(a)
		}
		fn n32(d: &mut &[u8]) -> Option<usize> {
			Some(u32::from_be_bytes(take(d, 4)?.try_into().ok()?) as usize)
		}
		fn name(d: &mut &[u8]) -> Option<Arc<str>> {
			let n = take(d, 1)?[0] as usize;
			Some(String::from_utf8(take(d, n)?.to_vec()).ok()?.into())
		}
		Some(match take(d, 1)?[0] {
			0 => Value::Int(i128::from_be_bytes(take(d, 16)?.try_into().ok()?)),
			1 => Value::UInt(u128::from_be_bytes(take(d, 16)?.try_into().ok()?)),
			2 => {
				let n = n32(d)?;
				buff(take(d, n)?)
			}
			3 => Value::Bool(true),
			4 => Value::Bool(false),
			t @ (5 | 6) => {
				let version = take(d, 1)?[0];
				let hash = take(d, 20)?.try_into().ok()?;
				let name = if t == 6 { Some(name(d)?) } else { None };
				Value::Principal(Principal {
					version,
					hash,
					name,
				})
			}
			7 => ok(Value::deserialize(d)?),
			8 => err(Value::deserialize(d)?),
			9 => Value::None,
			10 => some(Value::deserialize(d)?),
			11 => {
				let n = n32(d)?;
				let mut v = vec![];
				for _ in 0..n {
					v.push(Value::deserialize(d)?)
				}
				list(v)
			}
			12 => {
				let n = n32(d)?;
				let mut v = BTreeMap::new();
				for _ in 0..n {
					let k = name(d)?;
					v.insert(k, Value::deserialize(d)?);
				}
				Value::Tuple(Arc::new(v))
			}
			13 => {
				let n = n32(d)?;
				Value::Ascii(String::from_utf8(take(d, n)?.to_vec()).ok()?.into())
			}
			14 => {
				let n = n32(d)?;
				Value::Utf8(String::from_utf8(take(d, n)?.to_vec()).ok()?.into())
			}
			_ => return None,
		})
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Type {
	Int,
	UInt,
	Bool,
	Principal,
	Buff(usize),
	Ascii(usize),
	Utf8(usize),
	List(usize, Box<Type>),
	Opt(Box<Type>),
	Resp(Box<Type>, Box<Type>),
	Tuple(BTreeMap<Arc<str>, Type>),
	Any,
}

impl Type {
	pub fn admits(&self, v: &Value) -> bool {
		match (self, v) {
			(Type::Any, _) | (Type::Int, Value::Int(_)) | (Type::UInt, Value::UInt(_)) | (Type::Bool, Value::Bool(_)) | (Type::Principal, Value::Principal(_)) | (Type::Opt(_), Value::None) => true,
			(Type::Buff(n), Value::Buff(b)) => b.len() <= *n,
			(Type::Ascii(n), Value::Ascii(b)) => b.len() <= *n,
			(Type::Utf8(n), Value::Utf8(b)) => b.chars().count() <= *n,
			(Type::List(n, t), Value::List(l)) => l.len() <= *n && l.iter().all(|v| t.admits(v)),
			(Type::Opt(t), Value::Some(v)) => t.admits(v),
			(Type::Resp(t, _), Value::Ok(v)) | (Type::Resp(_, t), Value::Err(v)) => t.admits(v),
			(Type::Tuple(ts), Value::Tuple(vs)) => ts.len() == vs.len() && ts.iter().zip(vs.iter()).all(|((a, t), (b, v))| a == b && t.admits(v)),
			_ => false,
		}
	}
}

pub enum Kind {
	Public,
	Private,
	ReadOnly,
}

pub struct Func {
	pub kind: Kind,
	pub args: Vec<(Arc<str>, Type)>,
	pub body: Vec<Expr>,
}

/// Everything a contract can change.
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Data {
	pub vars: BTreeMap<Arc<str>, Value>,
	pub maps: BTreeMap<Arc<str>, BTreeMap<Value, Value>>,
	pub ft: BTreeMap<Arc<str>, Ft>,
	pub nft: BTreeMap<Arc<str>, BTreeMap<Value, Principal>>,
}

#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Ft {
	pub supply: u128,
	pub cap: Option<u128>,
	pub balances: BTreeMap<Principal, u128>,
}

#[derive(Default)]
pub struct Code {
	pub consts: BTreeMap<Arc<str>, Value>,
	pub funcs: BTreeMap<Arc<str>, Func>,
	pub var_types: BTreeMap<Arc<str>, Type>,
	pub map_types: BTreeMap<Arc<str>, (Type, Type)>,
	pub traits: BTreeSet<Arc<str>>,
}

/// The blockchain as contracts see it.
#[derive(Clone)]
pub struct Chain {
	pub code: BTreeMap<Principal, Arc<Code>>,
	pub data: BTreeMap<Principal, Data>,
	pub burn_headers: BTreeMap<u128, [u8; 32]>,
	pub burn_height: u128,
	pub block_height: u128,
	pub events: Vec<Value>,
	/// Interpreter features the contracts ask for that do not exist here.
	pub unsupported: Option<String>,
}

/// What a transaction did.
#[derive(Clone, PartialEq, Debug)]
pub enum Outcome {
	/// The function's result; its changes are kept unless it is an error response.
	Done(Value),
	/// A runtime error or a rejected call; nothing changed.
	Aborted(String),
}

impl Outcome {
	pub fn success(&self) -> bool {
		matches!(self, Outcome::Done(v) if !matches!(v, Value::Err(_)))
	}
}

pub fn sha256(b: &[u8]) -> [u8; 32] {
	mc::sha::sha256(b)
}
