use std::{
	collections::{BTreeMap, HashMap},
	sync::{Arc, OnceLock},
};

use crate::{list, Principal, Type, Value};

#[derive(Clone, Debug)]
pub enum Expr {
	Lit(Value),
	Sym(Arc<str>),
	/// `.name` — a contract of the same deployer
	Local(Arc<str>),
	Call(Op, Arc<str>, Vec<Expr>),
	/// A list whose head is not a plain symbol, e.g. a `let` binding list
	List(Vec<Expr>),
	Tuple(Vec<(Arc<str>, Expr)>),
}

macro_rules! ops {
	($($v:ident $s:literal)*) => {
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub enum Op { User, $($v),* }
		pub fn op(s: &str) -> Op {
			static M: OnceLock<HashMap<&'static str, Op>> = OnceLock::new();
			*M.get_or_init(|| [$(($s, Op::$v)),*].into_iter().collect()).get(s).unwrap_or(&Op::User)
		}
	};
}

ops! {
	Begin "begin" If "if" Let "let" Match "match" Asserts "asserts!" Try "try!" Unwrap "unwrap!" UnwrapErr "unwrap-err!"
	UnwrapPanic "unwrap-panic" UnwrapErrPanic "unwrap-err-panic" DefaultTo "default-to" IsOk "is-ok" IsErr "is-err" IsSome "is-some"
	IsNone "is-none" Ok "ok" Err "err" Some "some" And "and" Or "or" Not "not" IsEq "is-eq" Add "+" Sub "-" Mul "*" Div "/" Mod "mod"
	Pow "pow" Sqrti "sqrti" Log2 "log2" Lt "<" Le "<=" Gt ">" Ge ">=" Xor "xor" BitXor "bit-xor" BitAnd "bit-and" BitOr "bit-or" BitNot "bit-not"
	Shl "bit-shift-left" Shr "bit-shift-right" ToInt "to-int" ToUint "to-uint" VarGet "var-get" VarSet "var-set" MapGet "map-get?"
	MapSet "map-set" MapInsert "map-insert" MapDelete "map-delete" FtMint "ft-mint?" FtBurn "ft-burn?" FtTransfer "ft-transfer?"
	FtBalance "ft-get-balance" FtSupply "ft-get-supply" NftMint "nft-mint?" NftBurn "nft-burn?" NftTransfer "nft-transfer?"
	NftOwner "nft-get-owner?" Print "print" ContractCall "contract-call?" AsContract "as-contract" Get "get" Merge "merge" TupleOp "tuple"
	ListOp "list" Len "len" ElementAt "element-at" ElementAtQ "element-at?" IndexOf "index-of" IndexOfQ "index-of?" Slice "slice?"
	Concat "concat" Append "append" AsMaxLen "as-max-len?" ReplaceAt "replace-at?" Map "map" Filter "filter" Fold "fold" Sha256 "sha256"
	Hash160 "hash160" BuffToUintLe "buff-to-uint-le" BuffToUintBe "buff-to-uint-be" BuffToIntLe "buff-to-int-le" BuffToIntBe "buff-to-int-be"
	ToConsensusBuff "to-consensus-buff?" FromConsensusBuff "from-consensus-buff?" BurnBlockInfo "get-burn-block-info?" BlockInfo "get-block-info?" IsStandard "is-standard"
	AtBlock "at-block" IntToAscii "int-to-ascii" IntToUtf8 "int-to-utf8" ContractOf "contract-of"
}

#[derive(Debug, PartialEq, Clone)]
enum Tok {
	L,
	R,
	LB,
	RB,
	Colon,
	Comma,
	Lit(Value),
	Sym(String),
}

fn is_sym(c: u8) -> bool {
	!c.is_ascii_whitespace() && !b"(){},:;\"".contains(&c)
}

pub fn c32_principal(s: &str) -> Option<Principal> {
	const A: &[u8] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
	let (addr, name) = match s.split_once('.') {
		Some((a, n)) => (a, Some(Arc::from(n))),
		None => (s, None),
	};
	let b = addr.strip_prefix('S')?.as_bytes();
	let v = b.first()?;
	let version = A.iter().position(|c| c == v)? as u8;
	let mut n = [0u8; 24]; // 20 byte hash and 4 byte checksum
	for c in &b[1..] {
		let mut carry = A.iter().position(|x| x == c)? as u32;
		for d in n.iter_mut().rev() {
			let v = *d as u32 * 32 + carry;
			*d = v as u8;
			carry = v >> 8;
		}
		if carry != 0 {
			return None;
		}
	}
	let hash: [u8; 20] = n[..20].try_into().unwrap();
	let mut pre = vec![version];
	pre.extend_from_slice(&hash);
	if mc::sha::sha256d(&pre)[..4] != n[20..] {
		return None;
	}
	Some(Principal {
		version,
		hash,
		name,
	})
}

fn lex(src: &str) -> Result<Vec<Tok>, String> {
	let b = src.as_bytes();
	let mut i = 0;
	let mut out = vec![];
	while i < b.len() {
		match b[i] {
			c if c.is_ascii_whitespace() => i += 1,
			b';' => {
				while i < b.len() && b[i] != b'\n' {
					i += 1
				}
			}
			b'(' => {
				out.push(Tok::L);
				i += 1
			}
			b')' => {
				out.push(Tok::R);
				i += 1
			}
			b'{' => {
				out.push(Tok::LB);
				i += 1
			}
			b'}' => {
				out.push(Tok::RB);
				i += 1
			}
			b':' => {
				out.push(Tok::Colon);
				i += 1
			}
			b',' => {
				out.push(Tok::Comma);
				i += 1
			}
			q if q == b'"' || (q == b'u' && b.get(i + 1) == Some(&b'"')) => {
				let utf8 = q == b'u';
				i += 1 + utf8 as usize;
				let mut s = vec![];
				loop {
					match b.get(i) {
						None => return Err("unterminated string".into()),
						Some(b'"') => break,
						Some(b'\\') => {
							i += 1;
							s.push(match b.get(i) {
								Some(b'n') => b'\n',
								Some(b't') => b'\t',
								Some(b'r') => b'\r',
								Some(b'0') => 0,
								Some(c) => *c,
								None => return Err("unterminated string".into()),
							})
						}
						Some(c) => s.push(*c),
					}
					i += 1;
				}
				i += 1;
				let s: Arc<str> = String::from_utf8(s).map_err(|e| e.to_string())?.into();
				out.push(Tok::Lit(if utf8 { Value::Utf8(s) } else { Value::Ascii(s) }));
			}
			_ => {
				let a = i;
				while i < b.len() && is_sym(b[i]) {
					i += 1
				}
				if a == i {
					return Err(format!("unexpected character {:?}", b[i] as char));
				}
				let s = &src[a..i];
				out.push(if let Some(h) = s.strip_prefix("0x") {
					if h.len() % 2 == 1 || !h.bytes().all(|c| c.is_ascii_hexdigit()) {
						return Err(format!("bad buffer literal {s}"));
					}
					Tok::Lit(crate::buff(mc::unhex(h)))
				} else if let Some(p) = s.strip_prefix('\'') {
					Tok::Lit(Value::Principal(c32_principal(p).ok_or(format!("bad principal {s}"))?))
				} else if s.strip_prefix('u').is_some_and(|d| !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())) {
					Tok::Lit(Value::UInt(s[1..].parse().map_err(|_| "uint literal")?))
				} else if s.strip_prefix('-').unwrap_or(s).bytes().all(|c| c.is_ascii_digit()) && s != "-" {
					Tok::Lit(Value::Int(s.parse().map_err(|_| "int literal")?))
				} else if s == "true" || s == "false" {
					Tok::Lit(Value::Bool(s == "true"))
				} else if s == "none" {
					Tok::Lit(Value::None)
				} else {
					Tok::Sym(s.into())
				});
			}
		}
	}
	Ok(out)
}

fn expr(t: &[Tok], i: &mut usize) -> Result<Expr, String> {
	let tok = t.get(*i).ok_or("unexpected end")?;
	*i += 1;
	Ok(match tok {
		Tok::Lit(v) => Expr::Lit(v.clone()),
		Tok::Sym(s) => match s.strip_prefix('.') {
			Some(n) => Expr::Local(n.into()),
			None => Expr::Sym(s.as_str().into()),
		},
		Tok::L => {
			let mut v = vec![];
			while t.get(*i) != Some(&Tok::R) {
				if t.get(*i) == Some(&Tok::Comma) {
					*i += 1;
					continue;
				}
				v.push(expr(t, i)?);
			}
			*i += 1;
			match v.first() {
				Some(Expr::Sym(s)) => {
					let s = s.clone();
					v.remove(0);
					Expr::Call(op(&s), s, v)
				}
				_ => Expr::List(v),
			}
		}
		Tok::LB => {
			let mut v = vec![];
			loop {
				match t.get(*i) {
					Some(Tok::RB) => {
						*i += 1;
						break;
					}
					Some(Tok::Comma) => *i += 1,
					Some(Tok::Sym(k)) => {
						if t.get(*i + 1) != Some(&Tok::Colon) {
							return Err(format!("expected ':' after {k}"));
						}
						*i += 2;
						v.push((Arc::from(k.as_str()), expr(t, i)?));
					}
					x => return Err(format!("bad tuple: {x:?}")),
				}
			}
			Expr::Tuple(v)
		}
		x => return Err(format!("unexpected {x:?}")),
	})
}

pub fn parse(src: &str) -> Result<Vec<Expr>, String> {
	let t = lex(src)?;
	let mut i = 0;
	let mut out = vec![];
	while i < t.len() {
		out.push(expr(&t, &mut i)?);
	}
	Ok(out)
}

pub fn ty(e: &Expr) -> Result<Type, String> {
	let n = |e: &Expr| match e {
		Expr::Lit(Value::Int(n)) if *n >= 0 => Ok(*n as usize),
		Expr::Lit(Value::UInt(n)) => Ok(*n as usize),
		_ => Err("bad length".to_string()),
	};
	Ok(match e {
		Expr::Sym(s) => match &**s {
			"int" => Type::Int,
			"uint" => Type::UInt,
			"bool" => Type::Bool,
			"principal" => Type::Principal,
			x => return Err(format!("unknown type {x}")),
		},
		Expr::Call(_, s, a) => match (&**s, &a[..]) {
			("buff", [l]) => Type::Buff(n(l)?),
			("string-ascii", [l]) => Type::Ascii(n(l)?),
			("string-utf8", [l]) => Type::Utf8(n(l)?),
			("list", [l, t]) => Type::List(n(l)?, Box::new(ty(t)?)),
			("optional", [t]) => Type::Opt(Box::new(ty(t)?)),
			("response", [t, e]) => Type::Resp(Box::new(ty(t)?), Box::new(ty(e)?)),
			("tuple", fields) => {
				let mut m = BTreeMap::new();
				for f in fields {
					match f {
						Expr::Call(_, k, t) if t.len() == 1 => {
							m.insert(k.clone(), ty(&t[0])?);
						}
						_ => return Err("bad tuple type".into()),
					}
				}
				Type::Tuple(m)
			}
			_ => return Err(format!("unknown type {s}")),
		},
		Expr::Tuple(f) => {
			let mut m = BTreeMap::new();
			for (k, t) in f {
				m.insert(k.clone(), ty(t)?);
			}
			Type::Tuple(m)
		}
		Expr::Lit(_) | Expr::Local(_) | Expr::List(_) => {
			if let Expr::Lit(Value::None) = e {
				return Err("none is not a type".into());
			}
			let _ = list(vec![]);
			return Err(format!("not a type: {e:?}"));
		}
	})
}
