use std::{collections::BTreeMap, sync::Arc};

use crate::{
	buff, err, list, ok,
	parse::{parse, ty, Expr, Op},
	sha256, some, Chain, Code, Data, Ft, Func, Kind, Outcome, Principal, Type, Value,
};

#[derive(Debug)]
enum E {
	Runtime(String),
	Return(Value),
}
type R = Result<Value, E>;

fn rt<T>(s: impl Into<String>) -> Result<T, E> {
	Err(E::Runtime(s.into()))
}

struct Ctx {
	contract: Principal,
	sender: Principal,
	caller: Principal,
	read_only: bool,
	depth: u32,
}

struct Vm<'a> {
	chain: &'a mut Chain,
}

type Scope = Vec<(Arc<str>, Value)>;

impl Default for Chain {
	fn default() -> Self {
		Chain::new()
	}
}

impl Chain {
	pub fn new() -> Self {
		Chain {
			code: BTreeMap::new(),
			data: BTreeMap::new(),
			burn_headers: BTreeMap::new(),
			burn_height: 0,
			block_height: 1,
			events: vec![],
			unsupported: None,
		}
	}

	/// Deploy a contract; its top-level expressions run with the deployer as sender.
	pub fn deploy(&mut self, deployer: &Principal, name: &str, src: &str) -> Result<Principal, String> {
		let id = deployer.contract(name);
		let top = parse(src)?;
		self.code.insert(id.clone(), Arc::new(Code::default()));
		self.data.insert(id.clone(), Data::default());
		let mut code = Code::default();
		for e in &top {
			let cx = Ctx {
				contract: id.clone(),
				sender: deployer.clone(),
				caller: deployer.clone(),
				read_only: false,
				depth: 0,
			};
			let eval = |chain: &mut Chain, e: &Expr, code: &mut Code| -> Result<Value, String> {
				// constants and functions defined so far are visible
				let shared = Arc::new(std::mem::take(code));
				chain.code.insert(id.clone(), shared);
				let r = Vm { chain }.eval(e, &mut vec![], &cx);
				chain_take(chain, &id, code);
				r.map_err(|e| format!("{e:?}"))
			};
			match e {
				Expr::Call(_, s, a) => match (&**s, &a[..]) {
					("define-constant", [Expr::Sym(n), v]) => {
						let v = eval(self, v, &mut code)?;
						code.consts.insert(n.clone(), v);
					}
					("define-data-var", [Expr::Sym(n), t, v]) => {
						let v = eval(self, v, &mut code)?;
						let t = ty(t)?;
						if !t.admits(&v) {
							return Err(format!("{n}: initial value has the wrong type"));
						}
						code.var_types.insert(n.clone(), t);
						self.data.get_mut(&id).unwrap().vars.insert(n.clone(), v);
					}
					("define-map", [Expr::Sym(n), k, v]) => {
						code.map_types.insert(n.clone(), (ty(k)?, ty(v)?));
						self.data.get_mut(&id).unwrap().maps.insert(n.clone(), BTreeMap::new());
					}
					("define-fungible-token", [Expr::Sym(n), rest @ ..]) => {
						let cap = match rest {
							[] => None,
							[c] => match eval(self, c, &mut code)? {
								Value::UInt(n) => Some(n),
								v => return Err(format!("token cap {v:?}")),
							},
							_ => return Err("define-fungible-token".into()),
						};
						self.data.get_mut(&id).unwrap().ft.insert(
							n.clone(),
							Ft {
								cap,
								..Ft::default()
							},
						);
					}
					("define-non-fungible-token", [Expr::Sym(n), _]) => {
						self.data.get_mut(&id).unwrap().nft.insert(n.clone(), BTreeMap::new());
					}
					(d @ ("define-public" | "define-private" | "define-read-only"), [sig, body @ ..]) => {
						let (n, args) = match sig {
							Expr::Call(_, n, a) => (n.clone(), a),
							_ => return Err("bad function signature".into()),
						};
						let mut v = vec![];
						for a in args {
							match a {
								Expr::Call(_, an, t) if t.len() == 1 => v.push((an.clone(), ty(&t[0]).unwrap_or(Type::Any))),
								_ => return Err(format!("{n}: bad argument")),
							}
						}
						if body.is_empty() {
							return Err(format!("{n}: no body"));
						}
						code.funcs.insert(
							n,
							Func {
								kind: match d {
									"define-public" => Kind::Public,
									"define-private" => Kind::Private,
									_ => Kind::ReadOnly,
								},
								args: v,
								body: body.to_vec(),
							},
						);
					}
					("define-trait" | "use-trait" | "impl-trait", _) => {}
					(d, _) if d.starts_with("define-") => return Err(format!("unsupported definition {d}")),
					_ => {
						eval(self, e, &mut code)?;
					}
				},
				_ => {
					eval(self, e, &mut code)?;
				}
			}
		}
		self.code.insert(id.clone(), Arc::new(code));
		Ok(id)
	}

	/// A transaction calling a public (or read-only) function directly.
	pub fn call(&mut self, sender: &Principal, contract: &Principal, f: &str, args: &[Value]) -> Outcome {
		let before = self.data.clone();
		let nev = self.events.len();
		let r = Vm { chain: self }.enter(contract, f, args, sender, sender, 0, true);
		let r = match r {
			Ok(v) => Outcome::Done(v),
			Err(E::Runtime(s)) => Outcome::Aborted(s),
			Err(E::Return(v)) => Outcome::Aborted(format!("stray return {v:?}")),
		};
		if !r.success() {
			self.data = before;
			self.events.truncate(nev);
		}
		r
	}

	/// Evaluate a read-only function without keeping anything.
	pub fn read(&mut self, contract: &Principal, f: &str, args: &[Value]) -> Outcome {
		let who = contract.issuer();
		let before = self.data.clone();
		let r = self.call(&who, contract, f, args);
		self.data = before;
		r
	}
}

fn chain_take(chain: &mut Chain, id: &Principal, code: &mut Code) {
	let a = chain.code.insert(id.clone(), Arc::new(Code::default())).unwrap();
	*code = Arc::try_unwrap(a).unwrap_or_else(|_| panic!("code shared during deployment"));
}

impl Vm<'_> {
	fn unsupported<T>(&mut self, s: impl Into<String>) -> Result<T, E> {
		let s = s.into();
		self.chain.unsupported.get_or_insert(s.clone());
		rt(s)
	}

	/// contract-call? and top-level calls.
	#[allow(clippy::too_many_arguments)]
	fn enter(&mut self, contract: &Principal, f: &str, args: &[Value], sender: &Principal, caller: &Principal, depth: u32, top: bool) -> R {
		let Some(code) = self.chain.code.get(contract).cloned() else {
			return rt(format!("no contract {contract:?}"));
		};
		let Some(func) = code.funcs.get(f) else {
			return rt(format!("no function {f}"));
		};
		if matches!(func.kind, Kind::Private) {
			return rt(format!("{f} is private"));
		}
		if args.len() != func.args.len() {
			return rt(format!("{f} takes {} arguments", func.args.len()));
		}
		for ((n, t), v) in func.args.iter().zip(args) {
			if !t.admits(v) {
				return rt(format!("{f}: argument {n} has the wrong type: {v:?}"));
			}
		}
		let cx = Ctx {
			contract: contract.clone(),
			sender: sender.clone(),
			caller: caller.clone(),
			read_only: matches!(func.kind, Kind::ReadOnly),
			depth: depth + 1,
		};
		let r = self.apply(func, args, &cx)?;
		if top && matches!(func.kind, Kind::Public) && !matches!(r, Value::Ok(_) | Value::Err(_)) {
			return rt("a public function must return a response");
		}
		Ok(r)
	}

	fn apply(&mut self, f: &Func, args: &[Value], cx: &Ctx) -> R {
		if cx.depth > 64 {
			return rt("stack depth");
		}
		let mut scope: Scope = f.args.iter().map(|a| a.0.clone()).zip(args.iter().cloned()).collect();
		let nested = matches!(f.kind, Kind::Public);
		let before = nested.then(|| (self.chain.data.clone(), self.chain.events.len()));
		let mut last = Value::Bool(true);
		let mut r = Ok(());
		for e in &f.body {
			match self.eval(e, &mut scope, cx) {
				Ok(v) => last = v,
				Err(E::Return(v)) => {
					last = v;
					break;
				}
				Err(e) => {
					r = Err(e);
					break;
				}
			}
		}
		if let Some((d, n)) = before {
			if r.is_err() || matches!(last, Value::Err(_)) {
				self.chain.data = d;
				self.chain.events.truncate(n);
			}
		}
		r.map(|_| last)
	}

	fn call_named(&mut self, name: &Arc<str>, args: Vec<Value>, cx: &Ctx) -> R {
		let code = self.chain.code.get(&cx.contract).cloned().unwrap();
		match code.funcs.get(name) {
			Some(f) => {
				if f.args.len() != args.len() {
					return rt(format!("{name} takes {} arguments", f.args.len()));
				}
				for ((n, t), v) in f.args.iter().zip(&args) {
					if !t.admits(v) {
						return rt(format!("{name}: argument {n} has the wrong type: {v:?}"));
					}
				}
				self.apply(
					f,
					&args,
					&Ctx {
						contract: cx.contract.clone(),
						sender: cx.sender.clone(),
						caller: cx.caller.clone(),
						read_only: cx.read_only,
						depth: cx.depth + 1,
					},
				)
			}
			None => {
				let op = crate::parse::op(name);
				if op == Op::User {
					return self.unsupported(format!("unknown function {name}"));
				}
				let es: Vec<Expr> = args.into_iter().map(Expr::Lit).collect();
				self.builtin(op, name, &es, &mut vec![], cx)
			}
		}
	}

	fn eval(&mut self, e: &Expr, s: &mut Scope, cx: &Ctx) -> R {
		match e {
			Expr::Lit(v) => Ok(v.clone()),
			Expr::Local(n) => Ok(Value::Principal(cx.contract.issuer().contract(n))),
			Expr::Sym(n) => {
				if let Some((_, v)) = s.iter().rev().find(|(k, _)| k == n) {
					return Ok(v.clone());
				}
				if let Some(v) = self.chain.code[&cx.contract].consts.get(n) {
					return Ok(v.clone());
				}
				Ok(match &**n {
					"tx-sender" => Value::Principal(cx.sender.clone()),
					"contract-caller" => Value::Principal(cx.caller.clone()),
					"block-height" | "stacks-block-height" | "tenure-height" => Value::UInt(self.chain.block_height),
					"burn-block-height" => Value::UInt(self.chain.burn_height),
					"is-in-mainnet" => Value::Bool(false),
					"is-in-regtest" => Value::Bool(true),
					"chain-id" => Value::UInt(0x8000_0000),
					"tx-sponsor?" => Value::None,
					"stx-liquid-supply" => Value::UInt(0),
					_ => return self.unsupported(format!("unknown name {n}")),
				})
			}
			Expr::Tuple(f) => {
				let mut m = BTreeMap::new();
				for (k, e) in f {
					m.insert(k.clone(), self.eval(e, s, cx)?);
				}
				Ok(Value::Tuple(Arc::new(m)))
			}
			Expr::List(_) => self.unsupported("a list that is not a call"),
			Expr::Call(Op::User, n, a) => {
				let mut v = Vec::with_capacity(a.len());
				for e in a {
					v.push(self.eval(e, s, cx)?);
				}
				self.call_named(n, v, cx)
			}
			Expr::Call(op, n, a) => {
				// a contract may not redefine builtins, so no lookup is needed
				self.builtin(*op, n, a, s, cx)
			}
		}
	}

	fn scoped(&mut self, binds: Vec<(Arc<str>, Value)>, e: &Expr, s: &mut Scope, cx: &Ctx) -> R {
		let n = s.len();
		s.extend(binds);
		let r = self.eval(e, s, cx);
		s.truncate(n);
		r
	}

	fn bool(&mut self, e: &Expr, s: &mut Scope, cx: &Ctx) -> Result<bool, E> {
		match self.eval(e, s, cx)? {
			Value::Bool(b) => Ok(b),
			v => rt(format!("expected a bool, got {v:?}")),
		}
	}

	fn data(&mut self, cx: &Ctx) -> &mut Data {
		self.chain.data.get_mut(&cx.contract).unwrap()
	}

	fn writable(&mut self, cx: &Ctx, n: &str) -> Result<(), E> {
		if cx.read_only {
			return rt(format!("{n} in a read-only function"));
		}
		Ok(())
	}

	fn builtin(&mut self, op: Op, name: &Arc<str>, a: &[Expr], s: &mut Scope, cx: &Ctx) -> R {
		macro_rules! ev {
			($i:expr) => {
				match a.get($i) {
					Some(e) => self.eval(e, s, cx)?,
					None => return rt(format!("{name}: missing argument")),
				}
			};
		}
		let nargs = |lo: usize, hi: usize| {
			if a.len() < lo || a.len() > hi {
				rt(format!("{name}: wrong number of arguments"))
			} else {
				Ok(())
			}
		};
		let sym = |i: usize| -> Result<Arc<str>, E> {
			match a.get(i) {
				Some(Expr::Sym(s)) => Ok(s.clone()),
				x => rt(format!("{name}: expected a name, got {x:?}")),
			}
		};
		macro_rules! bad {
			($($v:expr),*) => { return rt(format!("{name}: wrong argument types: {:?}", ($(&$v,)*))) };
		}
		match op {
			Op::User => unreachable!(),
			Op::Begin => {
				nargs(1, usize::MAX)?;
				let mut v = Value::Bool(true);
				for e in a {
					v = self.eval(e, s, cx)?;
				}
				Ok(v)
			}
			Op::If => {
				nargs(3, 3)?;
				if self.bool(&a[0], s, cx)? {
					self.eval(&a[1], s, cx)
				} else {
					self.eval(&a[2], s, cx)
				}
			}
			Op::Let => {
				nargs(2, usize::MAX)?;
				let n = s.len();
				// A binding list parses as List, or as a tuple-less Call when its
				// first element is a symbol (it never is for well-formed code).
				let binds: Vec<Expr> = match &a[0] {
					Expr::List(b) => b.clone(),
					_ => return rt("let: bad bindings"),
				};
				let mut go = || -> R {
					for b in &binds {
						let (k, e) = match b {
							Expr::Call(_, k, v) if v.len() == 1 => (k.clone(), &v[0]),
							_ => return rt("let: bad binding"),
						};
						let v = self.eval(e, s, cx)?;
						s.push((k, v));
					}
					let mut v = Value::Bool(true);
					for e in &a[1..] {
						v = self.eval(e, s, cx)?;
					}
					Ok(v)
				};
				let r = go();
				s.truncate(n);
				r
			}
			Op::Match => {
				let v = ev!(0);
				match (v, a.len()) {
					(Value::Some(x), 4) => self.scoped(vec![(sym(1)?, (*x).clone())], &a[2], s, cx),
					(Value::None, 4) => self.eval(&a[3], s, cx),
					(Value::Ok(x), 5) => self.scoped(vec![(sym(1)?, (*x).clone())], &a[2], s, cx),
					(Value::Err(x), 5) => self.scoped(vec![(sym(3)?, (*x).clone())], &a[4], s, cx),
					(v, _) => bad!(v),
				}
			}
			Op::Asserts => {
				nargs(2, 2)?;
				if self.bool(&a[0], s, cx)? {
					Ok(Value::Bool(true))
				} else {
					let v = self.eval(&a[1], s, cx)?;
					Err(E::Return(v))
				}
			}
			Op::Try => {
				nargs(1, 1)?;
				match ev!(0) {
					Value::Ok(v) | Value::Some(v) => Ok((*v).clone()),
					v @ (Value::Err(_) | Value::None) => Err(E::Return(v)),
					v => bad!(v),
				}
			}
			Op::Unwrap | Op::UnwrapErr => {
				nargs(2, 2)?;
				match (op, ev!(0)) {
					(Op::Unwrap, Value::Ok(v) | Value::Some(v)) | (Op::UnwrapErr, Value::Err(v)) => Ok((*v).clone()),
					(_, Value::Ok(_) | Value::Err(_) | Value::None | Value::Some(_)) => {
						let v = ev!(1);
						Err(E::Return(v))
					}
					(_, v) => bad!(v),
				}
			}
			Op::UnwrapPanic | Op::UnwrapErrPanic => {
				nargs(1, 1)?;
				match (op, ev!(0)) {
					(Op::UnwrapPanic, Value::Ok(v) | Value::Some(v)) | (Op::UnwrapErrPanic, Value::Err(v)) => Ok((*v).clone()),
					(_, v) => rt(format!("{name} of {v:?}")),
				}
			}
			Op::DefaultTo => {
				nargs(2, 2)?;
				let d = ev!(0);
				match ev!(1) {
					Value::Some(v) => Ok((*v).clone()),
					Value::None => Ok(d),
					v => bad!(v),
				}
			}
			Op::IsOk => Ok(Value::Bool(matches!(ev!(0), Value::Ok(_)))),
			Op::IsErr => Ok(Value::Bool(matches!(ev!(0), Value::Err(_)))),
			Op::IsSome => Ok(Value::Bool(matches!(ev!(0), Value::Some(_)))),
			Op::IsNone => Ok(Value::Bool(matches!(ev!(0), Value::None))),
			Op::Ok => Ok(ok(ev!(0))),
			Op::Err => Ok(err(ev!(0))),
			Op::Some => Ok(some(ev!(0))),
			Op::And => {
				for e in a {
					if !self.bool(e, s, cx)? {
						return Ok(Value::Bool(false));
					}
				}
				Ok(Value::Bool(true))
			}
			Op::Or => {
				for e in a {
					if self.bool(e, s, cx)? {
						return Ok(Value::Bool(true));
					}
				}
				Ok(Value::Bool(false))
			}
			Op::Not => {
				nargs(1, 1)?;
				Ok(Value::Bool(!self.bool(&a[0], s, cx)?))
			}
			Op::IsEq => {
				let first = ev!(0);
				let mut r = true;
				for i in 1..a.len() {
					r &= ev!(i) == first;
				}
				Ok(Value::Bool(r))
			}
			Op::Add | Op::Sub | Op::Mul | Op::Div | Op::Mod | Op::Pow | Op::BitAnd | Op::BitOr | Op::BitXor | Op::Xor => {
				nargs(1, usize::MAX)?;
				let mut acc = ev!(0);
				if a.len() == 1 {
					return match (op, acc) {
						(Op::Sub, Value::Int(n)) => n.checked_neg().map(Value::Int).ok_or(E::Runtime("overflow".into())),
						(Op::Sub, Value::UInt(_)) => rt("underflow"),
						(_, v) => Ok(v),
					};
				}
				for i in 1..a.len() {
					let b = ev!(i);
					acc = match (acc, b) {
						(Value::UInt(x), Value::UInt(y)) => match op {
							Op::Add => x.checked_add(y),
							Op::Sub => x.checked_sub(y),
							Op::Mul => x.checked_mul(y),
							Op::Div => x.checked_div(y),
							Op::Mod => x.checked_rem(y),
							Op::Pow => u32::try_from(y).ok().and_then(|y| x.checked_pow(y)).or(if x < 2 { Some(if y == 0 { 1 } else { x }) } else { None }),
							Op::BitAnd => Some(x & y),
							Op::BitOr => Some(x | y),
							_ => Some(x ^ y),
						}
						.map(Value::UInt),
						(Value::Int(x), Value::Int(y)) => match op {
							Op::Add => x.checked_add(y),
							Op::Sub => x.checked_sub(y),
							Op::Mul => x.checked_mul(y),
							Op::Div => x.checked_div(y),
							Op::Mod => x.checked_rem(y),
							Op::Pow => u32::try_from(y).ok().and_then(|y| x.checked_pow(y)),
							Op::BitAnd => Some(x & y),
							Op::BitOr => Some(x | y),
							_ => Some(x ^ y),
						}
						.map(Value::Int),
						(x, y) => bad!(x, y),
					}
					.ok_or_else(|| E::Runtime(format!("{name}: arithmetic error")))?;
				}
				Ok(acc)
			}
			Op::Sqrti => match ev!(0) {
				Value::UInt(n) => Ok(Value::UInt(n.isqrt())),
				v => bad!(v),
			},
			Op::Log2 => match ev!(0) {
				Value::UInt(n) if n > 0 => Ok(Value::UInt(n.ilog2() as u128)),
				v => bad!(v),
			},
			Op::BitNot => match ev!(0) {
				Value::UInt(n) => Ok(Value::UInt(!n)),
				Value::Int(n) => Ok(Value::Int(!n)),
				v => bad!(v),
			},
			Op::Shl | Op::Shr => {
				nargs(2, 2)?;
				match (ev!(0), ev!(1)) {
					(Value::UInt(x), Value::UInt(n)) => {
						let n = (n % 128) as u32;
						Ok(Value::UInt(if op == Op::Shl { x << n } else { x >> n }))
					}
					(Value::Int(x), Value::UInt(n)) => {
						let n = (n % 128) as u32;
						Ok(Value::Int(if op == Op::Shl { x << n } else { x >> n }))
					}
					(x, y) => bad!(x, y),
				}
			}
			Op::Lt | Op::Le | Op::Gt | Op::Ge => {
				nargs(2, 2)?;
				let (x, y) = (ev!(0), ev!(1));
				let o = match (&x, &y) {
					(Value::UInt(x), Value::UInt(y)) => x.cmp(y),
					(Value::Int(x), Value::Int(y)) => x.cmp(y),
					(Value::Buff(x), Value::Buff(y)) => x.cmp(y),
					(Value::Ascii(x), Value::Ascii(y)) => x.cmp(y),
					(Value::Utf8(x), Value::Utf8(y)) => x.cmp(y),
					_ => bad!(x, y),
				};
				Ok(Value::Bool(match op {
					Op::Lt => o.is_lt(),
					Op::Le => o.is_le(),
					Op::Gt => o.is_gt(),
					_ => o.is_ge(),
				}))
			}
			Op::ToInt => match ev!(0) {
				Value::UInt(n) if n <= i128::MAX as u128 => Ok(Value::Int(n as i128)),
				v => bad!(v),
			},
			Op::ToUint => match ev!(0) {
				Value::Int(n) if n >= 0 => Ok(Value::UInt(n as u128)),
				v => bad!(v),
			},
			Op::VarGet => {
				let n = sym(0)?;
				match self.data(cx).vars.get(&n) {
					Some(v) => Ok(v.clone()),
					None => self.unsupported(format!("no data var {n}")),
				}
			}
			Op::VarSet => {
				self.writable(cx, name)?;
				let n = sym(0)?;
				let v = ev!(1);
				match self.chain.code[&cx.contract].var_types.get(&n) {
					Some(t) if t.admits(&v) => {}
					_ => bad!(v),
				}
				self.data(cx).vars.insert(n, v);
				Ok(Value::Bool(true))
			}
			Op::MapGet => {
				let n = sym(0)?;
				let k = ev!(1);
				match self.data(cx).maps.get(&n) {
					Some(m) => Ok(m.get(&k).cloned().map(some).unwrap_or(Value::None)),
					None => self.unsupported(format!("no map {n}")),
				}
			}
			Op::MapSet | Op::MapInsert => {
				self.writable(cx, name)?;
				nargs(3, 3)?;
				let n = sym(0)?;
				let k = ev!(1);
				let v = ev!(2);
				match self.chain.code[&cx.contract].map_types.get(&n) {
					Some((kt, vt)) if kt.admits(&k) && vt.admits(&v) => {}
					Some(_) => bad!(k, v),
					None => return self.unsupported(format!("no map {n}")),
				}
				let m = self.data(cx).maps.get_mut(&n).unwrap();
				if op == Op::MapInsert && m.contains_key(&k) {
					return Ok(Value::Bool(false));
				}
				m.insert(k, v);
				Ok(Value::Bool(true))
			}
			Op::MapDelete => {
				self.writable(cx, name)?;
				let n = sym(0)?;
				let k = ev!(1);
				match self.data(cx).maps.get_mut(&n) {
					Some(m) => Ok(Value::Bool(m.remove(&k).is_some())),
					None => self.unsupported(format!("no map {n}")),
				}
			}
			Op::FtMint | Op::FtBurn => {
				self.writable(cx, name)?;
				nargs(3, 3)?;
				let n = sym(0)?;
				match (ev!(1), ev!(2)) {
					(Value::UInt(x), Value::Principal(p)) => {
						let Some(t) = self.data(cx).ft.get_mut(&n) else {
							return self.unsupported(format!("no token {n}"));
						};
						let bal = t.balances.get(&p).copied().unwrap_or(0);
						if x == 0 || (op == Op::FtBurn && bal < x) {
							return Ok(err(Value::UInt(1)));
						}
						if op == Op::FtMint {
							let Some(total) = t.supply.checked_add(x) else {
								return rt("supply overflow");
							};
							if t.cap.is_some_and(|c| total > c) {
								return rt("supply overflow");
							}
							t.supply = total;
							t.balances.insert(p, bal + x);
						} else {
							t.supply -= x;
							if bal == x {
								t.balances.remove(&p);
							} else {
								t.balances.insert(p, bal - x);
							}
						}
						Ok(ok(Value::Bool(true)))
					}
					(x, y) => bad!(x, y),
				}
			}
			Op::FtTransfer => {
				self.writable(cx, name)?;
				nargs(4, 4)?;
				let n = sym(0)?;
				match (ev!(1), ev!(2), ev!(3)) {
					(Value::UInt(x), Value::Principal(from), Value::Principal(to)) => {
						let Some(t) = self.data(cx).ft.get_mut(&n) else {
							return self.unsupported(format!("no token {n}"));
						};
						if x == 0 {
							return Ok(err(Value::UInt(3)));
						}
						if from == to {
							return Ok(err(Value::UInt(2)));
						}
						let bal = t.balances.get(&from).copied().unwrap_or(0);
						if bal < x {
							return Ok(err(Value::UInt(1)));
						}
						if bal == x {
							t.balances.remove(&from);
						} else {
							t.balances.insert(from, bal - x);
						}
						*t.balances.entry(to).or_insert(0) += x;
						Ok(ok(Value::Bool(true)))
					}
					(x, y, z) => bad!(x, y, z),
				}
			}
			Op::FtBalance => {
				let n = sym(0)?;
				match ev!(1) {
					Value::Principal(p) => match self.data(cx).ft.get(&n) {
						Some(t) => Ok(Value::UInt(t.balances.get(&p).copied().unwrap_or(0))),
						None => self.unsupported(format!("no token {n}")),
					},
					v => bad!(v),
				}
			}
			Op::FtSupply => {
				let n = sym(0)?;
				match self.data(cx).ft.get(&n) {
					Some(t) => Ok(Value::UInt(t.supply)),
					None => self.unsupported(format!("no token {n}")),
				}
			}
			Op::NftMint | Op::NftBurn | Op::NftTransfer | Op::NftOwner => {
				let n = sym(0)?;
				let k = ev!(1);
				if !self.data(cx).nft.contains_key(&n) {
					return self.unsupported(format!("no token {n}"));
				}
				let owner = self.data(cx).nft[&n].get(&k).cloned();
				if op == Op::NftOwner {
					return Ok(owner.map(|p| some(Value::Principal(p))).unwrap_or(Value::None));
				}
				self.writable(cx, name)?;
				let p = match ev!(2) {
					Value::Principal(p) => p,
					v => bad!(v),
				};
				let to = if op == Op::NftTransfer {
					match ev!(3) {
						Value::Principal(p) => Some(p),
						v => bad!(v),
					}
				} else {
					None
				};
				let m = self.data(cx).nft.get_mut(&n).unwrap();
				match op {
					Op::NftMint if owner.is_some() => return Ok(err(Value::UInt(1))),
					Op::NftMint => {
						m.insert(k, p);
					}
					_ if owner.is_none() => return Ok(err(Value::UInt(3))),
					_ if owner != Some(p) => return Ok(err(Value::UInt(1))),
					Op::NftBurn => {
						m.remove(&k);
					}
					_ => {
						m.insert(k, to.unwrap());
					}
				}
				Ok(ok(Value::Bool(true)))
			}
			Op::Print => {
				let v = ev!(0);
				self.chain.events.push(v.clone());
				Ok(v)
			}
			Op::ContractCall => {
				nargs(2, usize::MAX)?;
				let target = match ev!(0) {
					Value::Principal(p) if p.name.is_some() => p,
					v => bad!(v),
				};
				let f = sym(1)?;
				let mut v = vec![];
				for e in &a[2..] {
					v.push(self.eval(e, s, cx)?);
				}
				if cx.read_only {
					if let Some(fun) = self.chain.code.get(&target).and_then(|c| c.funcs.get(&f)) {
						if matches!(fun.kind, Kind::Public) {
							return rt("a read-only function calls a public function");
						}
					}
				}
				self.enter(&target, &f, &v, &cx.sender, &cx.contract, cx.depth, false)
			}
			Op::AsContract => {
				nargs(1, 1)?;
				let inner = Ctx {
					contract: cx.contract.clone(),
					sender: cx.contract.clone(),
					caller: cx.contract.clone(),
					read_only: cx.read_only,
					depth: cx.depth,
				};
				self.eval(&a[0], s, &inner)
			}
			Op::Get => {
				let n = sym(0)?;
				match ev!(1) {
					Value::Tuple(t) => t.get(&n).cloned().ok_or_else(|| E::Runtime(format!("no field {n}"))),
					Value::None => Ok(Value::None),
					Value::Some(t) => match &*t {
						Value::Tuple(t) => t.get(&n).cloned().map(some).ok_or_else(|| E::Runtime(format!("no field {n}"))),
						v => bad!(v),
					},
					v => bad!(v),
				}
			}
			Op::Merge => match (ev!(0), ev!(1)) {
				(Value::Tuple(x), Value::Tuple(y)) => {
					let mut m = (*x).clone();
					for (k, v) in y.iter() {
						m.insert(k.clone(), v.clone());
					}
					Ok(Value::Tuple(Arc::new(m)))
				}
				(x, y) => bad!(x, y),
			},
			Op::TupleOp => {
				let mut m = BTreeMap::new();
				for f in a {
					match f {
						Expr::Call(_, k, v) if v.len() == 1 => {
							let v = self.eval(&v[0], s, cx)?;
							m.insert(k.clone(), v);
						}
						_ => return rt("tuple: bad field"),
					}
				}
				Ok(Value::Tuple(Arc::new(m)))
			}
			Op::ListOp => {
				let mut v = vec![];
				for e in a {
					v.push(self.eval(e, s, cx)?);
				}
				Ok(list(v))
			}
			Op::Len => match ev!(0) {
				Value::List(l) => Ok(Value::UInt(l.len() as u128)),
				Value::Buff(l) => Ok(Value::UInt(l.len() as u128)),
				Value::Ascii(l) => Ok(Value::UInt(l.len() as u128)),
				Value::Utf8(l) => Ok(Value::UInt(l.chars().count() as u128)),
				v => bad!(v),
			},
			Op::ElementAt | Op::ElementAtQ => match (ev!(0), ev!(1)) {
				(q, Value::UInt(i)) => {
					let i = usize::try_from(i).unwrap_or(usize::MAX);
					Ok(match &q {
						Value::List(l) => l.get(i).cloned(),
						Value::Buff(b) => b.get(i).map(|x| buff([*x])),
						Value::Ascii(b) => b.chars().nth(i).map(|x| Value::Ascii(x.to_string().into())),
						Value::Utf8(b) => b.chars().nth(i).map(|x| Value::Utf8(x.to_string().into())),
						_ => bad!(q),
					}
					.map(some)
					.unwrap_or(Value::None))
				}
				(x, y) => bad!(x, y),
			},
			Op::IndexOf | Op::IndexOfQ => match (ev!(0), ev!(1)) {
				(Value::List(l), x) => Ok(l.iter().position(|y| *y == x).map(|i| some(Value::UInt(i as u128))).unwrap_or(Value::None)),
				(Value::Buff(l), Value::Buff(x)) if x.len() == 1 => Ok(l.iter().position(|y| *y == x[0]).map(|i| some(Value::UInt(i as u128))).unwrap_or(Value::None)),
				(x, y) => bad!(x, y),
			},
			Op::Slice => {
				nargs(3, 3)?;
				let q = ev!(0);
				let (l, r) = match (ev!(1), ev!(2)) {
					(Value::UInt(l), Value::UInt(r)) => (l, r),
					(x, y) => bad!(x, y),
				};
				let n = match &q {
					Value::List(v) => v.len(),
					Value::Buff(v) => v.len(),
					Value::Ascii(v) => v.len(),
					Value::Utf8(v) => v.chars().count(),
					_ => bad!(q),
				} as u128;
				if l > r || r > n {
					return Ok(Value::None);
				}
				let (l, r) = (l as usize, r as usize);
				Ok(some(match &q {
					Value::List(v) => list(v[l..r].to_vec()),
					Value::Buff(v) => buff(&v[l..r]),
					Value::Ascii(v) => Value::Ascii(v[l..r].into()),
					Value::Utf8(v) => Value::Utf8(v.chars().skip(l).take(r - l).collect::<String>().into()),
					_ => unreachable!(),
				}))
			}
			Op::Concat => match (ev!(0), ev!(1)) {
				(Value::List(x), Value::List(y)) => Ok(list(x.iter().chain(y.iter()).cloned().collect())),
				(Value::Buff(x), Value::Buff(y)) => Ok(buff([&x[..], &y[..]].concat())),
				(Value::Ascii(x), Value::Ascii(y)) => Ok(Value::Ascii(format!("{x}{y}").into())),
				(Value::Utf8(x), Value::Utf8(y)) => Ok(Value::Utf8(format!("{x}{y}").into())),
				(x, y) => bad!(x, y),
			},
			Op::Append => match (ev!(0), ev!(1)) {
				(Value::List(x), y) => Ok(list(x.iter().cloned().chain([y]).collect())),
				(x, y) => bad!(x, y),
			},
			Op::AsMaxLen => match (ev!(0), ev!(1)) {
				(q, Value::UInt(n)) => {
					let l = match &q {
						Value::List(v) => v.len(),
						Value::Buff(v) => v.len(),
						Value::Ascii(v) => v.len(),
						Value::Utf8(v) => v.chars().count(),
						_ => bad!(q),
					};
					Ok(if l as u128 <= n { some(q) } else { Value::None })
				}
				(x, y) => bad!(x, y),
			},
			Op::ReplaceAt => match (ev!(0), ev!(1), ev!(2)) {
				(Value::List(l), Value::UInt(i), v) => {
					let mut l = (*l).clone();
					if i >= l.len() as u128 {
						return Ok(Value::None);
					}
					l[i as usize] = v;
					Ok(some(list(l)))
				}
				(Value::Buff(l), Value::UInt(i), Value::Buff(v)) if v.len() == 1 => {
					let mut l = l.to_vec();
					if i >= l.len() as u128 {
						return Ok(Value::None);
					}
					l[i as usize] = v[0];
					Ok(some(buff(l)))
				}
				(x, y, z) => bad!(x, y, z),
			},
			Op::Map => {
				let f = sym(0)?;
				let mut seqs = vec![];
				for i in 1..a.len() {
					let q = ev!(i);
					seqs.push(self.seq(q)?);
				}
				let n = seqs.iter().map(|s| s.len()).min().unwrap_or(0);
				let mut out = vec![];
				for i in 0..n {
					out.push(self.call_named(&f, seqs.iter().map(|q| q[i].clone()).collect(), cx)?);
				}
				Ok(list(out))
			}
			Op::Filter => {
				let f = sym(0)?;
				let q = ev!(1);
				let mut out = vec![];
				for x in self.seq(q.clone())? {
					if self.call_named(&f, vec![x.clone()], cx)? == Value::Bool(true) {
						out.push(x);
					}
				}
				Ok(match q {
					Value::Buff(_) => buff(out.iter().flat_map(|b| match b {
						Value::Buff(b) => b.to_vec(),
						_ => vec![],
					}).collect::<Vec<u8>>()),
					_ => list(out),
				})
			}
			Op::Fold => {
				let f = sym(0)?;
				let q = ev!(1);
				let mut acc = ev!(2);
				for x in self.seq(q)? {
					acc = self.call_named(&f, vec![x, acc], cx)?;
				}
				Ok(acc)
			}
			Op::Sha256 | Op::Hash160 => {
				let b: Vec<u8> = match ev!(0) {
					Value::Buff(b) => b.to_vec(),
					Value::UInt(n) => n.to_le_bytes().to_vec(),
					Value::Int(n) => n.to_le_bytes().to_vec(),
					v => bad!(v),
				};
				Ok(if op == Op::Sha256 { buff(sha256(&b)) } else { buff(mc::sha::hash160(&b)) })
			}
			Op::BuffToUintLe | Op::BuffToUintBe | Op::BuffToIntLe | Op::BuffToIntBe => match ev!(0) {
				Value::Buff(b) if b.len() <= 16 => {
					let mut x = [0u8; 16];
					let n = if matches!(op, Op::BuffToUintLe | Op::BuffToIntLe) {
						x[..b.len()].copy_from_slice(&b);
						u128::from_le_bytes(x)
					} else {
						x[16 - b.len()..].copy_from_slice(&b);
						u128::from_be_bytes(x)
					};
					Ok(if matches!(op, Op::BuffToUintLe | Op::BuffToUintBe) { Value::UInt(n) } else { Value::Int(n as i128) })
				}
				v => bad!(v),
			},
			Op::ToConsensusBuff => {
				let mut b = vec![];
				ev!(0).serialize(&mut b);
				Ok(some(buff(b)))
			}
			Op::FromConsensusBuff => {
				let t = ty(&a[0]).map_err(E::Runtime)?;
				match ev!(1) {
					Value::Buff(b) => {
						let mut d = &b[..];
						Ok(match Value::deserialize(&mut d) {
							Some(v) if d.is_empty() && t.admits(&v) => some(v),
							_ => Value::None,
						})
					}
					v => bad!(v),
				}
			}
			Op::BurnBlockInfo => {
				let n = sym(0)?;
				match (&*n, ev!(1)) {
					("header-hash", Value::UInt(h)) => Ok(self.chain.burn_headers.get(&h).map(|x| some(buff(x))).unwrap_or(Value::None)),
					(_, v) => self.unsupported(format!("get-burn-block-info? {n} {v:?}")),
				}
			}
			Op::IsStandard => match ev!(0) {
				Value::Principal(p) => Ok(Value::Bool(matches!(p.version, 26 | 21))),
				v => bad!(v),
			},
			Op::IntToAscii | Op::IntToUtf8 => {
				let t = match ev!(0) {
					Value::UInt(n) => n.to_string(),
					Value::Int(n) => n.to_string(),
					v => bad!(v),
				};
				Ok(if op == Op::IntToAscii { Value::Ascii(t.into()) } else { Value::Utf8(t.into()) })
			}
			Op::ContractOf => Ok(ev!(0)),
			Op::BlockInfo | Op::AtBlock => self.unsupported(name.to_string()),
		}
	}

	fn seq(&mut self, v: Value) -> Result<Vec<Value>, E> {
		Ok(match v {
			Value::List(l) => (*l).clone(),
			Value::Buff(b) => b.iter().map(|x| buff([*x])).collect(),
			Value::Ascii(b) => b.chars().map(|x| Value::Ascii(x.to_string().into())).collect(),
			v => return rt(format!("not a sequence: {v:?}")),
		})
	}
}
