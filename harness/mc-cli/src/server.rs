//! A small Electrum server on the loopback interface, one per case.
use std::{
	collections::HashMap,
	io::{BufRead, BufReader, Write},
	net::{Shutdown, SocketAddr, TcpListener, TcpStream},
	process::{Command, Stdio},
	sync::{
		atomic::{AtomicBool, AtomicUsize, Ordering},
		Arc, Mutex,
	},
	time::{Duration, Instant},
};

use bdk::bitcoin::{consensus::serialize, Transaction};
use mc::Fail;
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
	/// the connection ends before the request is seen
	Lost,
	/// the request is served, the answer is lost
	AnswerLost,
	/// the server answers with an error
	Error,
	/// the server answers with something else than it should
	Garbage,
}

#[derive(Default)]
pub struct Chain {
	/// transactions with the heights of their blocks, 0 for none
	pub txs: Vec<(Transaction, u32)>,
	pub tip: u32,
	/// request numbers (from 0) and what happens to them
	pub faults: Vec<(usize, Fault)>,
	/// error every broadcast with this
	pub reject: bool,
	/// in these words, if any
	pub words: &'static str,
}

#[derive(Default)]
pub struct Seen {
	pub requests: Vec<String>,
	pub broadcast: Vec<String>,
	/// requests that make no sense
	pub bad: Vec<String>,
}

struct Shared {
	chain: Chain,
	index: HashMap<String, Vec<usize>>,
	seen: Mutex<Seen>,
	count: AtomicUsize,
	stop: AtomicBool,
}

fn header(height: u32) -> String {
	let mut h = vec![0u8; 80];
	h[0] = 2;
	h[68..72].copy_from_slice(&(1_600_000_000 + height * 600).to_le_bytes());
	mc::hex(h)
}

/// How Electrum names a script.
fn script_hash(s: &[u8]) -> String {
	let mut h = mc::sha::sha256(s);
	h.reverse();
	mc::hex(h)
}

impl Shared {
	fn answer(&self, method: &str, p: &[Value]) -> Result<Value, String> {
		let height = |v: Option<&Value>| v.and_then(|v| v.as_u64()).filter(|h| *h <= self.chain.tip as u64).ok_or("no such height".to_string());
		match method {
			"blockchain.headers.subscribe" => Ok(json!({"height": self.chain.tip, "hex": header(self.chain.tip)})),
			"blockchain.block.header" => Ok(json!(header(height(p.first())? as u32))),
			"blockchain.estimatefee" => Ok(json!(0.00001)),
			"blockchain.relayfee" => Ok(json!(0.00001)),
			"server.version" => Ok(json!(["mock", "1.4"])),
			"server.ping" => Ok(Value::Null),
			"blockchain.scripthash.get_history" => {
				let h = p.first().and_then(|v| v.as_str()).ok_or("no script hash")?;
				Ok(self.index.get(h).into_iter().flatten().map(|i| json!({"tx_hash": self.chain.txs[*i].0.txid().to_string(), "height": self.chain.txs[*i].1})).collect())
			}
			"blockchain.transaction.get" => {
				let id = p.first().and_then(|v| v.as_str()).ok_or("no id")?;
				let t = self.chain.txs.iter().find(|t| t.0.txid().to_string() == id).ok_or("No such mempool or blockchain transaction")?;
				Ok(json!(mc::hex(serialize(&t.0))))
			}
			"blockchain.transaction.broadcast" => {
				let hex = p.first().and_then(|v| v.as_str()).ok_or("no transaction")?;
				self.seen.lock().unwrap().broadcast.push(hex.into());
				if self.chain.reject {
					return Err(match self.chain.words {
						"" => "the transaction was rejected by network rules. bad-txns-inputs-missingorspent",
						w => w,
					}
					.into());
				}
				let t: Transaction = bdk::bitcoin::consensus::deserialize(&mc::unhex(hex)).map_err(|e| e.to_string())?;
				Ok(json!(t.txid().to_string()))
			}
			m => {
				self.seen.lock().unwrap().bad.push(m.into());
				Err("unknown method".into())
			}
		}
	}
	fn serve(&self, s: TcpStream) {
		let _ = s.set_nodelay(true);
		let Ok(mut out) = s.try_clone() else { return };
		for line in BufReader::new(s).lines() {
			let Ok(line) = line else { return };
			let Ok(r) = serde_json::from_str::<Value>(&line) else {
				self.seen.lock().unwrap().bad.push(line);
				return;
			};
			let n = self.count.fetch_add(1, Ordering::SeqCst);
			let method = r["method"].as_str().unwrap_or("").to_string();
			self.seen.lock().unwrap().requests.push(method.clone());
			let f = self.chain.faults.iter().find(|f| f.0 == n).map(|f| f.1);
			if f == Some(Fault::Lost) {
				let _ = out.shutdown(Shutdown::Both);
				return;
			}
			let mut a = self.answer(&method, r["params"].as_array().map(|a| &a[..]).unwrap_or_default());
			match f {
				Some(Fault::AnswerLost) => {
					let _ = out.shutdown(Shutdown::Both);
					return;
				}
				Some(Fault::Error) => a = Err("internal error: excessive resource usage".into()),
				Some(Fault::Garbage) => a = Ok(json!({"unexpected": [1]})),
				_ => {}
			}
			let v = match a {
				Ok(v) => json!({"jsonrpc": "2.0", "id": r["id"], "result": v}),
				Err(e) => json!({"jsonrpc": "2.0", "id": r["id"], "error": {"code": 1, "message": e}}),
			};
			if out.write_all(format!("{v}\n").as_bytes()).is_err() {
				return;
			}
		}
	}
}

pub struct Server {
	pub addr: SocketAddr,
	shared: Arc<Shared>,
	thread: Option<std::thread::JoinHandle<()>>,
}

impl Server {
	pub fn start(chain: Chain) -> Server {
		let l = TcpListener::bind("127.0.0.1:0").unwrap_or_else(|e| no_answer(&format!("no loopback network: {e}")));
		let addr = l.local_addr().unwrap();
		let mut index: HashMap<String, Vec<usize>> = HashMap::new();
		let by_id: HashMap<_, _> = chain.txs.iter().map(|t| (t.0.txid(), &t.0)).collect();
		for (i, (t, _)) in chain.txs.iter().enumerate() {
			let spent = t.input.iter().filter_map(|x| by_id.get(&x.previous_output.txid).and_then(|p| p.output.get(x.previous_output.vout as usize)));
			let mut keys: Vec<String> = t.output.iter().chain(spent).map(|o| script_hash(o.script_pubkey.as_bytes())).collect();
			keys.sort();
			keys.dedup();
			for k in keys {
				index.entry(k).or_default().push(i);
			}
		}
		let shared = Arc::new(Shared {
			chain,
			index,
			seen: Default::default(),
			count: Default::default(),
			stop: Default::default(),
		});
		let s = shared.clone();
		let thread = std::thread::spawn(move || {
			for c in l.incoming() {
				if s.stop.load(Ordering::SeqCst) {
					return;
				}
				if let Ok(c) = c {
					let s = s.clone();
					std::thread::spawn(move || s.serve(c));
				}
			}
		});
		Server {
			addr,
			shared,
			thread: Some(thread),
		}
	}
	pub fn url(&self) -> String {
		format!("tcp://{}", self.addr)
	}
	pub fn stop(mut self) -> Seen {
		self.shared.stop.store(true, Ordering::SeqCst);
		let _ = TcpStream::connect(self.addr);
		if let Some(t) = self.thread.take() {
			let _ = t.join();
		}
		let mut s = self.shared.seen.lock().unwrap();
		std::mem::take(&mut *s)
	}
}

pub fn no_answer(why: &str) -> ! {
	eprintln!("no answer: {why}");
	std::process::exit(3);
}

pub struct Ran {
	pub ok: bool,
	pub code: Option<i32>,
	pub out: Vec<u8>,
	pub err: String,
}

/// Runs the program itself.
pub fn sbtc(args: &[String]) -> Result<Ran, Fail> {
	let exe = std::env::current_exe().ok().and_then(|p| Some(p.parent()?.join("sbtc"))).filter(|p| p.exists()).unwrap_or_else(|| no_answer("the sbtc program has not been built"));
	let mut c = Command::new(exe)
		.args(args)
		.env_clear()
		.env("PATH", "/usr/bin:/bin")
		.current_dir("/")
		.stdin(Stdio::null())
		.stdout(Stdio::piped())
		.stderr(Stdio::piped())
		.spawn()
		.unwrap_or_else(|e| no_answer(&format!("cannot run sbtc: {e}")));
	let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
	let read = |r: &mut dyn std::io::Read| {
		let mut v = vec![];
		let _ = r.read_to_end(&mut v);
		v
	};
	let et = std::thread::spawn(move || read(&mut e));
	let ot = std::thread::spawn(move || read(&mut o));
	let start = Instant::now();
	let st = loop {
		match c.try_wait() {
			Ok(Some(s)) => break s,
			_ if start.elapsed() > Duration::from_secs(120) => {
				let _ = c.kill();
				let _ = c.wait();
				return Err("sbtc does not end".into());
			}
			_ => std::thread::sleep(Duration::from_millis(1)),
		}
	};
	Ok(Ran {
		ok: st.success(),
		code: st.code(),
		out: ot.join().unwrap_or_default(),
		err: String::from_utf8_lossy(&et.join().unwrap_or_default()).into_owned(),
	})
}

impl Ran {
	/// It failed as programs do, and printed nothing.
	pub fn refused(&self) -> Result<(), Fail> {
		mc::ensure!(!self.ok, "accepted: {}", String::from_utf8_lossy(&self.out));
		mc::ensure!(self.code.is_some_and(|c| c != 101), "sbtc panicked or was killed: {}", self.err);
		mc::ensure!(self.out.is_empty(), "failed, yet printed {}", String::from_utf8_lossy(&self.out));
		Ok(())
	}
	pub fn json(&self) -> Result<Value, Fail> {
		mc::ensure!(self.ok, "failed: {}", self.err);
		serde_json::from_slice(&self.out).map_err(|e| Fail::from(format!("{e} in {}", String::from_utf8_lossy(&self.out))))
	}
}
