//! A main program on the simulation: its first request over HTTP is written to
//! the file that `SIM_LOG` names and ends the process with status 42.
use std::any::Any;
use std::cell::RefCell;
use std::future::Future;
use std::rc::Rc;

use serde_json::{json, Value};
use sim::{HttpFault, HttpRequest, HttpResponse, Node, Placed, RpcCall, RpcFault};

struct First;

impl Node for First {
	fn http(&mut self, r: &HttpRequest) -> Result<HttpResponse, HttpFault> {
		let line = json!({"method": r.method, "url": r.url, "headers": r.headers}).to_string();
		if let Ok(p) = std::env::var("SIM_LOG") {
			let _ = std::fs::write(p, line);
		}
		std::process::exit(42)
	}
	fn rpc(&mut self, _: &RpcCall) -> Result<Value, RpcFault> {
		Err(RpcFault::Transport)
	}
	fn electrum(&mut self, _: &str) -> Result<(u32, Vec<Placed>), String> {
		Ok((0, vec![]))
	}
	fn as_any(&mut self) -> &mut dyn Any {
		self
	}
}

pub fn run_main<F: Future + 'static>(f: F) -> F::Output {
	let exec = sim::Exec::install();
	sim::set_node(Some(Rc::new(RefCell::new(First))));
	let out = Rc::new(RefCell::new(None));
	let to = out.clone();
	let id = exec.spawn("main", Box::pin(async move { *to.borrow_mut() = Some(f.await) }));
	for _ in 0..100_000 {
		match exec.runnable().first() {
			Some(t) => {
				exec.step(*t);
			}
			None if exec.advance() => {}
			None => break,
		}
		if !exec.is_alive(id) {
			break;
		}
	}
	let r = out.borrow_mut().take();
	match r {
		Some(r) => r,
		None => std::process::exit(101),
	}
}
