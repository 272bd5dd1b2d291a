//! The operator's own main program, run as a process. Its first request over HTTP
//! (it asks where the contract is) ends it with status 42.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use mc::{ensure, ensure_eq, sha::hash160, Ctx, Fail, Idx};
use serde_json::{json, Map, Value};

use crate::{c30, fix::ref_address};

const REACHED: i32 = 42;

fn exe() -> Option<PathBuf> {
	let p = std::env::current_exe().ok()?.with_file_name("romeo-main");
	p.exists().then_some(p)
}

/// Runs the program; its status and what it asked for.
fn start(exe: &Path, at: &Path, log: &Path, args: &[String]) -> Result<(Option<i32>, Option<Value>), Fail> {
	let _ = std::fs::remove_file(log);
	let mut p = Command::new(exe)
		.args(args)
		.current_dir(at)
		.env("SIM_LOG", log)
		.env_remove("RUST_LOG")
		.stdin(Stdio::null())
		.stdout(Stdio::null())
		.stderr(Stdio::null())
		.spawn()
		.expect("the operator's program");
	let t = std::time::Instant::now();
	let status = loop {
		if let Some(s) = p.try_wait().expect("status") {
			break s;
		}
		if t.elapsed().as_secs() > 60 {
			let _ = p.kill();
			let _ = p.wait();
			return Err(Fail::from("the operator neither asks for anything nor ends"));
		}
		std::thread::sleep(std::time::Duration::from_millis(2));
	};
	let said = std::fs::read(log).ok().and_then(|t| serde_json::from_slice(&t).ok());
	Ok((status.code(), said))
}

/// `good`: a valid configuration; `bad`: texts of invalid ones.
pub fn run(ctx: &Ctx, root: &Path, good: &Map<String, Value>, bad: &[(&str, String)]) {
	let Some(exe) = exe() else {
		eprintln!("the operator's main program was not built: not run");
		return;
	};
	let root = root.join("program");
	let fresh = |i: u64| {
		let d = root.join(i.to_string());
		let _ = std::fs::remove_dir_all(&d);
		std::fs::create_dir_all(d.join("etc/cwd")).expect("scratch directory");
		d
	};
	let forms = ["-c", "--config-file", "--config-file=", "-c="];
	let names = ["ABS", "../", "./../"];
	let keys = [None, Some("k3y")];
	let nets = [("mainnet", 22u8, "bitcoin"), ("testnet", 26, "testnet"), ("testnet", 26, "regtest")];
	let urls = ["http://stacks-api:3999", "https://node.example:8443/"];
	let assets = ["asset", "asset-3_x"];
	let states = ["state", "./a/b/state", "../state", "ABS"];
	let n = (forms.len() * names.len() * keys.len() * nets.len() * urls.len() * assets.len() * states.len()) as u64;
	ctx.each("program", n, |i| {
		let mut x = Idx(i);
		let (form, name, key, net) = (*x.pick(&forms), *x.pick(&names), *x.pick(&keys), *x.pick(&nets));
		let (url, asset, state) = (*x.pick(&urls), *x.pick(&assets), *x.pick(&states));
		let d = fresh(i);
		let at = d.join("etc/cwd");
		let state = if state == "ABS" { d.join("var/state") } else { PathBuf::from(state) };
		let mut m = good.clone();
		for (k, v) in [("state_directory", state.to_str().unwrap()), ("stacks_network", net.0), ("bitcoin_network", net.2), ("stacks_node_url", url), ("contract_name", asset)] {
			m.insert(k.into(), json!(v));
		}
		if let Some(k) = key {
			m.insert("hiro_api_key".into(), json!(k));
		}
		std::fs::write(d.join("etc/romeo.json"), serde_json::to_string(&m).unwrap()).expect("scratch file");
		let named = if name == "ABS" { d.join("etc/romeo.json").to_str().unwrap().to_string() } else { format!("{name}romeo.json") };
		let args = if form.ends_with('=') { vec![format!("{form}{named}")] } else { vec![form.to_string(), named] };
		mc::note(|| format!("{args:?} {m:?}"));
		let r = start(&exe, &at, &d.join("said"), &args);
		let made = d.join("etc").join(&state);
		let there = made.is_dir();
		let _ = std::fs::remove_dir_all(&d);
		let (status, said) = r?;
		ensure_eq!(status, Some(REACHED), "status of the operator");
		let said = said.ok_or_else(|| Fail::from("no request"))?;
		ensure!(there, "no state directory at {made:?}");
		let key_of = c30::derive(c30::master(m["mnemonic"].as_str().unwrap()), &[44 | c30::H, 5757 | c30::H, c30::H, 0, 0]).k;
		let who = ref_address(net.1, &hash160(&key_of.public_key(&bdk::bitcoin::secp256k1::Secp256k1::new()).serialize()));
		ensure_eq!(said["method"], json!("GET"), "request");
		ensure_eq!(said["url"].as_str().unwrap_or(""), format!("{}/extended/v1/contract/{who}.{asset}", url.trim_end_matches('/')), "request");
		let sent: Vec<&str> = said["headers"]
			.as_array()
			.into_iter()
			.flatten()
			.filter(|h| h[0].as_str().is_some_and(|n| n.eq_ignore_ascii_case("x-hiro-api-key")))
			.filter_map(|h| h[1].as_str())
			.collect();
		ensure_eq!(sent, key.into_iter().collect::<Vec<_>>(), "API key");
		Ok("runs")
	});
	let ways: Vec<(&str, Vec<String>, Option<&str>)> = bad
		.iter()
		.map(|(n, t)| (*n, vec!["-c".to_string(), "../romeo.json".into()], Some(t.as_str())))
		.chain([
			("nothing named", vec![], None),
			("no such file", vec!["-c".into(), "../other.json".into()], None),
			("a directory", vec!["-c".into(), "..".into()], None),
			("no value", vec!["-c".into()], None),
		])
		.collect();
	ctx.each("program refuses", ways.len() as u64, |i| {
		let (n, args, text) = &ways[i as usize];
		mc::note(|| n.to_string());
		let d = fresh(1_000_000 + i);
		if let Some(t) = text {
			std::fs::write(d.join("etc/romeo.json"), t).expect("scratch file");
		}
		let r = start(&exe, &d.join("etc/cwd"), &d.join("said"), args);
		let made = d.join("etc/state").exists();
		let _ = std::fs::remove_dir_all(&d);
		let (status, said) = r?;
		ensure!(said.is_none() && status != Some(REACHED), "the operator ran and asked for {said:?}");
		ensure!(status != Some(0), "the operator ends as if all were well");
		ensure!(!made, "the operator left a state directory behind");
		Ok("refused")
	});
}
