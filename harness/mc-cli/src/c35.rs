//! C35: generate-from prints the credentials its mnemonic defines.
use std::collections::HashSet;

use bdk::{
	bitcoin::{
		secp256k1::{Secp256k1, SecretKey},
		Network,
	},
	keys::bip39::Mnemonic,
};
use mc::{ensure, ensure_eq, sha::hash160, CaseResult, Ctx, Fail, Idx};
use serde_json::{json, Map, Value};

use crate::{btc::NETS, c30::*, fix::ref_address, server::*, wr::ref_address_text};

const HARD: u32 = 1 << 31;

fn creds(k: &SecretKey, address: String, prefix: u8) -> Value {
	let p = k.public_key(&Secp256k1::new());
	json!({"private_key": mc::hex(k.secret_bytes()), "public_key": mc::hex(p.serialize()), "address": address, "wif": wif(prefix, k)})
}

fn expected(m: &str, main: bool, net: Network, accounts: u32) -> Value {
	let x = master(m);
	let sp = if main { 128 } else { 239 };
	let btc = net == Network::Bitcoin;
	let bp = if btc { 128 } else { 239 };
	let secp = Secp256k1::new();
	let mut all = Map::new();
	for i in 0..accounts {
		let s = derive(x, &[44 | HARD, 5757 | HARD, HARD, 0, i]).k;
		let k = |p: u32| derive(x, &[p | HARD, u32::from(!btc) | HARD, i | HARD, 0, 0]).k;
		let (a, b, c) = (k(44), k(84), k(86));
		let h = |k: &SecretKey| hash160(&k.public_key(&secp).serialize());
		let text = |s: Vec<u8>| ref_address_text(&s, net).unwrap();
		all.insert(
			i.to_string(),
			json!({
				"stacks": creds(&s, ref_address(if main { 22 } else { 26 }, &h(&s)), sp),
				"bitcoin": {
					"p2pkh": creds(&a, b58check(if btc { 0 } else { 111 }, &h(&a)), bp),
					"p2wpkh": creds(&b, text([&[0, 20], &h(&b)[..]].concat()), bp),
					"p2tr": creds(&c, text(p2tr_script(&c)), bp),
				},
			}),
		);
	}
	json!({
		"mnemonic": m, "private_key": mc::hex(x.k.secret_bytes()), "wif": wif(sp, &x.k), "credentials": all,
		"network_stacks": if main { "mainnet" } else { "testnet" }, "network_bitcoin": net.to_string(),
	})
}

/// The first place where two values differ.
fn differ(path: &str, a: &Value, b: &Value) -> Option<String> {
	if a == b {
		return None;
	}
	if let (Value::Object(x), Value::Object(y)) = (a, b) {
		let keys: std::collections::BTreeSet<&String> = x.keys().chain(y.keys()).collect();
		return keys.into_iter().find_map(|k| differ(&format!("{path}/{k}"), x.get(k).unwrap_or(&Value::Null), y.get(k).unwrap_or(&Value::Null)));
	}
	Some(format!("{path} is {a}, expected {b}"))
}

fn same(r: &Ran, want: &Value) -> Result<(), Fail> {
	let v = r.json()?;
	match differ("", &v, want) {
		None => Ok(()),
		Some(d) => Err(Fail::from(d)),
	}
}

fn flags(s: Option<bool>, b: Option<Network>, n: Option<u32>, way: usize) -> Vec<String> {
	let mut v = vec!["generate-from".to_string()];
	let mut put = |short: &str, long: &str, x: String| match way {
		0 => v.extend([short.to_string(), x]),
		_ => v.push(format!("{long}={x}")),
	};
	if let Some(n) = n {
		put("-a", "--accounts", n.to_string());
	}
	if let Some(b) = b {
		put("-b", "--bitcoin-network", b.to_string());
	}
	if let Some(s) = s {
		put("-s", "--stacks-network", if s { "mainnet" } else { "testnet" }.into());
	}
	v
}

pub fn run(ctx: &Ctx) {
	ctx.rule("mnemonics of every size over edge entropies x both Stacks networks and none given x all four Bitcoin networks and none given x numbers of accounts; every field of the printed JSON compared with a hand-written BIP-39/BIP-32/BIP-86 derivation, and no other field; new mnemonics valid and never the same; every wrong mnemonic (each word replaced, dropped, swapped, doubled) and argument refused unless its checksum is right.");
	let ms = mnemonics(ctx.thorough());
	let counts = [None, Some(0u32), Some(1), Some(2), Some(11)];
	let m_s = [None, Some(true), Some(false)];
	let m_b: Vec<Option<Network>> = std::iter::once(None).chain(NETS.into_iter().map(Some)).collect();
	ctx.each("mnemonic", (ms.len() * 3 * 5 * counts.len()) as u64, |i| {
		let mut x = Idx(i);
		let (s, b, n) = (*x.pick(&m_s), *x.pick(&m_b), *x.pick(&counts));
		let m = x.pick(&ms);
		let mut v = flags(s, b, n, i as usize % 2);
		v.extend(["mnemonic".into(), m.clone()]);
		mc::note(|| v.join(" "));
		same(&sbtc(&v)?, &expected(m, s.unwrap_or(true), b.unwrap_or(Network::Bitcoin), n.unwrap_or(1)))?;
		Ok("printed")
	});
	// many accounts at once
	let many: &[u32] = if ctx.thorough() { &[129, 255, 256, 257, 300, 1025, 4097, 65_537] } else { &[129, 256, 300, 1025] };
	ctx.each("many accounts", many.len() as u64 * 2, |i| {
		let mut x = Idx(i);
		let (main, n) = (x.take(2) == 0, *x.pick(many));
		let net = if main { Network::Bitcoin } else { Network::Regtest };
		let mut v = flags(Some(main), Some(net), Some(n), 0);
		v.extend(["mnemonic".into(), ms[0].clone()]);
		mc::note(|| v.join(" "));
		same(&sbtc(&v)?, &expected(&ms[0], main, net, n))?;
		Ok("many accounts")
	});
	let known = std::sync::Mutex::new(HashSet::new());
	ctx.each("new", 3 * 5 * 2, |i| {
		let mut x = Idx(i);
		let (s, b, n) = (*x.pick(&m_s), *x.pick(&m_b), 1 + x.take(2) as u32);
		let mut v = flags(s, b, Some(n), i as usize % 2);
		v.push("new".into());
		let r = sbtc(&v)?;
		let j = r.json()?;
		let m = j["mnemonic"].as_str().ok_or("no mnemonic")?.to_string();
		Mnemonic::parse(&m).map_err(|e| Fail::from(format!("{m:?}: {e}")))?;
		ensure!(m.split(' ').count() >= 12, "a mnemonic of {} words", m.split(' ').count());
		same(&r, &expected(&m, s.unwrap_or(true), b.unwrap_or(Network::Bitcoin), n))?;
		if ctx.replay.is_none() {
			ensure!(known.lock().unwrap().insert((i, m.clone())), "mnemonic {m:?} twice");
			ensure_eq!(known.lock().unwrap().iter().filter(|k| k.1 == m).count(), 1usize, "times this mnemonic was made");
		}
		Ok("new")
	});
	// wrong mnemonics
	let bad = |t: String| -> CaseResult {
		mc::note(|| t.clone());
		let right = Mnemonic::parse(&t).is_ok();
		let r = sbtc(&["generate-from".into(), "mnemonic".into(), t.clone()])?;
		if right {
			same(&r, &expected(&t, true, Network::Bitcoin, 1))?;
			return Ok("another right one");
		}
		r.refused()?;
		Ok("refused")
	};
	let words: Vec<Vec<&str>> = [0usize, 5, 19].map(|i| ms[i.min(ms.len() - 1)].split(' ').collect()).into();
	let subs = ["abandon", "zoo", "letter", "notaword", "Abandon", "été"];
	ctx.each("one word changed", 3 * 24 * 9, |i| {
		let mut x = Idx(i);
		let w = x.pick(&words);
		let (p, k) = (x.take(24), x.take(9));
		if p >= w.len() {
			return Ok("~n/a");
		}
		let mut w = w.clone();
		match k {
			0 => {
				w.remove(p);
			}
			1 => w.insert(p, w[p]),
			2 => w.swap(p, 0),
			k => w[p] = subs[k - 3],
		}
		bad(w.join(" "))
	});
	for t in ["", " ", "abandon", "0", "-"] {
		ctx.case(format!("mnemonic {t:?}"), || bad(t.into()));
	}
	let wrong: &[&[&str]] = &[
		&[],
		&["old"],
		&["mnemonic"],
		&["new", "x"],
		&["-s", "devnet", "new"],
		&["-s", "", "new"],
		&["-b", "mainnet", "new"],
		&["-b", "", "new"],
		&["-a", "-1", "new"],
		&["-a", "x", "new"],
		&["-a", "", "new"],
		&["-a", "1.0", "new"],
		&["-a", "99999999999999999999999", "new"],
		&["-s", "mainnet", "-s", "testnet", "new"],
		&["-q", "new"],
		&["mnemonic", "abandon", "abandon"],
	];
	for w in wrong {
		ctx.case(format!("{w:?}"), || {
			let v: Vec<String> = std::iter::once("generate-from").chain(w.iter().copied()).map(|s| s.to_string()).collect();
			sbtc(&v)?.refused()?;
			Ok("refused")
		});
	}
}
