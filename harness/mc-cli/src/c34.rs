//! C34: the deposit and withdraw commands print a signed transaction doing
//! exactly what was asked, made of the wallet's own unspent coins.
use std::collections::HashMap;

use bdk::bitcoin::{consensus::deserialize, hashes::Hash, secp256k1::Secp256k1, Address, Network, OutPoint, PackedLockTime, PrivateKey, Script, Transaction, TxIn, TxOut, Txid};
use mc::{ensure, ensure_eq, fail, sha::sha256d, CaseResult, Ctx, Fail, Idx};

use crate::{btc::*, c17::deposit_payload, fix::*, server::*, wr::*};

const TIP: u32 = 1000;

/// What happens to the wallet.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
	Receive(u64),
	Pending(u64),
	/// ours is the second output
	Second(u64),
	/// both outputs are ours
	Two(u64, u64),
	/// the oldest unspent coin goes elsewhere
	Spend,
	/// the same, with change, still waiting
	Change,
}
const EVS: [Ev; 6] = [Ev::Receive(30_000), Ev::Pending(20_000), Ev::Second(40_000), Ev::Two(600, 25_000), Ev::Spend, Ev::Change];

struct Account {
	net: Network,
	key: PrivateKey,
	coins: Coins,
	chain: Chain,
}

impl Account {
	fn new(net: Network, seed: u8, evs: &[Ev]) -> Account {
		let k = key(net, seed);
		let script = Address::p2wpkh(&k.public_key(&Secp256k1::new()), net).unwrap().script_pubkey();
		let other = scripts(200)[2].clone();
		let mut a = Account {
			net,
			key: k,
			coins: Coins {
				utxos: HashMap::new(),
				script: script.clone(),
				secret: k.inner,
			},
			chain: Chain {
				tip: TIP,
				..Default::default()
			},
		};
		// in the order they came
		let mut mine: Vec<OutPoint> = vec![];
		for (i, e) in evs.iter().enumerate() {
			let o = |value: u64, s: &Script| TxOut {
				value,
				script_pubkey: s.clone(),
			};
			let height = 100 + i as u32;
			let foreign = OutPoint {
				txid: Txid::from_inner([i as u8 + 1; 32]),
				vout: 3,
			};
			// a transaction that pays the payer, as servers must know it
			let (from, outs, height) = match *e {
				Ev::Receive(v) => (None, vec![o(v, &script)], height),
				Ev::Pending(v) => (None, vec![o(v, &script)], 0),
				Ev::Second(v) => (None, vec![o(777, &other), o(v, &script)], height),
				Ev::Two(v, w) => (None, vec![o(v, &script), o(w, &script)], height),
				Ev::Spend | Ev::Change => {
					if mine.is_empty() {
						continue;
					}
					let p = mine.remove(0);
					let v = a.coins.utxos[&p].value;
					if *e == Ev::Spend || v < 8000 {
						(Some(p), vec![o(v - 200, &other)], height)
					} else {
						(Some(p), vec![o(v - 5400, &other), o(5000, &script)], 0)
					}
				}
			};
			let prev = from.unwrap_or_else(|| {
				let t = Transaction {
					version: 1,
					lock_time: PackedLockTime(i as u32),
					input: vec![TxIn {
						previous_output: foreign,
						..Default::default()
					}],
					output: vec![o(10_000_000_000_000, &other)],
				};
				let p = OutPoint {
					txid: t.txid(),
					vout: 0,
				};
				a.chain.txs.push((t, 50));
				p
			});
			let t = Transaction {
				version: 2,
				lock_time: PackedLockTime(0),
				input: vec![TxIn {
					previous_output: prev,
					..Default::default()
				}],
				output: outs,
			};
			if let Some(p) = from {
				a.coins.utxos.remove(&p);
			}
			for (vout, x) in t.output.iter().enumerate() {
				if x.script_pubkey == script {
					let p = OutPoint {
						txid: t.txid(),
						vout: vout as u32,
					};
					a.coins.utxos.insert(p, x.clone());
					mine.push(p);
				}
			}
			a.chain.txs.push((t, height));
		}
		a
	}
	fn total(&self) -> u64 {
		self.coins.utxos.values().map(|o| o.value).sum()
	}
}

#[derive(Clone)]
enum Ask {
	Deposit {
		to: (usize, [u8; 20], Option<String>),
		amount: u64,
	},
	Withdraw {
		drawee: PrivateKey,
		payee: (Address, u64),
		amount: u64,
		fee: u64,
	},
}

/// The arguments, in the given of several ways to write them.
fn args(a: &Account, url: &str, ask: &Ask, sbtc: &Address, way: usize) -> Vec<String> {
	let text = |x: &Address| ref_address_text(x.script_pubkey().as_bytes(), a.net).expect("address text");
	let mut v: Vec<(&str, &str, String)> = vec![("u", "node-url", url.into()), ("w", "wif", a.key.to_wif()), ("n", "network", a.net.to_string()), ("s", "sbtc-wallet", text(sbtc))];
	let cmd = match ask {
		Ask::Deposit { to: (ver, h, name), amount } => {
			let mut r = ref_address(VERSION_BYTES[*ver], h);
			if let Some(n) = name {
				r = format!("{r}.{n}");
			}
			v.push(("r", "recipient", r));
			v.push(("a", "amount", amount.to_string()));
			"deposit"
		}
		Ask::Withdraw { drawee, payee, amount, fee } => {
			v.push(("d", "drawee-wif", drawee.to_wif()));
			v.push(("b", "payee-address", text(&payee.0)));
			v.push(("a", "amount", amount.to_string()));
			v.push(("f", "fulfillment-fee", fee.to_string()));
			"withdraw"
		}
	};
	if way == 1 {
		v.reverse();
	}
	let mut out = vec![cmd.to_string()];
	for (s, l, x) in v {
		match way {
			0 => out.extend([format!("-{s}"), x]),
			1 => out.push(format!("--{l}={x}")),
			_ => out.extend([format!("--{l}"), x]),
		}
	}
	out
}

fn printed(r: &Ran) -> Result<Transaction, Fail> {
	let v = r.json()?;
	let o = v.as_object().ok_or("not a JSON object")?;
	ensure_eq!(o.len(), 2usize, "fields of the answer");
	let b = mc::unhex(o["hex"].as_str().filter(|h| h.len() % 2 == 0 && h.bytes().all(|c| c.is_ascii_hexdigit())).ok_or("no hex")?);
	let t: Transaction = deserialize(&b).map_err(|e| Fail::from(format!("hex: {e}")))?;
	// the id by hand: the hash without witnesses
	let mut bare = t.clone();
	bare.input.iter_mut().for_each(|i| i.witness.clear());
	let mut id = sha256d(&bdk::bitcoin::consensus::serialize(&bare));
	id.reverse();
	ensure_eq!(o["id"].as_str().unwrap_or(""), mc::hex(id), "id");
	Ok(t)
}

/// The outputs asked for, or why the request must be refused.
fn wanted(net: Network, ask: &Ask, sbtc: &(Address, u64)) -> Result<Vec<(Script, u64)>, &'static str> {
	match ask {
		Ask::Deposit { to: (ver, h, name), amount } => {
			if *amount < sbtc.1 {
				return Err("dust refused");
			}
			let p = deposit_payload(net, VERSION_BYTES[*ver], h, name.as_deref());
			Ok(vec![(op_return(&p), 0), (sbtc.0.script_pubkey(), *amount)])
		}
		Ask::Withdraw { drawee, payee, amount, fee } => {
			if *fee < sbtc.1 {
				return Err("dust refused");
			}
			let s = payee.0.script_pubkey();
			let p = request_payload(net, *amount, &ref_sign(&drawee.inner, *amount, s.as_bytes(), net));
			Ok(vec![(op_return(&p), 0), (s, payee.1), (sbtc.0.script_pubkey(), *fee)])
		}
	}
}

fn judge(mut a: Account, ask: &Ask, sbtc: &(Address, u64), way: usize, faults: Vec<(usize, Fault)>) -> CaseResult {
	let faulty = !faults.is_empty();
	let fatal = faults.iter().any(|f| matches!(f.1, Fault::Error | Fault::Garbage));
	a.chain.faults = faults;
	let n = a.coins.utxos.len() as u64;
	let s = Server::start(std::mem::take(&mut a.chain));
	let v = args(&a, &s.url(), ask, &sbtc.0, way);
	mc::note(|| format!("sbtc {} with coins {:?}", v.join(" "), a.coins.utxos.values().map(|o| o.value).collect::<Vec<_>>()));
	let r = sbtc_run(&v);
	let seen = s.stop();
	let r = r?;
	ensure!(seen.broadcast.is_empty(), "broadcasts by itself");
	ensure!(seen.bad.is_empty(), "odd requests {:?}", seen.bad);
	let want = match wanted(a.net, ask, sbtc) {
		Err(why) => {
			r.refused()?;
			return Ok(why);
		}
		Ok(w) => w,
	};
	let need: u64 = want.iter().map(|w| w.1).fold(0, |x, y| x.saturating_add(y));
	if !r.ok {
		r.refused()?;
		if fatal {
			return Ok("server error reported");
		}
		ensure!(a.total() < need.saturating_add(600 + 150 * n) || need > 2_100_000_000_000_000, "refused with {} for {need}: {}", a.total(), r.err);
		return Ok("not enough coins");
	}
	let tx = printed(&r)?;
	audit(&tx, &a.coins, &want)?;
	Ok(if faulty { "built despite faults" } else { "built" })
}

fn sbtc_run(v: &[String]) -> Result<Ran, Fail> {
	sbtc(v)
}

fn own(a: &Account) -> Address {
	Address::from_script(&a.coins.script, a.net).unwrap()
}

pub fn run(ctx: &Ctx) {
	ctx.rule("networks x recipients or payees x sBTC address kinds x amounts and fees around the limits and the funds x three ways to write the arguments; all wallet histories of up to 3 (thorough 4) events (coins received confirmed, pending, beside others, spent, changed); every request to the server failing in each way, in pairs for the short ones; every argument left out, given twice, or wrong. The program runs as a process against a loopback Electrum server; the transaction it prints is audited byte by byte, signatures included.");
	ctx.assume("Coin selection, fees and signing are bdk's: their result is audited. The sBTC address and the payee belong to the network asked for. Amounts stay below 2^63 (bdk adds them up unchecked).");
	let few = few_hashes();
	let keys = secret_keys();
	let recips: Vec<(usize, [u8; 20], Option<String>)> = vec![
		(0, few[3], None),
		(1, few[1], None),
		(2, few[2], None),
		(3, few[4], None),
		(2, few[0], Some("asset".into())),
		(0, few[4], Some("n".repeat(40))),
		(3, few[3], Some("A-b_9".into())),
	];
	let dest = |a: &Account, k: usize, seed: u8| if k == 5 { (own(a), ref_dust(2)) } else { (address(k, seed, a.net), ref_dust(k)) };
	let start = [Ev::Receive(100_000)];
	let amounts = |dust: u64| [0, 1, dust - 1, dust, dust + 1, 50_000, 99_000, 99_990, 100_001, 2_100_000_000_000_000, u64::MAX / 2];
	ctx.each("deposit", 4 * 6 * 7 * 11, |i| {
		let mut x = Idx(i);
		let net = *x.pick(&NETS);
		let a = Account::new(net, (i % 3) as u8, &start);
		let sbtc = dest(&a, x.take(6), 31);
		let to = x.pick(&recips).clone();
		let amount = amounts(sbtc.1)[x.take(11)];
		let way = (i % 7 % 3) as usize;
		judge(a, &Ask::Deposit { to, amount }, &sbtc, way, vec![])
	});
	let was = [0u64, 1, 545, 100_000, 1 << 32, u64::MAX];
	ctx.each("withdraw", 4 * 6 * 6 * 11 * if ctx.thorough() { 6 } else { 1 }, |i| {
		let mut x = Idx(i);
		let net = *x.pick(&NETS);
		let a = Account::new(net, (i % 3) as u8, &start);
		let sbtc = dest(&a, x.take(6), 31);
		let payee = dest(&a, x.take(6), 32);
		let fee = amounts(sbtc.1)[x.take(11)];
		let amount = was[if ctx.thorough() { x.take(6) } else { (i % 13) as usize % 6 }];
		// the drawee's key may be written for either network
		let drawee = PrivateKey::new(keys[i as usize % keys.len()], if i % 2 == 0 { net } else { NETS[(i % 4) as usize] });
		let way = (i % 7 % 3) as usize;
		judge(a, &Ask::Withdraw { drawee, payee, amount, fee }, &sbtc, way, vec![])
	});
	// a key written for the other kind of network
	ctx.each("key of another network", 4 * 4 * 2, |i| {
		let mut x = Idx(i);
		let (net, of) = (*x.pick(&NETS), *x.pick(&NETS));
		let mut a = Account::new(net, 3, &start);
		a.key.network = of;
		let ask = if x.take(2) == 0 {
			Ask::Deposit {
				to: recips[4].clone(),
				amount: 5000,
			}
		} else {
			Ask::Withdraw {
				drawee: PrivateKey::new(keys[5], net),
				payee: (address(2, 8, net), ref_dust(2)),
				amount: 4444,
				fee: 3000,
			}
		};
		let to = (address(4, 31, net), ref_dust(4));
		if (net == Network::Bitcoin) == (of == Network::Bitcoin) {
			return judge(a, &ask, &to, 0, vec![]);
		}
		let s = Server::start(std::mem::take(&mut a.chain));
		let v = args(&a, &s.url(), &ask, &to.0, 0);
		mc::note(|| format!("sbtc {}", v.join(" ")));
		let r = sbtc(&v);
		s.stop();
		r?.refused()?;
		Ok("key of another network refused")
	});
	// amounts beyond 32 bits
	let large = [u32::MAX as u64, 1 << 32, (1 << 32) + 1, (1 << 32) + 5000, 5_000_000_000, 9_999_000_000, 10_000_000_000, (1 << 33) + 600, (1 << 40) + 600, (1 << 48) + 600, (1 << 52) + 600];
	ctx.each("large amounts", 11 * 3 * 2, |i| {
		let mut x = Idx(i);
		let amount = *x.pick(&large);
		let funds: &[Ev] = *x.pick(&[&[Ev::Receive(10_000_000_000)] as &[Ev], &[Ev::Receive(2_000_000_000_000_000), Ev::Receive(77_000)], &[Ev::Two(6_000_000_000, 5_000_000_000)]]);
		let a = Account::new(Network::Testnet, 3, funds);
		let ask = if x.take(2) == 0 {
			Ask::Deposit {
				to: recips[4].clone(),
				amount,
			}
		} else {
			Ask::Withdraw {
				drawee: PrivateKey::new(keys[5], Network::Testnet),
				payee: (address(2, 8, Network::Testnet), ref_dust(2)),
				amount: amount + 1,
				fee: amount,
			}
		};
		judge(a, &ask, &(address(4, 31, Network::Testnet), ref_dust(4)), 0, vec![])
	});
	let depth = if ctx.thorough() { 4 } else { 3 };
	let mut hs: Vec<Vec<Ev>> = vec![vec![]];
	let mut last = hs.clone();
	for _ in 0..depth {
		last = last.iter().flat_map(|h| EVS.iter().map(move |e| [h.clone(), vec![*e]].concat())).collect();
		hs.extend(last.clone());
	}
	ctx.each("histories", hs.len() as u64 * 4, |i| {
		let mut x = Idx(i);
		let h = x.pick(&hs);
		let net = [Network::Testnet, Network::Bitcoin][x.take(2)];
		let a = Account::new(net, 9, h);
		let sbtc = (address(4, 31, net), ref_dust(4));
		// little, or nearly all there is
		let amount = if x.take(2) == 0 { 1000 } else { a.total().saturating_sub(1500 + 150 * a.coins.utxos.len() as u64).max(1000) };
		let ask = if i % 2 == 0 {
			Ask::Deposit {
				to: recips[4].clone(),
				amount,
			}
		} else {
			Ask::Withdraw {
				drawee: PrivateKey::new(keys[5], net),
				payee: (address(2, 8, net), ref_dust(2)),
				amount: 4444,
				fee: amount,
			}
		};
		judge(a, &ask, &sbtc, 2, vec![])
	});
	// faults of the server
	let hist = [Ev::Receive(100_000), Ev::Second(40_000), Ev::Pending(20_000), Ev::Spend];
	let asks = |net: Network| {
		[
			Ask::Deposit {
				to: recips[5].clone(),
				amount: 5000,
			},
			Ask::Withdraw {
				drawee: PrivateKey::new(keys[5], net),
				payee: (address(2, 8, net), ref_dust(2)),
				amount: 4444,
				fee: 3000,
			},
		]
	};
	let net = Network::Testnet;
	let reqs = {
		let mut a = Account::new(net, 9, &hist);
		let s = Server::start(std::mem::take(&mut a.chain));
		let v = args(&a, &s.url(), &asks(net)[0], &address(4, 31, net), 0);
		let _ = sbtc(&v);
		s.stop().requests.len()
	};
	if reqs == 0 || reqs > 200 {
		ctx.case("requests", || fail!("asks the server {reqs} times"));
	}
	ctx.put("server requests per run", reqs as u64);
	let kinds = [Fault::Lost, Fault::AnswerLost, Fault::Error, Fault::Garbage];
	ctx.each("one fault", reqs as u64 * 4 * 2, |i| {
		let mut x = Idx(i);
		let (w, k, at) = (x.take(2), *x.pick(&kinds), x.take(reqs));
		judge(Account::new(net, 9, &hist), &asks(net)[w], &(address(4, 31, net), ref_dust(4)), 0, vec![(at, k)])
	});
	if ctx.thorough() {
		ctx.each("two faults", (reqs * reqs) as u64 * 2, |i| {
			let mut x = Idx(i);
			let (w, p, q) = (x.take(2), x.take(reqs), x.take(reqs));
			judge(Account::new(net, 9, &hist), &asks(net)[w], &(address(4, 31, net), ref_dust(4)), 0, vec![(p, Fault::Lost), (p + 1 + q, Fault::AnswerLost)])
		});
	}
	// arguments that are missing, doubled or wrong
	let wrong: Vec<(&str, Vec<&str>)> = vec![
		("-u", vec!["", "not a url", "://"]),
		("-w", vec!["", "x", "cVt4o7BGAig1UXywgGSmARhxMdzP5qvQsxKkSsc1XEkw3tDTQFpz", "5HueCGU8rMjxEXxiPuD5BDku4MkFqeZyd4dZ1jvhTVqvbTLvyTJ", "00"]),
		("-n", vec!["", "mainnet", "Testnet", "test", "0"]),
		("-r", vec!["", "S", "ST", "SP2J6ZY48GV1EZ5V2V5RB9MP66SW86PYKKNRV9EJ6", "SP2J6ZY48GV1EZ5V2V5RB9MP66SW86PYKKNRV9EJ7.", "SP2J6ZY48GV1EZ5V2V5RB9MP66SW86PYKKNRV9EJ7.1a", "SP2J6ZY48GV1EZ5V2V5RB9MP66SW86PYKKNRV9EJ7.a b", "SP2J6ZY48GV1EZ5V2V5RB9MP66SW86PYKKNRV9EJ7..a", "2J6ZY48GV1EZ5V2V5RB9MP66SW86PYKKNRV9EJ7", "asset"]),
		("-a", vec!["", "-1", "1.5", "1e3", "18446744073709551616", "0x10", " 7", "many"]),
		("-f", vec!["", "-1", "1.5", "18446744073709551616", "few"]),
		("-s", vec!["", "x", "1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN3", "bc1qar0srrr7xfkvy5l643lydnw9re59gtzzwf5mdx"]),
		("-b", vec!["", "x", "1BvBMSEYstWetqTFn5Au4m4GFg7xJaNVN3", "bc1qar0srrr7xfkvy5l643lydnw9re59gtzzwf5mdx"]),
		("-d", vec!["", "x", "00"]),
	];
	for (w, cmd) in ["deposit", "withdraw"].into_iter().enumerate() {
		let mut a = Account::new(net, 9, &start);
		let s = Server::start(std::mem::take(&mut a.chain));
		let good = args(&a, &s.url(), &asks(net)[w], &address(4, 31, net), 0);
		ctx.case(format!("{cmd} as is"), || {
			let r = sbtc(&good)?;
			printed(&r)?;
			Ok("built")
		});
		let mut bad: Vec<(String, Vec<String>)> = vec![];
		for i in (1..good.len()).step_by(2) {
			let mut v = good.clone();
			v.drain(i..i + 2);
			bad.push((format!("without {}", good[i]), v));
			let mut v = good.clone();
			v.truncate(i + 1);
			bad.push((format!("ends at {}", good[i]), v));
			let mut v = good.clone();
			v.extend_from_slice(&good[i..i + 2]);
			bad.push((format!("{} twice", good[i]), v));
			let at = wrong.iter().find(|x| x.0 == good[i]).unwrap_or_else(|| no_answer("an unknown argument"));
			for b in &at.1 {
				let mut v = good.clone();
				v[i + 1] = b.to_string();
				bad.push((format!("{} {b:?}", good[i]), v));
			}
			// every single change of a text that carries a checksum
			if ["-w", "-s", "-b", "-d", "-r"].contains(&&good[i][..]) && good[i + 1].len() > 30 && !good[i + 1].contains('.') {
				for (p, c) in good[i + 1].char_indices() {
					let mut t = good[i + 1].clone();
					t.replace_range(p..p + 1, if c == '3' { "4" } else { "3" });
					let mut v = good.clone();
					v[i + 1] = t;
					bad.push((format!("{} changed at {p}", good[i]), v));
				}
			}
		}
		for x in ["extra", "--verbose", "-x"] {
			let mut v = good.clone();
			v.push(x.into());
			bad.push((format!("and {x}"), v));
		}
		ctx.each(&format!("{cmd} wrong"), bad.len() as u64, |i| {
			let (what, v) = &bad[i as usize];
			mc::note(|| what.clone());
			sbtc(v)?.refused().map_err(|f| Fail::from(format!("{what}: {}", f.msg)))?;
			Ok("refused")
		});
		s.stop();
	}
	// a server out of reach
	ctx.case("nobody there", || {
		let a = Account::new(net, 9, &start);
		let s = Server::start(Chain::default());
		let url = s.url();
		s.stop();
		sbtc(&args(&a, &url, &asks(net)[0], &address(4, 31, net), 0))?.refused()?;
		Ok("refused")
	});
	for v in [vec![], vec!["deposits"], vec!["sign"]] {
		ctx.case(format!("{v:?}"), || {
			sbtc(&v.iter().map(|s| s.to_string()).collect::<Vec<_>>())?.refused()?;
			Ok("refused")
		});
	}
}
