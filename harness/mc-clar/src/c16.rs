//! C16: was-txid-mined accepts exactly valid inclusion proofs.
use clarity::{buff, list, tuple, uint, Outcome, Value};
use mc::{ensure_eq, Ctx};

use crate::{c14::faults, world::*};

pub fn ask(w: &mut World, p: &Proof) -> Outcome {
	let m = w.mini.clone();
	let args = [
		uint(p.height),
		buff(&p.txid),
		buff(&p.header),
		tuple([("tx-index", uint(p.index)), ("hashes", list(p.path.iter().map(buff).collect::<Vec<Value>>()))]),
	];
	let r = w.chain.read(&m, "was-txid-mined", &args);
	if let Some(u) = &w.chain.unsupported {
		eprintln!("the contract interpreter lacks: {u}");
		std::process::exit(3);
	}
	r
}

pub fn run(ctx: &Ctx) {
	ctx.rule("for every block of n transactions in the range and every transaction in it: the valid proof, and every single-fault variant of it (height, each region of the header, header length, each path element flipped, dropped, duplicated, reversed, path order and length, index bits, every other transaction's id or path, txid byte order and length), against an independent Merkle fold over own SHA-256; both contract variants; for the largest trees (13 and 14 levels) a set of indices.");
	conformance(ctx);
	let n = if ctx.thorough() { 40 } else { 18 };
	let other = Block::new(9, (900..903).map(txid).collect(), 5);
	for variant in [PROD, DEBUG] {
		let tag = if variant == PROD { "deploy" } else { "debug" };
		let mut cases: Vec<(usize, usize)> = vec![];
		for k in 1..=n {
			for i in 0..k {
				cases.push((k, i));
			}
		}
		let base = deploy(ctx, variant, &[other.clone()]);
		let judge = |w: &mut World, p: &Proof, what: &dyn Fn() -> String| -> Result<bool, mc::Fail> {
			let typed = p.path.len() <= 14 && p.header.len() <= 80 && p.txid.len() <= 32 && p.path.iter().all(|h| h.len() <= 32);
			let want = typed && p.holds(&w.chain.burn_headers);
			let r = ask(w, p);
			ensure_eq!(matches!(&r, Outcome::Done(Value::Ok(v)) if **v == Value::Bool(true)), want, "{tag}: acceptance of {} ({r:?})", what());
			if !want && matches!(&r, Outcome::Done(Value::Ok(_))) {
				mc::fail!("{tag}: {} gives {r:?} instead of an error", what());
			}
			Ok(want)
		};
		let prepare = |b: &Block| {
			let mut w = base.clone();
			w.chain.burn_headers.insert(b.height, b.hash);
			if variant == DEBUG {
				let (d, m) = (w.who[0].clone(), w.mini.clone());
				for b in [b, &other] {
					w.chain.call(&d, &m, "debug-insert-burn-header-hash", &[buff(b.hash), uint(b.height)]);
				}
			}
			w
		};
		ctx.each(&format!("{tag}-blocks"), cases.len() as u64, |ix| {
			let (k, i) = cases[ix as usize];
			let b = Block::new(7, (0..k as u32).map(txid).collect(), 3);
			let mut w = prepare(&b);
			mc::note(|| format!("transaction {i} of {k}"));
			let ok = judge(&mut w, &b.proof(i), &|| format!("the proof of transaction {i} of {k}"))?;
			ensure_eq!(ok, k > 1, "reference acceptance");
			for (j, p) in faults(&b, &other, i).iter().enumerate() {
				judge(&mut w, p, &|| format!("fault {j} of the proof of transaction {i} of {k}: {p:?}"))?;
			}
			Ok(if k == 1 { "~single transaction" } else { "proofs judged" })
		});
		// the deepest trees the argument type allows, and one deeper
		let deep: Vec<usize> = if ctx.thorough() { vec![63, 64, 65, 500, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385] } else { vec![64, 65, 8193, 16384, 16385] };
		for k in deep {
			let b = Block::new(7, (0..k as u32).map(txid).collect(), 3);
			let mut idx: Vec<usize> = vec![0, 1, 2, k / 2 - 1, k / 2, k - 2, k - 1];
			idx.extend((0..14).map(|s| 1usize << s).filter(|x| *x < k));
			idx.dedup();
			let lv = levels(&b.txids);
			let (b, lv) = (&b, &lv);
			ctx.each(&format!("{tag}-deep-{k}"), idx.len() as u64, |ix| {
				let i = idx[ix as usize];
				let mut w = prepare(b);
				let mut p = Proof {
					txid: b.txids[i].to_vec(),
					height: b.height,
					index: i as u128,
					header: b.header.clone(),
					path: vec![],
				};
				let mut j = i;
				for level in &lv[..lv.len() - 1] {
					p.path.push(level.get(j ^ 1).unwrap_or(&level[j]).to_vec());
					j /= 2;
				}
				let ok = judge(&mut w, &p, &|| format!("the proof of transaction {i} of {k}"))?;
				for l in 0..p.path.len() {
					let mut q = p.clone();
					q.path[l][7] ^= 4;
					judge(&mut w, &q, &|| format!("path element {l} of {i} of {k} changed"))?;
					let mut q = p.clone();
					q.index ^= 1 << l;
					judge(&mut w, &q, &|| format!("index bit {l} of {i} of {k} changed"))?;
				}
				Ok(if ok { "deep proof" } else { "too deep" })
			});
		}
	}
	// Nobody can teach the deployed variant a header.
	let b = Block::new(7, (0..4).map(txid).collect(), 3);
	let mut w = deploy(ctx, PROD, &[]);
	for (i, s) in w.who.clone().iter().enumerate() {
		ctx.case(format!("debug header ignored {i}"), || {
			let m = w.mini.clone();
			let before = w.chain.data.clone();
			let _ = w.chain.call(s, &m, "debug-insert-burn-header-hash", &[buff(b.hash), uint(b.height)]);
			let r = ask(&mut w, &b.proof(1));
			if r.success() {
				mc::fail!("a header inserted by a caller is trusted by the deployable contract");
			}
			w.chain.data = before;
			Ok("debug insertion ignored")
		});
	}
}
