//! C21: the withdrawal request parser accepts exactly well-formed requests.
use bdk::bitcoin::{Network, Script, Transaction, TxOut};
use mc::{ensure_eq, fail, CaseResult, Ctx, Idx};
use sbtc_core::operations::op_return::withdrawal_request::try_parse_withdrawal_request;

use crate::{btc::*, fix::*, wr::*};

pub fn check(net: Network, outs: Vec<TxOut>) -> CaseResult {
	check_tx(net, tx_with(outs))
}

fn check_tx(net: Network, tx: Transaction) -> CaseResult {
	let outs = tx.output.clone();
	let shown = || outs.iter().map(|o| (mc::hex(o.script_pubkey.as_bytes()), o.value)).collect::<Vec<_>>();
	mc::note(|| format!("{net} outputs {:?}", shown()));
	let want = ref_parse(net, &outs);
	let got = try_parse_withdrawal_request(net, tx).ok();
	match (got, want) {
		(Some(g), Some(w)) => {
			let g = RefRequest {
				amount: g.amount,
				sig: sig_bytes(&g.signature),
				payee: g.payee_bitcoin_address.script_pubkey(),
				drawee: g.drawee_stacks_address.to_string(),
				wallet: {
					ensure_eq!((g.payee_bitcoin_address.network, g.sbtc_wallet.network), (net, net), "address networks");
					g.sbtc_wallet.script_pubkey()
				},
				fee: g.fulfillment_amount,
			};
			ensure_eq!(g, w, "request parsed from {:?}", shown());
			Ok("request")
		}
		(None, None) => Ok("not a request"),
		(g, w) => fail!("{net} outputs {:?}: parsed: {}, expected {w:?}", shown(), g.is_some()),
	}
}

pub fn run(ctx: &Ctx) {
	ctx.rule("data scripts in every push encoding; every value of each magic byte, opcode and recovery id byte; every truncation, extension and single-bit flip of the payload; signature values at the edges of the scalar range; payee and wallet outputs in every script form and near-form; 0..4 outputs in every order, any number of further outputs to 600; inputs, versions, lock times, sequences and witnesses of every kind; every network against every magic. Compared with a hand-written parser using libsecp256k1 recovery.");
	ctx.put("exhaustive", true);
	let keys = secret_keys();
	let out = |s: &[u8], v: u64| TxOut {
		value: v,
		script_pubkey: Script::from(s.to_vec()),
	};
	let sc = scripts(21);
	let payload = |net: Network, mnet: Network, amount: u64, kind: usize, k: usize| request_payload(mnet, amount, &ref_sign(&keys[k], amount, sc[kind].as_bytes(), net));
	// scripts with more than 75 bytes of data need PUSHDATA1
	let push = |p: &[u8]| -> Vec<u8> {
		if p.len() <= 75 {
			[&[0x6a, p.len() as u8], p].concat()
		} else {
			[&[0x6a, 0x4c, p.len() as u8], p].concat()
		}
	};
	let amounts = [0u64, 1, 1000, 1 << 40, u64::MAX];
	ctx.each("good", 4 * 4 * 5 * 5 * 5 * keys.len() as u64, |i| {
		let mut ix = Idx(i);
		let (net, mnet) = (*ix.pick(&NETS), *ix.pick(&NETS));
		let (p, w) = (ix.take(5), ix.take(5));
		let a = *ix.pick(&amounts);
		let k = ix.take(keys.len());
		check(net, vec![out(&push(&payload(net, mnet, a, p, k)), 0), out(sc[p].as_bytes(), 546), out(sc[w].as_bytes(), a / 3)])
	});
	ctx.each("forms", 4 * 5 * 30, |i| {
		let mut ix = Idx(i);
		let net = *ix.pick(&NETS);
		let k = ix.take(5);
		let p = payload(net, net, 77, k, 4);
		let mut f = script_forms(&p);
		f.push(("PUSHDATA1 overlong".into(), [&[0x6a, 0x4c, 77][..], &p].concat()));
		f.push(("direct 75".into(), [&[0x6a, 75][..], &p].concat()));
		f.push(("PUSHDATA1 then op".into(), [&[0x6a, 0x4c, 76][..], &p, &[0x51]].concat()));
		f.push(("no OP_RETURN".into(), [&[0x4c, 76][..], &p].concat()));
		let j = ix.take(30);
		if j >= f.len() {
			return Ok("~n/a");
		}
		check(net, vec![out(&f[j].1, 0), out(sc[k].as_bytes(), 546), out(sc[0].as_bytes(), 9)])
	});
	for (pos, name) in [(0usize, "magic0"), (1, "magic1"), (2, "opcode"), (11, "recovery id"), (3, "amount0"), (10, "amount7")] {
		ctx.each(name, 256 * 4 * 5, |i| {
			let mut ix = Idx(i);
			let b = ix.take(256) as u8;
			let net = *ix.pick(&NETS);
			let k = ix.take(5);
			let mut p = payload(net, net, 123_456, k, 5);
			p[pos] = b;
			check(net, vec![out(&push(&p), 0), out(sc[k].as_bytes(), 546), out(sc[4].as_bytes(), 1000)])
		});
	}
	ctx.each("magic pairs", 65536, |i| {
		let net = NETS[(i % 4) as usize];
		let mut p = payload(net, net, 5, 2, 6);
		p[0] = (i >> 8) as u8;
		p[1] = i as u8;
		check(net, vec![out(&push(&p), 0), out(sc[2].as_bytes(), 546), out(sc[4].as_bytes(), 1000)])
	});
	ctx.each("bits", 76 * 8 * 5, |i| {
		let mut ix = Idx(i);
		let (pos, bit) = (ix.take(76), ix.take(8));
		let k = ix.take(5);
		let mut p = payload(Network::Testnet, Network::Testnet, 1000, k, 7);
		p[pos] ^= 1 << bit;
		check(Network::Testnet, vec![out(&push(&p), 0), out(sc[k].as_bytes(), 546), out(sc[4].as_bytes(), 1000)])
	});
	ctx.each("cuts", 90 * 2 * 5, |i| {
		let mut ix = Idx(i);
		let l = ix.take(90);
		let fill = [0u8, 1][ix.take(2)];
		let k = ix.take(5);
		let mut p = payload(Network::Testnet, Network::Testnet, 1000, k, 7);
		p.resize(l, fill);
		check(Network::Testnet, vec![out(&push(&p), 0), out(sc[k].as_bytes(), 546), out(sc[4].as_bytes(), 1000)])
	});
	// signature scalars at the edges
	let order = mc::unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
	let mut scalars: Vec<Vec<u8>> = vec![vec![0; 32], vec![0xff; 32], order.clone()];
	for (b, d) in [(31usize, 1i16), (31, -1)] {
		let mut x = order.clone();
		x[b] = (x[b] as i16 + d) as u8;
		scalars.push(x);
	}
	let mut one = vec![0; 32];
	one[31] = 1;
	scalars.push(one);
	scalars.push(mc::unhex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"));
	let good = payload(Network::Testnet, Network::Testnet, 1000, 1, 8);
	scalars.push(good[12..44].to_vec());
	scalars.push(good[44..76].to_vec());
	let ns = scalars.len();
	ctx.each("scalars", (ns * ns * 256) as u64, |i| {
		let mut ix = Idx(i);
		let mut p = good.clone();
		p[12..44].copy_from_slice(&scalars[ix.take(ns)]);
		p[44..76].copy_from_slice(&scalars[ix.take(ns)]);
		p[11] = ix.take(256) as u8;
		check(Network::Testnet, vec![out(&push(&p), 0), out(sc[1].as_bytes(), 546), out(sc[4].as_bytes(), 1000)])
	});
	let forms = crate::c18::address_forms(&good);
	ctx.each("payee forms", forms.len() as u64 * 4, |i| {
		let mut ix = Idx(i);
		let s = ix.pick(&forms);
		let net = *ix.pick(&NETS);
		let sig = if crate::c18::ref_is_address(s) { ref_sign(&keys[3], 5, s, net) } else { good[11..].to_vec() };
		check(net, vec![out(&push(&request_payload(net, 5, &sig)), 0), out(s, 600), out(sc[4].as_bytes(), 1000)])
	});
	ctx.each("wallet forms", forms.len() as u64 * 4, |i| {
		let mut ix = Idx(i);
		let s = ix.pick(&forms);
		let net = *ix.pick(&NETS);
		check(net, vec![out(&push(&payload(net, net, 9, 0, 2)), 0), out(sc[0].as_bytes(), 600), out(s, 1000)])
	});
	// presence and order of outputs: every sequence of length 0..4 over four kinds
	ctx.each("orders", 1 + 5 + 25 + 125 + 625, |mut i| {
		let mut len = 0;
		for l in 0..=4u32 {
			if i < 5u64.pow(l) {
				len = l;
				break;
			}
			i -= 5u64.pow(l);
		}
		let mut ix = Idx(i);
		let mut outs = vec![];
		for _ in 0..len {
			outs.push(match ix.take(5) {
				0 => out(&push(&payload(Network::Testnet, Network::Testnet, 9, 2, 2)), 0),
				1 => out(sc[2].as_bytes(), 600),
				2 => out(sc[4].as_bytes(), 0),
				3 => out(&[0x6a], 0),
				_ => out(&push(&crate::c17::deposit_payload(Network::Testnet, 26, &[3; 20], None)), 0),
			});
		}
		check(Network::Testnet, outs)
	});
	// any number of outputs, and everything about a transaction that is not an output
	ctx.each("many outputs", 600, |i| {
		let mut v = vec![out(&push(&payload(Network::Testnet, Network::Testnet, 9, 2, 2)), 0), out(sc[2].as_bytes(), 600), out(sc[4].as_bytes(), 1000 + i)];
		for k in 0..i {
			v.push(if i % 2 == 0 { out(sc[k as usize % 5].as_bytes(), k) } else { v[0].clone() });
		}
		check(Network::Testnet, v)
	});
	let envs = envelopes();
	ctx.each("envelopes", envs.len() as u64 * 4 * 2, |i| {
		let mut ix = Idx(i);
		let e = ix.pick(&envs);
		let net = *ix.pick(&NETS);
		let mut outs = vec![out(&push(&payload(net, net, 9, 2, 2)), 0), out(sc[2].as_bytes(), 600), out(sc[4].as_bytes(), 1000)];
		if ix.take(2) == 1 {
			outs.swap(0, 1);
		}
		check_tx(net, Transaction { output: outs, ..e.clone() })
	});
}
