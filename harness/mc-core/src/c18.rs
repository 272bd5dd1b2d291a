//! C18: the deposit parser accepts exactly well-formed deposits and never panics.
use bdk::bitcoin::{Network, Script, Transaction, TxOut};
use mc::{ensure_eq, fail, CaseResult, Ctx, Idx};
use sbtc_core::operations::op_return::deposit::{Deposit, DepositParseError};

use crate::{btc::*, c17::deposit_payload, c26::*, fix::*};

/// Reference deposit parser over raw outputs.
fn reference(net: Network, outs: &[TxOut]) -> Option<(u64, (u8, Vec<u8>, Option<String>), Script)> {
	let data = ref_op_return_data(outs.first()?.script_pubkey.as_bytes())?;
	if data.len() < 3 || data[..2] != ref_magic(net) || data[2] != b'<' {
		return None;
	}
	let (v, h, n, _) = ref_parse_principal(&data[3..])?;
	let o = outs.get(1)?;
	ref_is_address(o.script_pubkey.as_bytes()).then(|| (o.value, (v, h, n), o.script_pubkey.clone()))
}

/// Script forms that have an address.
pub fn ref_is_address(s: &[u8]) -> bool {
	let n = s.len();
	(n == 25 && s[..3] == [0x76, 0xa9, 20] && s[23..] == [0x88, 0xac])
		|| (n == 23 && s[..2] == [0xa9, 20] && s[22] == 0x87)
		|| ((4..=42).contains(&n)
			&& (s[0] == 0 || (0x51..=0x60).contains(&s[0]))
			&& s[1] as usize == n - 2
			&& (s[0] != 0 || n == 22 || n == 34))
}

pub fn check(net: Network, outs: Vec<TxOut>) -> CaseResult {
	check_tx(net, tx_with(outs))
}

fn check_tx(net: Network, tx: Transaction) -> CaseResult {
	let outs = tx.output.clone();
	mc::note(|| format!("{net} outputs {:?}", outs.iter().map(|o| (mc::hex(o.script_pubkey.as_bytes()), o.value)).collect::<Vec<_>>()));
	let want = reference(net, &outs);
	let n = outs.len();
	let shown: Vec<String> = outs.iter().map(|o| mc::hex(o.script_pubkey.as_bytes())).collect();
	let got = Deposit::parse(net, tx);
	match (got, want) {
		(Ok(d), Some((amount, rec, script))) => {
			ensure_eq!(d.amount, amount, "amount of {shown:?}");
			ensure_eq!(parts(&d.recipient), rec, "recipient of {shown:?}");
			ensure_eq!(d.sbtc_wallet_address.script_pubkey(), script, "wallet of {shown:?}");
			ensure_eq!(d.sbtc_wallet_address.network, net, "wallet network");
			ensure_eq!(d.network, net, "network");
			Ok("deposit")
		}
		(Err(e), None) => {
			if n == 0 {
				ensure_eq!(e, DepositParseError::InvalidOutputs, "no outputs");
			}
			Ok("not a deposit")
		}
		(g, w) => fail!("{net} outputs {shown:?}: got {g:?}, expected {w:?}"),
	}
}

pub fn run(ctx: &Ctx) {
	ctx.rule("first-output scripts: every push encoding (direct, PUSHDATA1/2/4, truncated, duplicated, trailing ops) of every payload; payloads: every value of each of the two magic bytes, opcode, principal type, address version and name-length byte, every truncation and extension, every single-bit flip; second outputs: every script form and near-form; output counts 0..600; inputs, versions, lock times, sequences and witnesses of every kind around a good and a bad list of outputs; every network against every magic. Compared with a hand-written parser.");
	ctx.put("exhaustive", true);
	let few = few_hashes();
	let wallet_out = |kind: usize, v: u64| TxOut {
		value: v,
		script_pubkey: scripts(9)[kind].clone(),
	};
	let out = |s: Vec<u8>, v: u64| TxOut {
		value: v,
		script_pubkey: Script::from(s),
	};
	let names: Vec<Option<String>> = std::iter::once(None).chain(contract_names().into_iter().map(Some)).collect();
	let std_out = |p: &[u8]| out(op_return(p).into_bytes(), 0);
	// good deposits in every script form, on every network pair
	ctx.each("forms", 4 * 4 * names.len() as u64 * 25, |i| {
		let mut ix = Idx(i);
		let (net, mnet) = (*ix.pick(&NETS), *ix.pick(&NETS));
		let n = ix.pick(&names).as_deref();
		let p = deposit_payload(mnet, 26, &few[3], n);
		let f = script_forms(&p);
		let k = ix.take(25);
		if k >= f.len() {
			return Ok("~n/a");
		}
		check(net, vec![out(f[k].1.clone(), 0), wallet_out(4, 1234)])
	});
	// header bytes
	for (pos, name) in [(0usize, "magic0"), (1, "magic1"), (2, "opcode"), (3, "type"), (4, "version"), (25, "name length")] {
		ctx.each(name, 256 * 4 * 3, |i| {
			let mut ix = Idx(i);
			let b = ix.take(256) as u8;
			let net = *ix.pick(&NETS);
			let n = [None, Some("asset"), Some("x12345678901234567890123456789012345678y")][ix.take(3)];
			let mut p = deposit_payload(net, 21, &few[2], n);
			if pos >= p.len() {
				p.push(b);
			} else {
				p[pos] = b;
			}
			check(net, vec![std_out(&p), wallet_out(2, 50_000)])
		});
	}
	ctx.each("magic pairs", 65536, |i| {
		let mut p = deposit_payload(Network::Testnet, 26, &few[3], None);
		p[0] = (i >> 8) as u8;
		p[1] = i as u8;
		check(NETS[(i % 4) as usize], vec![std_out(&p), wallet_out(0, 9)])?;
		check(Network::Testnet, vec![std_out(&p), wallet_out(0, 9)])
	});
	// truncation, extension
	ctx.each("cuts", names.len() as u64 * 76 * 2, |i| {
		let mut ix = Idx(i);
		let n = ix.pick(&names).as_deref();
		let l = ix.take(76);
		let mut p = deposit_payload(Network::Testnet, 26, &few[3], n);
		p.resize(l, [0, b'a'][ix.take(2)]);
		check(Network::Testnet, vec![std_out(&p), wallet_out(4, 1)])
	});
	// bit flips
	ctx.each("bits", 4 * 66 * 8, |i| {
		let mut ix = Idx(i);
		let n = [None, Some("a"), Some("asset"), Some("x12345678901234567890123456789012345678y")][ix.take(4)];
		let mut p = deposit_payload(Network::Bitcoin, 22, &few[3], n);
		let pos = ix.take(66);
		if pos >= p.len() {
			return Ok("~n/a");
		}
		p[pos] ^= 1 << ix.take(8);
		check(Network::Bitcoin, vec![std_out(&p), wallet_out(3, u64::MAX)])
	});
	// second outputs
	let good = deposit_payload(Network::Testnet, 26, &few[3], Some("asset"));
	let seconds = address_forms(&good);
	ctx.each("second output", seconds.len() as u64 * 4, |i| {
		let mut ix = Idx(i);
		let s = ix.pick(&seconds).clone();
		let net = *ix.pick(&NETS);
		let p = deposit_payload(net, 26, &few[3], Some("asset"));
		check(net, vec![std_out(&p), out(s, 777)])
	});
	// amounts and extra outputs, output order, missing outputs
	let amounts = [0u64, 1, 545, 546, 547, 2_100_000_000_000_000, u64::MAX];
	ctx.each("shapes", 7 * 5 * 7, |i| {
		let mut ix = Idx(i);
		let a = *ix.pick(&amounts);
		let k = ix.take(5);
		let d = std_out(&good);
		let w = wallet_out(k, a);
		let other = wallet_out((k + 1) % 5, a / 2 + 1);
		check(
			Network::Testnet,
			match ix.take(7) {
				0 => vec![],
				1 => vec![d],
				2 => vec![d, w],
				3 => vec![w, d],
				4 => vec![d, w, other],
				5 => vec![d, other, w],
				_ => vec![d.clone(), d, w],
			},
		)
	});
	// every sequence of up to 4 outputs over five kinds
	ctx.each("orders", 1 + 5 + 25 + 125 + 625, |mut i| {
		let mut len = 0;
		while i >= 5u64.pow(len) {
			i -= 5u64.pow(len);
			len += 1;
		}
		let mut ix = Idx(i);
		let outs = (0..len)
			.map(|n| match ix.take(5) {
				0 => std_out(&good),
				1 => wallet_out(2, 600 + n as u64),
				2 => wallet_out(4, 0),
				3 => out(vec![0x6a], 0),
				_ => std_out(b"T2>"),
			})
			.collect();
		check(Network::Testnet, outs)
	});
	// values on the data output are irrelevant
	ctx.each("data value", 7, |i| check(Network::Testnet, vec![out(op_return(&good).into_bytes(), amounts[i as usize]), wallet_out(4, 5)]));
	// any number of outputs, and everything about a transaction that is not an output
	ctx.each("many outputs", 600, |i| {
		let mut v = vec![std_out(&good), wallet_out(4, 1000 + i)];
		for k in 0..i {
			v.push(if i % 2 == 0 { wallet_out(k as usize % 5, k) } else { std_out(&good) });
		}
		check(Network::Testnet, v)
	});
	let envs = envelopes();
	ctx.each("envelopes", envs.len() as u64 * 4 * 2, |i| {
		let mut ix = Idx(i);
		let e = ix.pick(&envs);
		let net = *ix.pick(&NETS);
		let p = deposit_payload(net, 26, &few[3], Some("asset"));
		let mut outs = vec![std_out(&p), wallet_out(4, 1000)];
		if ix.take(2) == 1 {
			outs.swap(0, 1);
		}
		check_tx(net, Transaction { output: outs, ..e.clone() })
	});
	// short arbitrary scripts
	ctx.each("tiny scripts", 1 + 256 + 65536, |i| {
		let s = match i {
			0 => vec![],
			1..=256 => vec![(i - 1) as u8],
			_ => ((i - 257) as u16).to_be_bytes().to_vec(),
		};
		let mut t = s.clone();
		t.extend_from_slice(&good);
		check(Network::Testnet, vec![out(s, 0), wallet_out(1, 5)])?;
		check(Network::Testnet, vec![out(t, 0), wallet_out(1, 5)])
	});
}

/// Output scripts that are an address, and near misses.
pub fn address_forms(payload: &[u8]) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = scripts(9).iter().map(|s| s.to_bytes()).collect();
	for s in scripts(9) {
		let s = s.to_bytes();
		for cut in 0..s.len() {
			v.push(s[..cut].to_vec());
		}
		let mut e = s.clone();
		e.push(0);
		v.push(e);
		for (p, x) in [(0usize, 1u8), (1, 1), (s.len() - 1, 1)] {
			let mut m = s.clone();
			m[p] ^= x;
			v.push(m);
		}
	}
	for ver in 0x50..=0x61u8 {
		for l in [1u8, 2, 3, 20, 32, 39, 40, 41] {
			let mut m = vec![ver, l];
			m.extend(vec![5; l as usize]);
			v.push(m);
		}
	}
	v.push({
		let d = &payload[..payload.len().min(75)];
		op_return(d).to_bytes()
	});
	v
}
