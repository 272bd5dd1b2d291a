//! C22: withdrawal fulfillments pay the asked recipient and commit to the chain tip.
use bdk::bitcoin::Address;
use mc::{ensure, ensure_eq, fail, CaseResult, Ctx, Fail, Idx};
use sbtc_core::operations::op_return::withdrawal_fulfillment::{build_withdrawal_fulfillment_tx, create_outputs, ParsedWithdrawalFulfillmentData};
use stacks_core::{codec::Codec, uint::Uint256, BlockId};

use crate::btc::*;

fn tips() -> Vec<[u8; 32]> {
	let mut v = vec![[0u8; 32], [0xff; 32]];
	for i in 0..32 {
		let mut b = [0u8; 32];
		b[i] = 0x80 + i as u8;
		v.push(b);
	}
	let mut b = [0u8; 32];
	for (i, x) in b.iter_mut().enumerate() {
		*x = i as u8 + 1;
	}
	v.push(b);
	v.push(mc::sha::sha256(b"tip"));
	v
}

fn payload(net: bdk::bitcoin::Network, tip: &[u8]) -> Vec<u8> {
	let mut p = ref_magic(net).to_vec();
	p.push(b'!');
	p.extend_from_slice(tip);
	p
}

fn block_id(tip: &[u8]) -> BlockId {
	let mut w = [0u64; 4];
	for i in 0..4 {
		w[3 - i] = u64::from_be_bytes(tip[8 * i..8 * i + 8].try_into().unwrap());
	}
	BlockId::new(Uint256::from_u64_array(w))
}

fn parse(b: &[u8]) -> CaseResult {
	mc::note(|| format!("fulfillment data {}", mc::hex(b)));
	let mut r = b;
	let got = ParsedWithdrawalFulfillmentData::codec_deserialize(&mut r);
	let net = NETS.iter().find(|n| b.len() >= 2 && ref_magic(**n) == b[..2]);
	let ok = b.len() >= 35 && b[2] == b'!' && net.is_some();
	match got {
		Ok(d) if ok => {
			ensure_eq!(ref_magic(d.network), ref_magic(*net.unwrap()), "network");
			ensure_eq!(mc::hex(d.chain_tip.serialize_to_vec()), mc::hex(&b[3..35]), "chain tip");
			ensure_eq!(b.len() - r.len(), 35usize, "bytes used");
			ensure_eq!(mc::hex(d.serialize_to_vec()), mc::hex(&b[..35]), "round trip");
			Ok("data accepted")
		}
		Err(_) if !ok => Ok("data rejected"),
		g => fail!("fulfillment data {}: accepted: {}, expected {ok}", mc::hex(b), g.is_ok()),
	}
}

pub fn run(ctx: &Ctx) {
	ctx.rule("networks x recipient kinds (five script types and the wallet's own address) x amounts around dust and funds x coin sets x chain tips (every byte position set); every built transaction audited: data output first with the exact payload, recipient second with the exact amount, change, signatures; the data codec on every value of each header byte, every truncation/extension and bit flip.");
	ctx.assume("Coin selection, fee estimation and PSBT signing are bdk's; the audit checks their result, not their choice.");
	let reps = if ctx.replay.is_some() { 40 } else { 3 };
	let tips = tips();
	let coin_sets: Vec<Vec<u64>> = vec![vec![100_000], vec![], vec![1000, 2000, 50_000], vec![2_099_999_900_000_000], vec![5_000; 120]];
	ctx.each("build", 4 * 6 * 15 * 5 * tips.len() as u64, |i| {
		let mut ix = Idx(i);
		let net = *ix.pick(&NETS);
		let k = ix.take(6);
		let a = ix.take(15);
		let cs = ix.pick(&coin_sets);
		let tip = ix.pick(&tips);
		if !ctx.thorough() && a != 3 && tip[0] != 0xff && tip[0] != 1 {
			return Ok("~thinned");
		}
		let mut out: CaseResult = Ok("");
		for _ in 0..reps {
			let (w, coins) = wallet(net, 8, cs);
			let rcp = if k == 5 { Address::from_script(&coins.script, net).unwrap() } else { address(k, 31, net) };
			let dust = ref_dust(if k == 5 { 2 } else { k });
			let amount = [0, 1, dust - 1, dust, dust + 1, 1000, 49_000, 49_850 + tip[31] as u64 % 16, 99_500, 100_000, 1 << 40, u64::MAX / 2, (1 << 32) + 7, (1 << 48) + 9, 490_000][a];
			out = (|| -> CaseResult {
				mc::note(|| format!("{net} to {rcp} amount {amount} coins {cs:?} tip {}", mc::hex(tip)));
				let want = [(op_return(&payload(net, tip)), 0), (rcp.script_pubkey(), amount)];
				let outs = create_outputs(block_id(tip), net, &rcp, amount).map_err(|e| Fail::from(e.to_string()))?;
				ensure_eq!(outs, want, "requested outputs");
				let total: u64 = cs.iter().sum();
				let tx = match build_withdrawal_fulfillment_tx(&w, block_id(tip), net, &rcp, amount) {
					Err(_) if amount < dust => return Ok("dust refused"),
					Err(_) if total < amount.saturating_add(4000) => return Ok("not enough coins"),
					Err(e) => fail!("fulfillment of {amount} from {cs:?}: {e}"),
					Ok(t) => t,
				};
				ensure!(amount >= dust, "paid {amount}, below the dust limit {dust}");
				audit(&tx, &coins, &want)?;
				Ok("built")
			})();
			if !matches!(out, Ok("built")) {
				break;
			}
		}
		out
	});
	for (pos, name) in [(0usize, "magic0"), (1, "magic1"), (2, "opcode"), (3, "tip0"), (34, "tip31")] {
		ctx.each(name, 256 * 4, |i| {
			let mut ix = Idx(i);
			let b = ix.take(256) as u8;
			let mut p = payload(*ix.pick(&NETS), &tips[34]);
			p[pos] = b;
			parse(&p)
		});
	}
	ctx.each("cuts", 40 * 4 * tips.len() as u64, |i| {
		let mut ix = Idx(i);
		let l = ix.take(40);
		let mut p = payload(*ix.pick(&NETS), ix.pick(&tips));
		p.resize(l, 0xaa);
		parse(&p)
	});
	ctx.each("tips", 4 * tips.len() as u64, |i| {
		let mut ix = Idx(i);
		let net = *ix.pick(&NETS);
		let tip = ix.pick(&tips);
		let d = ParsedWithdrawalFulfillmentData {
			network: net,
			chain_tip: block_id(tip),
		};
		ensure_eq!(mc::hex(d.serialize_to_vec()), mc::hex(payload(net, tip)), "serialised data");
		parse(&payload(net, tip))
	});
}
