//! C23: reordering outputs keeps every output and puts the named ones first.
use bdk::bitcoin::{Script, TxOut};
use mc::{ensure_eq, Ctx, Idx};
use sbtc_core::operations::op_return::utils::reorder_outputs;

pub fn run(ctx: &Ctx) {
	ctx.rule("every list of 0..=N outputs over K kinds (kinds share scripts or values pairwise) against every requested order of 0..=M entries over the same kinds, duplicates and absent entries included. Expected: entries matched one for one in the requested sequence, everything else behind.");
	ctx.put("exhaustive", true);
	let s = |b: u8| Script::from(vec![0x51, b]);
	let kinds = [(s(0), 0u64), (s(1), 5), (s(1), 6), (s(2), 5), (s(0), 5)];
	let (k, n, m) = if ctx.thorough() { (5u64, 6u32, 5u32) } else { (4, 5, 4) };
	let count = |l: u32| (0..=l).map(|x| k.pow(x)).sum::<u64>();
	let list = |mut i: u64, max: u32| -> Vec<usize> {
		for l in 0..=max {
			if i < k.pow(l) {
				let mut ix = Idx(i);
				return (0..l).map(|_| ix.take(k as usize)).collect();
			}
			i -= k.pow(l);
		}
		unreachable!()
	};
	let (a, b) = (count(n), count(m));
	ctx.each("lists", a * b, |i| {
		let outs = list(i % a, n);
		let order = list(i / a, m);
		let mut left = outs.clone();
		let mut want = vec![];
		for o in &order {
			if let Some(p) = left.iter().position(|x| x == o) {
				want.push(left.remove(p));
			}
		}
		let named = want.len();
		mc::note(|| format!("outputs {outs:?} order {order:?}"));
		let got: Vec<usize> = reorder_outputs(
			outs.iter().map(|o| TxOut {
				script_pubkey: kinds[*o].0.clone(),
				value: kinds[*o].1,
			}),
			order.iter().map(|o| kinds[*o].clone()),
		)
		.iter()
		.map(|t| kinds.iter().position(|x| *x == (t.script_pubkey.clone(), t.value)).unwrap())
		.collect();
		ensure_eq!(got.len(), outs.len(), "number of outputs after reordering {outs:?} by {order:?} ({got:?})");
		ensure_eq!(got[..named], want[..], "named outputs of {outs:?} by {order:?}");
		let mut rest = got[named..].to_vec();
		rest.sort();
		left.sort();
		ensure_eq!(rest, left, "other outputs of {outs:?} by {order:?}");
		Ok(if outs.is_empty() || order.is_empty() {
			"~nothing to order"
		} else if left.is_empty() {
			"all named"
		} else {
			"some unnamed"
		})
	});
}
