//! C15: balances and supply change only as minted, burned and transferred.
use mc::Ctx;

use crate::world::*;

pub fn run(ctx: &Ctx) {
	ctx.rule("breadth-first over histories of mints to and burns from each holder (owner), and transfers of amounts around the balance between every ordered pair of four principals (one of them a contract), requested by every principal directly, through a contract, and by the contract itself, with and without memo; after every call all balances, the supply and the recorded amounts are compared with the reference model.");
	conformance(ctx);
	let b = Block::new(7, (0..6).map(txid).collect(), 3);
	let txids = b.txids.clone();
	let w = deploy(ctx, PROD, &[b.clone()]);
	let all = w.all();
	let mut ops = vec![];
	for (i, to) in [(0usize, 1usize), (1, 2), (2, 3)] {
		ops.push((w.who[0].clone(), Via::Direct, Op::Mint(2, all[to].clone(), b.proof(i))));
	}
	ops.push((w.who[0].clone(), Via::Direct, Op::Mint(CAP - 4, all[1].clone(), b.proof(3))));
	ops.push((w.who[0].clone(), Via::Direct, Op::Mint(CAP, all[2].clone(), b.proof(3))));
	for (i, from, a) in [(4usize, 1usize, 1u128), (4, 2, 2), (4, 3, 3), (5, 1, 2), (5, 0, 1), (5, 3, 1)] {
		ops.push((w.who[0].clone(), Via::Direct, Op::Burn(a, all[from].clone(), b.proof(i))));
	}
	let memos = [None, Some(vec![1u8; 34]), Some(vec![])];
	for p in &w.who {
		for v in VIAS {
			for s in &all {
				for r in &all {
					for a in [0u128, 1, 2, 3] {
						ops.push((p.clone(), v, Op::Transfer(a, s.clone(), r.clone(), None)));
					}
				}
			}
			for m in &memos[1..] {
				ops.push((p.clone(), v, Op::Transfer(1, all[1].clone(), all[2].clone(), m.clone())));
			}
			ops.push((p.clone(), v, Op::Transfer(1, all[1].clone(), all[2].clone(), Some(vec![1; 35]))));
			for a in [u128::MAX, 1 << 127, CAP] {
				ops.push((p.clone(), v, Op::Transfer(a, all[1].clone(), all[2].clone(), None)));
			}
		}
	}
	search(ctx, "tokens", &w, &txids, &ops, if ctx.thorough() { 6 } else { 5 }, if ctx.thorough() { 40_000 } else { 40_000 });
}
