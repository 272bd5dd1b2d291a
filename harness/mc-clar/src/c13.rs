//! C13: only the owner mints, burns or administers; a failed call changes nothing.
use mc::Ctx;

use crate::world::*;

pub fn run(ctx: &Ctx) {
	ctx.rule("breadth-first over histories of every call form (direct, through a proxy contract, through a proxy that takes over as tx-sender) by deployer, alice and bob, of set-contract-owner to each principal, set-bitcoin-wallet-public-key, mint and burn with valid and invalid proofs, and transfer; in every reached state every call is tried and compared with the reference model.");
	conformance(ctx);
	let b = Block::new(7, (0..4).map(txid).collect(), 3);
	let txids = b.txids.clone();
	for variant in [PROD, DEBUG] {
		let mut w = deploy(ctx, variant, &[b.clone()]);
		if variant == DEBUG {
			let (d, m) = (w.who[0].clone(), w.mini.clone());
			w.chain.call(&d, &m, "debug-insert-burn-header-hash", &[clarity::buff(b.hash), clarity::uint(b.height)]);
		}
		let mut ops = vec![];
		let all = w.all();
		let bad = Proof {
			index: 3,
			..b.proof(0)
		};
		for p in &w.who {
			for v in VIAS {
				for o in &all {
					ops.push((p.clone(), v, Op::SetOwner(o.clone())));
				}
				for k in [vec![2u8; 33], vec![3u8; 33], vec![], vec![7; 34]] {
					ops.push((p.clone(), v, Op::SetKey(k)));
				}
				for (i, to) in [(0, 1), (1, 3)] {
					ops.push((p.clone(), v, Op::Mint(5, all[to].clone(), b.proof(i))));
				}
				ops.push((p.clone(), v, Op::Mint(5, all[1].clone(), bad.clone())));
				ops.push((p.clone(), v, Op::Mint(0, all[1].clone(), b.proof(2))));
				for (i, from, a) in [(2, 1, 5), (3, 3, 2), (3, 2, 1)] {
					ops.push((p.clone(), v, Op::Burn(a, all[from].clone(), b.proof(i))));
				}
				ops.push((p.clone(), v, Op::Burn(1, all[1].clone(), bad.clone())));
				for (s, r) in [(1, 2), (3, 1), (0, 1)] {
					ops.push((p.clone(), v, Op::Transfer(2, all[s].clone(), all[r].clone(), None)));
				}
			}
		}
		let name = if variant == PROD { "deploy" } else { "debug" };
		let depth = match (ctx.thorough(), variant == PROD) {
			(true, true) => 6,
			(true, false) => 5,
			(false, true) => 5,
			(false, false) => 4,
		};
		search(ctx, name, &w, &txids, &ops, depth, 150_000);
	}
}
