//! C14: each Bitcoin transaction mints or burns once, and only when proven mined.
use mc::Ctx;

use crate::world::*;

/// Every single-fault variant of a valid proof.
pub fn faults(b: &Block, other: &Block, i: usize) -> Vec<Proof> {
	let p = b.proof(i);
	let mut v = vec![];
	let mut add = |f: &dyn Fn(&mut Proof)| {
		let mut q = p.clone();
		f(&mut q);
		v.push(q);
	};
	add(&|q| q.height += 1);
	add(&|q| q.height = other.height);
	add(&|q| q.height = 0);
	add(&|q| q.header = other.header.clone());
	add(&|q| {
		q.header = other.header.clone();
		q.height = other.height
	});
	for n in [0, 4, 36, 67, 79] {
		add(&|q| q.header[n] ^= 1);
	}
	for n in [0, 36, 67, 68, 79] {
		add(&|q| q.header.truncate(n));
	}
	add(&|q| q.header.push(0));
	for k in 0..p.path.len() {
		add(&|q| q.path[k][0] ^= 1);
		add(&|q| q.path[k][31] ^= 0x80);
		add(&|q| {
			q.path.remove(k);
		});
		add(&|q| {
			let x = q.path[k].clone();
			q.path.insert(k, x)
		});
		add(&|q| q.index ^= 1 << k);
		add(&|q| q.path[k].reverse());
	}
	add(&|q| q.path.reverse());
	add(&|q| q.path.clear());
	add(&|q| q.path.push(vec![0; 32]));
	add(&|q| q.path.resize(14, vec![0; 32]));
	add(&|q| q.path.resize(15, vec![0; 32]));
	for j in 0..b.txids.len() {
		if j != i {
			add(&|q| q.txid = b.txids[j].to_vec());
			add(&|q| q.path = b.path(j));
		}
	}
	add(&|q| q.txid = other.txids[0].to_vec());
	add(&|q| q.txid.reverse());
	add(&|q| q.txid.truncate(31));
	add(&|q| q.txid.clear());
	add(&|q| q.txid.push(0));
	// the root itself offered as a transaction, with no proof
	add(&|q| {
		q.txid = b.header[36..68].iter().rev().copied().collect();
		q.path.clear()
	});
	v
}

pub fn run(ctx: &Ctx) {
	ctx.rule("breadth-first over histories in which the owner mints and burns with the valid proof of each transaction of two blocks (amounts that succeed, that overdraw, that are zero, that exceed the supply cap); in every reached state every valid proof and every single-fault variant of a proof (height, header, path element, order, length, index, txid) is tried for both mint and burn and compared with the reference model.");
	conformance(ctx);
	let k = if ctx.thorough() { 5 } else { 4 };
	let b1 = Block::new(7, (0..k).map(txid).collect(), 3);
	let b2 = Block::new(9, (10..12).map(txid).collect(), 5);
	let w = deploy(ctx, PROD, &[b1.clone(), b2.clone()]);
	let txids: Vec<[u8; 32]> = b1.txids.iter().chain(&b2.txids).copied().collect();
	let (owner, alice) = (w.who[0].clone(), w.who[1].clone());
	let mut ops = vec![];
	let mut add = |o: Op| ops.push((owner.clone(), Via::Direct, o));
	for (b, n) in [(&b1, b1.txids.len()), (&b2, b2.txids.len())] {
		for i in 0..n {
			add(Op::Mint(3, alice.clone(), b.proof(i)));
			add(Op::Burn(2, alice.clone(), b.proof(i)));
			add(Op::Burn(50, alice.clone(), b.proof(i)));
			add(Op::Mint(0, alice.clone(), b.proof(i)));
			add(Op::Burn(0, alice.clone(), b.proof(i)));
			add(Op::Mint(CAP, alice.clone(), b.proof(i)));
			add(Op::Mint(CAP + 1, alice.clone(), b.proof(i)));
			add(Op::Mint(u128::MAX, alice.clone(), b.proof(i)));
			add(Op::Burn(u128::MAX, alice.clone(), b.proof(i)));
		}
	}
	for i in 0..b1.txids.len() {
		for p in faults(&b1, &b2, i) {
			add(Op::Mint(3, alice.clone(), p.clone()));
			add(Op::Burn(1, alice.clone(), p));
		}
	}
	for p in faults(&b2, &b1, 1) {
		add(Op::Mint(3, alice.clone(), p.clone()));
		add(Op::Burn(1, alice.clone(), p));
	}
	search(ctx, "proofs", &w, &txids, &ops, if ctx.thorough() { 5 } else { 3 }, 20_000);
}
