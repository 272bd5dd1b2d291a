//! C11: the inclusion proofs the operator generates are accepted by the real
//! contract, for every block and position.
use bdk::bitcoin::{blockdata::script::Builder, consensus::serialize, hashes::Hash, BlockHash, Script, Transaction, TxMerkleNode, Witness};
use blockstack_lib::codec::StacksMessageCodec;
use clarity::{buff, tuple, Outcome, Value as Cv};
use mc::{ensure, ensure_eq, CaseResult, Ctx, Idx};
use romeo::proof_data::ProofData;

use crate::{fx::*, world};

fn cv(v: &blockstack_lib::vm::types::Value) -> Result<Cv, mc::Fail> {
	let b = v.serialize_to_vec();
	let mut d = &b[..];
	match Cv::deserialize(&mut d) {
		Some(v) if d.is_empty() => Ok(v),
		_ => Err(mc::Fail::from(format!("not a Clarity value: {}", mc::hex(&b)))),
	}
}

#[derive(Clone, Copy, Default)]
struct Head {
	version: i32,
	time: u32,
	bits: u32,
	nonce: u32,
}

fn make(n: usize, height: u32, salt: u32, h: Option<Head>) -> bdk::bitcoin::Block {
	let mut txs: Vec<Transaction> = (1..n as u32)
		.map(|i| {
			let mut t = tx(salt * 100_000 + i, vec![out(&Script::from(vec![0x51]), i as u64)]);
			if i % 3 == 0 {
				t.input[0].witness = Witness::from_vec(vec![vec![7; 64]]);
			}
			t
		})
		.collect();
	let mut c = coinbase(height, vec![]);
	// as miners write it: the height alone, minimally pushed
	c.input[0].script_sig = Builder::new().push_int(height as i64).push_slice(&salt.to_le_bytes()).into_script();
	txs.insert(0, c);
	let mut b = block_of(BlockHash::from_inner(mc::sha::sha256(&salt.to_le_bytes())), txs, salt);
	if let Some(h) = h {
		b.header.version = h.version;
		b.header.time = h.time;
		b.header.bits = h.bits;
		b.header.nonce = h.nonce;
	}
	b
}

fn judge(base: &world::World, b: &bdk::bitcoin::Block, height: u32, i: usize) -> CaseResult {
	let p = mc::no_panic(|| ProofData::from_block_and_index(b, i).to_values()).map_err(|e| mc::Fail::from(format!("panic: {e}")))?;
	let (id, ix, h, head, path) = (cv(&p.txid)?, cv(&p.tx_index)?, cv(&p.block_height)?, cv(&p.block_header)?, cv(&p.merkle_path)?);
	let mut want = b.txdata[i].txid().into_inner();
	want.reverse();
	ensure_eq!(id, buff(want), "transaction id");
	ensure_eq!(ix, Cv::UInt(i as u128), "index");
	ensure_eq!(h, Cv::UInt(height as u128), "height");
	ensure_eq!(head, buff(serialize(&b.header)), "header");
	let mut w = base.clone();
	let mut hash = b.block_hash().into_inner();
	hash.reverse();
	w.chain.burn_headers.insert(height as u128, hash);
	let m = w.mini.clone();
	let r = w.chain.read(&m, "was-txid-mined", &[h.clone(), id.clone(), head.clone(), tuple([("tx-index", ix.clone()), ("hashes", path.clone())])]);
	ensure!(matches!(&r, Outcome::Done(Cv::Ok(v)) if **v == Cv::Bool(true)), "the contract answers {r:?} to the proof");
	// and the asset contract takes it for a mint, and not twice
	let (owner, asset) = (w.who[0].clone(), w.asset.clone());
	let args = [Cv::UInt(5), Cv::Principal(w.who[1].clone()), id, h, path, ix, head];
	for ok in [true, false] {
		let r = w.chain.call(&owner, &asset, "mint", &args);
		if let Some(u) = &w.chain.unsupported {
			eprintln!("the contract interpreter lacks: {u}");
			std::process::exit(3);
		}
		ensure_eq!(r.success(), ok, "mint ({r:?})");
	}
	Ok("accepted")
}

pub fn run(ctx: &Ctx) {
	ctx.rule("every position of every block of 2 to 40 (thorough 200) transactions, the first, last, middle and power-of-two positions of larger ones up to 16384; every height around the boundaries of its encoding; header fields at their extremes. Each proof is generated by the operator's code from the block and judged by the real contracts in the Clarity interpreter.");
	ctx.assume("A block has at least two transactions (a single-transaction block has an empty path, which the contract refuses) and at most 16384 (the contract's argument type).");
	let base = world::deploy(ctx, world::PROD, &[]);
	let mut cases = vec![];
	for n in 2..=if ctx.thorough() { 200 } else { 40 } {
		cases.extend((0..n).map(|i| (n, i)));
	}
	ctx.each("positions", cases.len() as u64, |c| {
		let (n, i) = cases[c as usize];
		mc::note(|| format!("transaction {i} of {n}"));
		judge(&base, &make(n, 2_500_000, n as u32, None), 2_500_000, i)
	});
	let sizes: &[usize] = if ctx.thorough() { &[255, 256, 257, 1000, 2047, 2048, 2049, 4097, 8191, 8192, 8193, 16383, 16384] } else { &[63, 64, 65, 255, 257, 1025, 4099, 8193, 16384] };
	for n in sizes {
		let b = make(*n, 800_000, 1, None);
		let mut at: Vec<usize> = vec![0, 1, 2, 3, n / 2 - 1, n / 2, n / 2 + 1, n - 3, n - 2, n - 1];
		at.extend((2..14).map(|s| 1usize << s).filter(|x| x < n));
		at.sort();
		at.dedup();
		ctx.each(&format!("block of {n}"), at.len() as u64, |i| judge(&base, &b, 800_000, at[i as usize]));
	}
	let heights: Vec<u32> = [7u32, 8, 15, 16, 23, 24, 31].iter().flat_map(|s| [-2i64, -1, 0, 1, 2].map(|d| ((1i64 << s) + d) as u32)).filter(|h| *h > 16 && *h < 500_000_000).chain([17, 100, 500, 800_000]).collect();
	ctx.each("heights", heights.len() as u64 * 3, |i| {
		let mut x = Idx(i);
		let (h, n) = (*x.pick(&heights), 2 + x.take(3));
		judge(&base, &make(n, h, 3, None), h, n - 1)
	});
	let us = [0u32, 1, 0x80, 0xff, 0x100, 0x0102_0304, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff];
	ctx.each("headers", (us.len() * 4) as u64, |i| {
		let mut x = Idx(i);
		let u = *x.pick(&us);
		let mut h = Head {
			version: 2,
			time: 3,
			bits: 4,
			nonce: 5,
		};
		match x.take(4) {
			// BIP 34 wants at least 2
			0 => h.version = (u as i32 & 0x7fff_ffff).max(2),
			1 => h.time = u,
			2 => h.bits = u,
			_ => h.nonce = u,
		}
		judge(&base, &make(5, 900_000, 9, Some(h)), 900_000, 3)
	});
	let _ = TxMerkleNode::all_zeros();
}
