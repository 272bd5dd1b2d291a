//! C19: withdrawal requests are built as asked and parse back.
use bdk::bitcoin::Address;
use mc::{ensure, ensure_eq, fail, CaseResult, Ctx, Fail, Idx};
use sbtc_core::{
	operations::op_return::withdrawal_request::{build_withdrawal_tx, create_outputs, try_parse_withdrawal_request},
	SBTCError,
};

use crate::{btc::*, fix::*, wr::*};

pub fn run(ctx: &Ctx) {
	ctx.rule("networks x payee kinds (five script types and the wallet's own address) x sBTC wallet kinds (same, including payee = wallet = own) x withdrawal amounts (0, 1, dust edges, 2^32, u64 max) x fulfillment fees around the dust limit and around the funds x coin sets x signing keys; every built transaction audited (exact output order, values, payload bytes, change, signatures) and parsed back; repeated because the wallet library shuffles outputs.");
	ctx.assume("Coin selection, fee estimation and PSBT signing are bdk's; the audit checks their result, not their choice. The payee address belongs to the network the request is built for.");
	let reps = if ctx.replay.is_some() { 40 } else { 2 };
	let keys = secret_keys();
	let coin_sets: Vec<Vec<u64>> = vec![vec![100_000], vec![], vec![1000, 2000, 50_000], vec![2_099_999_900_000_000], vec![5_000; 120]];
	let amounts = [0u64, 1, 546, 100_000, 1 << 32, 2_100_000_000_000_000, u64::MAX];
	ctx.each("build", 4 * 6 * 6 * 7 * 13 * 5, |i| {
		let mut ix = Idx(i);
		let net = *ix.pick(&NETS);
		let (pk, sk) = (ix.take(6), ix.take(6));
		let amount = *ix.pick(&amounts);
		let f = ix.take(13);
		let cs = ix.pick(&coin_sets);
		let key = keys[(i / 7) as usize % keys.len()];
		if !ctx.thorough() && cs.len() != 1 && amount != 1 {
			return Ok("~thinned");
		}
		let seed = (i % 5) as u8;
		let mut out: CaseResult = Ok("");
		for _ in 0..reps {
			let (w, coins) = wallet(net, seed, cs);
			let own = Address::from_script(&coins.script, net).unwrap();
			let pick = |k: usize, s: u8| if k == 5 { (own.clone(), ref_dust(2)) } else { (address(k, s, net), ref_dust(k)) };
			let (payee, pdust) = pick(pk, 11);
			let (sbtc, sdust) = pick(sk, if f % 2 == 0 { 11 } else { 12 });
			let fee = [0, sdust - 1, sdust, sdust + 1, 1000, pdust, 49_000, 99_000, 200_000, u64::MAX / 2, (1 << 32) + 7, (1 << 48) + 9, 490_000][f];
			out = (|| -> CaseResult {
				mc::note(|| format!("{net} payee {payee} sbtc {sbtc} amount {amount} fee {fee} coins {cs:?}"));
				let res = build_withdrawal_tx(&w, net, key, payee.clone(), sbtc.clone(), amount, fee);
				if fee < sdust {
					ensure!(
						matches!(create_outputs(&key, &payee, &sbtc, amount, fee, net), Err(SBTCError::AmountInsufficient(..))),
						"outputs with fee {fee} below dust {sdust}"
					);
					return match res {
						Err(SBTCError::AmountInsufficient(a, d)) if a == fee && d == sdust => Ok("dust refused"),
						o => fail!("fee {fee} below dust {sdust}: {o:?}"),
					};
				}
				let script = payee.script_pubkey();
				let payload = request_payload(net, amount, &ref_sign(&key, amount, script.as_bytes(), net));
				let want = [(op_return(&payload), 0), (script.clone(), pdust), (sbtc.script_pubkey(), fee)];
				let outs = create_outputs(&key, &payee, &sbtc, amount, fee, net).map_err(|e| Fail::from(e.to_string()))?;
				ensure_eq!(outs, want, "requested outputs");
				let total: u64 = cs.iter().sum();
				let tx = match res {
					Err(SBTCError::BDKError(..)) if total < fee.saturating_add(4000) => return Ok("not enough coins"),
					Err(e) => fail!("withdrawal request fee {fee} from {cs:?}: {e}"),
					Ok(t) => t,
				};
				audit(&tx, &coins, &want)?;
				let p = try_parse_withdrawal_request(net, tx).map_err(|e| Fail::from(format!("own request refused: {e}")))?;
				ensure_eq!(p.amount, amount, "parsed amount");
				ensure_eq!(p.payee_bitcoin_address.script_pubkey(), script, "parsed payee");
				ensure_eq!(p.payee_bitcoin_address.to_string(), payee.to_string(), "parsed payee text");
				ensure_eq!(p.sbtc_wallet.script_pubkey(), sbtc.script_pubkey(), "parsed sBTC wallet");
				ensure_eq!(p.fulfillment_amount, fee, "parsed fulfillment fee");
				ensure_eq!(mc::hex(sig_bytes(&p.signature)), mc::hex(&payload[11..]), "parsed signature");
				let public = key.public_key(&bdk::bitcoin::secp256k1::Secp256k1::new());
				ensure_eq!(p.drawee_stacks_address.to_string(), drawee(&public, net), "parsed drawee");
				Ok("built and parsed")
			})();
			match out {
				Ok("built and parsed") => {}
				_ => break,
			}
		}
		out
	});
}
