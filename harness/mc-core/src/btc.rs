//! Bitcoin-side fixtures: addresses, wallets with chosen coins, transaction audit.
use std::{collections::HashMap, str::FromStr};

use bdk::{
	bitcoin::{
		hashes::Hash,
		secp256k1::{ecdsa::Signature, Message, Secp256k1, SecretKey},
		util::sighash::SighashCache,
		Address, EcdsaSighashType, Network, OutPoint, PackedLockTime, PrivateKey, PubkeyHash, Script, ScriptHash, Transaction, TxIn, TxOut, WScriptHash, WPubkeyHash,
	},
	database::{BatchOperations, MemoryDatabase, SyncTime},
	template::P2Wpkh,
	BlockTime, KeychainKind, LocalUtxo, TransactionDetails, Wallet,
};
use mc::{ensure, ensure_eq, Fail};

pub const NETS: [Network; 4] = [Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest];

pub fn ref_magic(n: Network) -> [u8; 2] {
	match n {
		Network::Bitcoin => *b"X2",
		Network::Testnet => *b"T2",
		_ => *b"id",
	}
}

/// The five standard output scripts, byte by byte.
pub fn scripts(seed: u8) -> Vec<Script> {
	let h20 = mc::sha::hash160(&[seed]);
	let h32 = mc::sha::sha256(&[seed]);
	let cat = |p: &[u8], h: &[u8], s: &[u8]| Script::from([p, h, s].concat());
	// taproot: a valid x-only key
	let k = SecretKey::from_slice(&mc::sha::sha256(&[seed, 1])).unwrap();
	let x = k.public_key(&Secp256k1::new()).x_only_public_key().0.serialize();
	vec![
		cat(&[0x76, 0xa9, 20], &h20, &[0x88, 0xac]),
		cat(&[0xa9, 20], &h20, &[0x87]),
		cat(&[0, 20], &h20, &[]),
		cat(&[0, 32], &h32, &[]),
		cat(&[0x51, 32], &x, &[]),
	]
}

pub fn address(kind: usize, seed: u8, net: Network) -> Address {
	use bdk::bitcoin::util::address::{Payload, WitnessVersion};
	let s = scripts(seed)[kind].clone();
	let b = s.as_bytes();
	let payload = match kind {
		0 => Payload::PubkeyHash(PubkeyHash::from_slice(&b[3..23]).unwrap()),
		1 => Payload::ScriptHash(ScriptHash::from_slice(&b[2..22]).unwrap()),
		2 => Payload::WitnessProgram {
			version: WitnessVersion::V0,
			program: WPubkeyHash::from_slice(&b[2..]).unwrap().to_vec(),
		},
		3 => Payload::WitnessProgram {
			version: WitnessVersion::V0,
			program: WScriptHash::from_slice(&b[2..]).unwrap().to_vec(),
		},
		_ => Payload::WitnessProgram {
			version: WitnessVersion::V1,
			program: b[2..].to_vec(),
		},
	};
	let a = Address { payload, network: net };
	assert_eq!(a.script_pubkey(), s);
	// round trip through text, as users supply it
	let mut t = Address::from_str(&a.to_string()).unwrap();
	t.network = net;
	t
}

/// Default dust thresholds of Bitcoin Core (3 sat/vB relay dust).
pub fn ref_dust(kind: usize) -> u64 {
	[546, 540, 294, 330, 330][kind]
}

pub fn key(net: Network, seed: u8) -> PrivateKey {
	PrivateKey::new(SecretKey::from_slice(&mc::sha::sha256(&[b'w', seed])).unwrap(), net)
}

pub struct Coins {
	pub utxos: HashMap<OutPoint, TxOut>,
	pub script: Script,
	pub secret: SecretKey,
}

/// A wallet holding exactly the given coins.
pub fn wallet(net: Network, seed: u8, coins: &[u64]) -> (Wallet<MemoryDatabase>, Coins) {
	let secp = Secp256k1::new();
	let k = key(net, seed);
	let spk = Address::p2wpkh(&k.public_key(&secp), net).unwrap().script_pubkey();
	let mut db = MemoryDatabase::default();
	let mut utxos = HashMap::new();
	db.set_sync_time(SyncTime {
		block_time: BlockTime {
			height: 200,
			timestamp: 0,
		},
	})
	.unwrap();
	for (i, value) in coins.iter().enumerate() {
		let tx = Transaction {
			version: 1,
			lock_time: PackedLockTime(i as u32),
			input: vec![TxIn {
				previous_output: OutPoint {
					txid: bdk::bitcoin::Txid::from_inner([7; 32]),
					vout: i as u32,
				},
				..Default::default()
			}],
			output: vec![TxOut {
				value: *value,
				script_pubkey: spk.clone(),
			}],
		};
		let op = OutPoint {
			txid: tx.txid(),
			vout: 0,
		};
		utxos.insert(op, tx.output[0].clone());
		db.set_tx(&TransactionDetails {
			transaction: Some(tx.clone()),
			txid: op.txid,
			received: *value,
			sent: 0,
			fee: Some(0),
			confirmation_time: Some(BlockTime {
				height: 100,
				timestamp: 0,
			}),
		})
		.unwrap();
		db.set_utxo(&LocalUtxo {
			outpoint: op,
			txout: tx.output[0].clone(),
			keychain: KeychainKind::External,
			is_spent: false,
		})
		.unwrap();
	}
	let w = Wallet::new(P2Wpkh(k), Some(P2Wpkh(k)), net, db).unwrap();
	(
		w,
		Coins {
			utxos,
			script: spk,
			secret: k.inner,
		},
	)
}

/// The transaction spends only our coins, each once, with valid signatures,
/// creates no money, and its outputs are `want` followed by at most one change
/// output back to us.
pub fn audit(tx: &Transaction, coins: &Coins, want: &[(Script, u64)]) -> Result<(), Fail> {
	let secp = Secp256k1::new();
	ensure!(tx.output.len() >= want.len(), "{} outputs, expected at least {}", tx.output.len(), want.len());
	for (i, (s, v)) in want.iter().enumerate() {
		ensure!(tx.output[i].script_pubkey == *s, "output {i} pays {}, expected {}", tx.output[i].script_pubkey, s);
		ensure_eq!(tx.output[i].value, *v, "value of output {i}");
	}
	ensure!(tx.output.len() <= want.len() + 1, "{} extra outputs", tx.output.len() - want.len());
	for o in &tx.output[want.len()..] {
		ensure!(o.script_pubkey == coins.script, "change goes to {}", o.script_pubkey);
	}
	let mut seen = std::collections::HashSet::new();
	let mut total_in = 0;
	let mut cache = SighashCache::new(tx);
	for (i, inp) in tx.input.iter().enumerate() {
		ensure!(seen.insert(inp.previous_output), "input spent twice");
		let Some(coin) = coins.utxos.get(&inp.previous_output) else {
			return Err("spends a coin that is not ours".into());
		};
		total_in += coin.value;
		let w = inp.witness.to_vec();
		ensure_eq!(w.len(), 2usize, "witness items");
		let sig = Signature::from_der(&w[0][..w[0].len() - 1]).map_err(|e| Fail::from(format!("signature: {e}")))?;
		let pk = bdk::bitcoin::PublicKey::from_slice(&w[1]).map_err(|e| Fail::from(e.to_string()))?;
		ensure_eq!(pk.inner, coins.secret.public_key(&secp), "witness key");
		let code = Script::new_p2pkh(&pk.pubkey_hash());
		let ty = EcdsaSighashType::from_consensus(*w[0].last().unwrap() as u32);
		ensure_eq!(ty, EcdsaSighashType::All, "sighash type");
		let h = cache.segwit_signature_hash(i, &code, coin.value, ty).map_err(|e| Fail::from(e.to_string()))?;
		ensure!(secp.verify_ecdsa(&Message::from_slice(&h).unwrap(), &sig, &pk.inner).is_ok(), "input {i} is not validly signed");
	}
	let total_out: u64 = tx.output.iter().map(|o| o.value).sum();
	ensure!(total_in >= total_out, "spends {total_in}, pays {total_out}");
	let vsize = tx.vsize() as u64;
	ensure!(total_in - total_out >= vsize && total_in - total_out <= 20 * vsize + 1000, "fee {} for {vsize} vB", total_in - total_out);
	Ok(())
}

pub fn op_return(data: &[u8]) -> Script {
	assert!(data.len() <= 255);
	let mut s = vec![0x6a];
	if data.len() > 75 {
		s.push(0x4c);
	}
	s.push(data.len() as u8);
	s.extend_from_slice(data);
	Script::from(s)
}

/// What a parser of "OP_RETURN <push>" must see: the first pushed bytes, for
/// every push encoding. None when the script is not of that form.
pub fn ref_op_return_data(script: &[u8]) -> Option<Vec<u8>> {
	if script.first() != Some(&0x6a) {
		return None;
	}
	let r = &script[1..];
	let (n, skip): (usize, usize) = match *r.first()? {
		l @ 0..=75 => (l as usize, 1),
		0x4c => (*r.get(1)? as usize, 2),
		0x4d => (u16::from_le_bytes(r.get(1..3)?.try_into().unwrap()) as usize, 3),
		0x4e => (u32::from_le_bytes(r.get(1..5)?.try_into().unwrap()) as usize, 5),
		_ => return None,
	};
	r.get(skip..skip.checked_add(n)?).map(|d| d.to_vec())
}

/// Scripts made of OP_RETURN and a push, in every encoding, well-formed and not.
pub fn script_forms(data: &[u8]) -> Vec<(String, Vec<u8>)> {
	let n = data.len();
	let mut v: Vec<(String, Vec<u8>)> = vec![];
	let mut add = |name: &str, parts: &[&[u8]]| v.push((name.into(), parts.concat()));
	if n <= 75 {
		add("direct push", &[&[0x6a, n as u8], data]);
		add("direct push one short", &[&[0x6a, n as u8 + 1], data]);
		add("no OP_RETURN", &[&[n as u8], data]);
		add("OP_RETURN after push", &[&[n as u8], data, &[0x6a]]);
		add("OP_DUP first", &[&[0x76, n as u8], data]);
		add("leading zero push", &[&[0x6a, 0, n as u8], data]);
		add("OP_RETURN twice", &[&[0x6a, 0x6a, n as u8], data]);
		add("extra push after", &[&[0x6a, n as u8], data, &[2, 1, 1]]);
		add("extra op after", &[&[0x6a, n as u8], data, &[0x51]]);
		add("broken push after", &[&[0x6a, n as u8], data, &[5, 1]]);
	}
	add("PUSHDATA1", &[&[0x6a, 0x4c, n as u8], data]);
	add("PUSHDATA2", &[&[0x6a, 0x4d, n as u8, 0], data]);
	add("PUSHDATA4", &[&[0x6a, 0x4e, n as u8, 0, 0, 0], data]);
	add("PUSHDATA4 huge", &[&[0x6a, 0x4e, n as u8, 0, 0, 0x80], data]);
	add("PUSHDATA2 cut", &[&[0x6a, 0x4d, n as u8]]);
	add("PUSHDATA1 cut", &[&[0x6a, 0x4c]]);
	add("PUSHDATA4 cut", &[&[0x6a, 0x4e, 0, 0]]);
	add("bare OP_RETURN", &[&[0x6a]]);
	add("OP_RETURN OP_1", &[&[0x6a, 0x51]]);
	add("OP_RETURN OP_1NEGATE", &[&[0x6a, 0x4f]]);
	add("OP_RETURN OP_16", &[&[0x6a, 0x60]]);
	add("OP_RETURN undefined", &[&[0x6a, 0xff]]);
	add("empty script", &[&[]]);
	add("OP_RESERVED", &[&[0x50, n as u8], data]);
	v
}

pub fn tx_with(outputs: Vec<TxOut>) -> Transaction {
	Transaction {
		version: 2,
		lock_time: PackedLockTime(0),
		input: vec![TxIn::default()],
		output: outputs,
	}
}

/// Transactions that differ in everything but their outputs.
pub fn envelopes() -> Vec<Transaction> {
	use bdk::bitcoin::{Sequence, Witness};
	let mut v = vec![];
	for version in [2, 1, 0, -1, i32::MAX, i32::MIN] {
		for lock in [0u32, 1, 499_999_999, 500_000_000, u32::MAX] {
			for inputs in [0usize, 1, 2, 17, 300] {
				for kind in 0..4u32 {
					let input = (0..inputs)
						.map(|k| TxIn {
							previous_output: match kind {
								0 => OutPoint::null(),
								_ => OutPoint {
									txid: bdk::bitcoin::Txid::from_inner([k as u8; 32]),
									vout: kind * k as u32,
								},
							},
							script_sig: if kind == 2 { Script::from(vec![0x6a, 3, b'T', b'2', b'<']) } else { Script::new() },
							sequence: Sequence([u32::MAX, 0, 0xffff_fffd, 1 << 31][kind as usize]),
							witness: if kind >= 2 { Witness::from_vec(vec![vec![1; 72], vec![2; 33]]) } else { Witness::new() },
						})
						.collect();
					v.push(Transaction {
						version,
						lock_time: PackedLockTime(lock),
						input,
						output: vec![],
					});
				}
			}
		}
	}
	v
}
