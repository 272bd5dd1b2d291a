//! The real `bdk`, with the Bitcoin RPC client and the Electrum client replaced by
//! ones that talk to the simulated nodes.
pub use bdk_real::*;

pub mod bitcoincore_rpc {
	pub use core_rpc::{bitcoin, bitcoincore_rpc_json, json, jsonrpc, Auth, Error, RawTx, RpcApi};

	pub type Result<T> = std::result::Result<T, Error>;

	pub struct Client {
		url: String,
		user: String,
		pass: String,
	}
	impl Client {
		pub fn new(url: &str, auth: Auth) -> Result<Self> {
			let (u, p) = auth.get_user_pass()?;
			Ok(Self {
				url: url.into(),
				user: u.unwrap_or_default(),
				pass: p.unwrap_or_default(),
			})
		}
	}
	impl RpcApi for Client {
		fn call<T: for<'a> serde::de::Deserialize<'a>>(&self, cmd: &str, args: &[serde_json::Value]) -> Result<T> {
			let c = sim::RpcCall {
				url: self.url.clone(),
				user: self.user.clone(),
				pass: self.pass.clone(),
				cmd: cmd.into(),
				args: args.to_vec(),
			};
			match sim::node(|n| n.rpc(&c)) {
				Ok(v) => Ok(serde_json::from_value(v)?),
				Err(sim::RpcFault::Transport) => Err(Error::JsonRpc(jsonrpc::error::Error::Transport("Connection refused".into()))),
				Err(sim::RpcFault::Rpc(code, message)) => Err(Error::JsonRpc(jsonrpc::error::Error::Rpc(jsonrpc::error::RpcError {
					code,
					message,
					data: None,
				}))),
			}
		}
	}
}

pub mod blockchain {
	use std::{
		cell::RefCell,
		collections::{HashMap, HashSet},
	};

	use bdk_real::{
		bitcoin::{BlockHash, OutPoint, Transaction, Txid},
		database::{BatchDatabase, BatchOperations, SyncTime},
		BlockTime, Error, FeeRate, LocalUtxo, TransactionDetails,
	};

	pub use bdk_real::blockchain::{log_progress, noop_progress, Blockchain, Capability, ConfigurableBlockchain, GetBlockHash, GetHeight, GetTx, Progress, StatelessBlockchain, WalletSync};

	#[derive(Debug, Clone, PartialEq, Eq)]
	pub struct ElectrumBlockchainConfig {
		pub url: String,
		pub socks5: Option<String>,
		pub retry: u8,
		pub timeout: Option<u8>,
		pub stop_gap: usize,
		pub validate_domain: bool,
	}
	pub struct ElectrumBlockchain {
		url: String,
	}
	impl ConfigurableBlockchain for ElectrumBlockchain {
		type Config = ElectrumBlockchainConfig;
		fn from_config(c: &Self::Config) -> Result<Self, Error> {
			Ok(Self {
				url: c.url.clone(),
			})
		}
	}
	impl ElectrumBlockchain {
		fn fetch(&self) -> Result<(u32, Vec<sim::Placed>), Error> {
			sim::node(|n| n.electrum(&self.url)).map_err(Error::Generic)
		}
	}
	impl StatelessBlockchain for ElectrumBlockchain {}
	impl Blockchain for ElectrumBlockchain {
		fn get_capabilities(&self) -> HashSet<Capability> {
			[Capability::FullHistory, Capability::GetAnyTx, Capability::AccurateFees].into_iter().collect()
		}
		fn broadcast(&self, _: &Transaction) -> Result<(), Error> {
			Err(Error::Generic("broadcast over Electrum is not simulated".into()))
		}
		fn estimate_fee(&self, _: usize) -> Result<FeeRate, Error> {
			Ok(FeeRate::from_sat_per_vb(1.0))
		}
	}
	impl GetHeight for ElectrumBlockchain {
		fn get_height(&self) -> Result<u32, Error> {
			Ok(self.fetch()?.0)
		}
	}
	impl GetTx for ElectrumBlockchain {
		fn get_tx(&self, txid: &Txid) -> Result<Option<Transaction>, Error> {
			Ok(self.fetch()?.1.into_iter().map(|p| p.0).find(|t| t.txid() == *txid))
		}
	}
	impl GetBlockHash for ElectrumBlockchain {
		fn get_block_hash(&self, _: u64) -> Result<BlockHash, Error> {
			Err(Error::Generic("headers over Electrum are not simulated".into()))
		}
	}
	impl WalletSync for ElectrumBlockchain {
		/// Brings the database in line with the transactions the server reports, as
		/// bdk's own script sync does.
		fn wallet_setup<D: BatchDatabase>(&self, database: &RefCell<D>, _: Box<dyn Progress>) -> Result<(), Error> {
			let (_, all) = self.fetch()?;
			let mut db = database.borrow_mut();
			let by_id: HashMap<Txid, &Transaction> = all.iter().map(|(t, _)| (t.txid(), t)).collect();
			let prev = |o: &OutPoint| by_id.get(&o.txid).and_then(|t| t.output.get(o.vout as usize));
			let mut found: Vec<TransactionDetails> = vec![];
			for (t, at) in &all {
				let (mut sent, mut received, mut input) = (0, 0, 0);
				for i in &t.input {
					if let Some(o) = prev(&i.previous_output) {
						input += o.value;
						if db.get_path_from_script_pubkey(&o.script_pubkey)?.is_some() {
							sent += o.value
						}
					}
				}
				for o in &t.output {
					if db.get_path_from_script_pubkey(&o.script_pubkey)?.is_some() {
						received += o.value
					}
				}
				if sent + received > 0 {
					found.push(TransactionDetails {
						txid: t.txid(),
						transaction: Some(t.clone()),
						received,
						sent,
						fee: Some(input.saturating_sub(t.output.iter().map(|o| o.value).sum())),
						confirmation_time: at.map(|(height, timestamp)| BlockTime {
							height,
							timestamp,
						}),
					});
				}
			}
			let ids: HashSet<Txid> = found.iter().map(|t| t.txid).collect();
			let spent: HashSet<OutPoint> = found.iter().flat_map(|t| t.transaction.as_ref().unwrap().input.iter().map(|i| i.previous_output)).collect();
			let gone: Vec<Txid> = db.iter_txs(false)?.into_iter().map(|t| t.txid).filter(|t| !ids.contains(t)).collect();
			let mut batch = db.begin_batch();
			for txid in gone {
				if let Some(t) = db.get_raw_tx(&txid)? {
					for vout in 0..t.output.len() as u32 {
						batch.del_utxo(&OutPoint {
							txid,
							vout,
						})?;
					}
				}
				batch.del_tx(&txid, true)?;
			}
			for d in &found {
				for (i, o) in d.transaction.as_ref().unwrap().output.iter().enumerate() {
					if let Some((keychain, _)) = db.get_path_from_script_pubkey(&o.script_pubkey)? {
						let outpoint = OutPoint {
							txid: d.txid,
							vout: i as u32,
						};
						batch.set_utxo(&LocalUtxo {
							outpoint,
							txout: o.clone(),
							keychain,
							is_spent: spent.contains(&outpoint),
						})?;
					}
				}
				batch.set_tx(d)?;
			}
			batch.set_sync_time(SyncTime {
				block_time: BlockTime {
					height: 0,
					timestamp: 0,
				},
			})?;
			db.commit_batch(batch)
		}
	}
}
