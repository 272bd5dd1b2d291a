From 807c37be622f9bcb709be99f9e75e87440298f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 01/20] fix: keep leading zero bytes of c32 strings that spell
 zero as O

---
 stacks-core/src/c32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/c32.rs b/stacks-core/src/c32.rs
index 3309db4..2ce1b2b 100644
--- a/stacks-core/src/c32.rs
+++ b/stacks-core/src/c32.rs
@@ -161,7 +161,7 @@ pub fn decode(input: impl AsRef<str>) -> Result<Vec<u8>, C32Error> {
 	}
 
 	for byte in input.iter() {
-		if *byte == b'0' {
+		if matches!(*byte, b'0' | b'O' | b'o') {
 			decoded.push(0);
 		} else {
 			break;
-- 
2.43.0


From cac40dcb2a1526fb966879eea8ea5b64e9d09cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:53 +0000
Subject: [PATCH 02/20] fix: reject an empty string in c32 version_check_decode
 instead of panicking

---
 stacks-core/src/c32.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/c32.rs b/stacks-core/src/c32.rs
index 2ce1b2b..92088ed 100644
--- a/stacks-core/src/c32.rs
+++ b/stacks-core/src/c32.rs
@@ -198,7 +198,7 @@ pub fn version_check_decode(
 ) -> Result<(AddressVersion, Vec<u8>), C32Error> {
 	let input = input.as_ref();
 
-	if !input.is_ascii() {
+	if !input.is_ascii() || input.is_empty() {
 		return Err(C32Error::InvalidC32);
 	}
 
-- 
2.43.0


From a360a1b93fa248fd8773463fd7185b497d560ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 03/20] fix: return an error for an unknown address version
 byte instead of panicking

---
 stacks-core/src/address.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index a002cb9..07a8769 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -112,7 +112,8 @@ impl Codec for StacksAddress {
 		let mut version_buffer = [0; 1];
 		data.read_exact(&mut version_buffer)?;
 
-		let version = AddressVersion::from_repr(version_buffer[0]).unwrap();
+		let version = AddressVersion::try_from(version_buffer[0])
+			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
 
 		let mut hash_buffer = [0; HASH160_LENGTH];
 		data.read_exact(&mut hash_buffer)?;
-- 
2.43.0


From e0cfbd690b8a77cb9c54d9a0f3248f2476e48d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 04/20] fix: survive interrupted and short writes when
 serializing an address

---
 stacks-core/src/address.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/address.rs b/stacks-core/src/address.rs
index 07a8769..f8731d1 100644
--- a/stacks-core/src/address.rs
+++ b/stacks-core/src/address.rs
@@ -104,7 +104,7 @@ impl StacksAddress {
 
 impl Codec for StacksAddress {
 	fn codec_serialize<W: Write>(&self, dest: &mut W) -> io::Result<()> {
-		assert_eq!(dest.write(&[self.version() as u8])?, 1);
+		dest.write_all(&[self.version() as u8])?;
 		dest.write_all(self.hash().as_ref())
 	}
 
-- 
2.43.0


From b52f0681438efabfca3f17678a7539f245060651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 05/20] fix: reject truncated contract names instead of
 decoding a shorter name

---
 stacks-core/src/contract_name.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/stacks-core/src/contract_name.rs b/stacks-core/src/contract_name.rs
index 5326262..088a14c 100644
--- a/stacks-core/src/contract_name.rs
+++ b/stacks-core/src/contract_name.rs
@@ -2,7 +2,7 @@
 use std::{
 	borrow::Borrow,
 	fmt::{Display, Formatter},
-	io::{self, Read},
+	io,
 	ops::Deref,
 };
 
@@ -83,9 +83,8 @@ impl Codec for ContractName {
 		data.read_exact(&mut length_buffer)?;
 		let contract_name_length = length_buffer[0] as usize;
 
-		let mut name_buffer = Vec::with_capacity(contract_name_length);
-		data.take(contract_name_length as u64)
-			.read_to_end(&mut name_buffer)?;
+		let mut name_buffer = vec![0u8; contract_name_length];
+		data.read_exact(&mut name_buffer)?;
 
 		let contract_name_string = String::from_utf8(name_buffer)
 			.map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
-- 
2.43.0


From 4e8b5f5b23d897e6c90102db6ff7307f9f738d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:22 +0000
Subject: [PATCH 06/20] fix: do not read past the source when widening a Uint

---
 stacks-core/src/uint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stacks-core/src/uint.rs b/stacks-core/src/uint.rs
index 6256ad3..607d149 100644
--- a/stacks-core/src/uint.rs
+++ b/stacks-core/src/uint.rs
@@ -224,7 +224,7 @@ impl<const N: usize> Uint<N> {
 
 		let mut dest = [0u64; M];
 
-		dest[..M].copy_from_slice(&self.0[..M]);
+		dest[..N].copy_from_slice(&self.0[..N]);
 
 		Uint(dest)
 	}
-- 
2.43.0


From ac7b7cfe5e33450ab70be16a9d6ab9b7752d8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 07/20] fix: keep every output when reordering outputs that
 contain duplicates

---
 sbtc-core/src/operations/op_return/utils.rs | 36 ++++++++++-----------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/sbtc-core/src/operations/op_return/utils.rs b/sbtc-core/src/operations/op_return/utils.rs
index b6b68d5..fa54a9f 100644
--- a/sbtc-core/src/operations/op_return/utils.rs
+++ b/sbtc-core/src/operations/op_return/utils.rs
@@ -1,7 +1,5 @@
 //! Utilities for sBTC OP_RETURN transactions
 
-use std::collections::{BTreeMap, HashMap};
-
 use bdk::bitcoin::{
 	blockdata::{opcodes::all::OP_RETURN, script::Builder},
 	Script, TxOut,
@@ -16,27 +14,27 @@ pub(crate) fn build_op_return_script(data: &[u8]) -> Script {
 }
 
 /// Reorders outputs according to the provided order
+///
+/// Outputs which are not mentioned in the order are kept after the ordered
+/// ones.
 pub fn reorder_outputs(
 	outputs: impl IntoIterator<Item = TxOut>,
 	order: impl IntoIterator<Item = (Script, u64)>,
 ) -> Vec<TxOut> {
-	let indices: HashMap<(Script, u64), usize> = order
-		.into_iter()
-		.enumerate()
-		.map(|(idx, val)| (val, idx))
-		.collect();
+	let mut remaining: Vec<TxOut> = outputs.into_iter().collect();
+	let mut outputs_ordered = Vec::with_capacity(remaining.len());
+
+	for (script_pubkey, value) in order {
+		let txout = TxOut {
+			value,
+			script_pubkey,
+		};
 
-	let outputs_ordered: BTreeMap<usize, TxOut> = outputs
-		.into_iter()
-		.map(|txout| {
-			(
-				*indices
-					.get(&(txout.script_pubkey.clone(), txout.value))
-					.unwrap_or(&usize::MAX), // Change amount
-				txout,
-			)
-		})
-		.collect();
+		if let Some(idx) = remaining.iter().position(|other| *other == txout) {
+			outputs_ordered.push(remaining.remove(idx));
+		}
+	}
 
-	outputs_ordered.into_values().collect()
+	outputs_ordered.extend(remaining);
+	outputs_ordered
 }
-- 
2.43.0


From bf5e713340b2fb24399c6b47fc400db6025adb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 08/20] fix: reject operations that carry another network's
 magic bytes

---
 sbtc-core/src/operations/op_return/deposit.rs            | 4 ++++
 sbtc-core/src/operations/op_return/withdrawal_request.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/sbtc-core/src/operations/op_return/deposit.rs b/sbtc-core/src/operations/op_return/deposit.rs
index 7c5781f..5aafe55 100644
--- a/sbtc-core/src/operations/op_return/deposit.rs
+++ b/sbtc-core/src/operations/op_return/deposit.rs
@@ -147,6 +147,10 @@ impl Deposit {
 		let deposit_data = DepositOutputData::codec_deserialize(&mut data)
 			.map_err(|_| DepositParseError::NotSbtcOp)?;
 
+		if magic_bytes(deposit_data.network) != magic_bytes(network) {
+			return Err(DepositParseError::NotSbtcOp);
+		}
+
 		let amount_output = output_iter
 			.next()
 			.ok_or(DepositParseError::InvalidOutputs)?;
diff --git a/sbtc-core/src/operations/op_return/withdrawal_request.rs b/sbtc-core/src/operations/op_return/withdrawal_request.rs
index 2abf998..fce733b 100644
--- a/sbtc-core/src/operations/op_return/withdrawal_request.rs
+++ b/sbtc-core/src/operations/op_return/withdrawal_request.rs
@@ -124,6 +124,10 @@ pub fn try_parse_withdrawal_request(
 		WithdrawalRequestDataOutputData::codec_deserialize(&mut data)
 			.map_err(|_| SBTCError::NotSBTCOperation)?;
 
+	if magic_bytes(withdrawal_data.network()) != magic_bytes(network) {
+		return Err(SBTCError::NotSBTCOperation);
+	}
+
 	let recipient_pubkey_output =
 		output_iter.next().ok_or(SBTCError::NotSBTCOperation)?;
 
-- 
2.43.0


From 12169d34662e703ed6965cf5534603e115b2a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:52 +0000
Subject: [PATCH 09/20] fix: serialize commit reveal deposit data instead of
 panicking

---
 sbtc-core/src/operations/commit_reveal/deposit.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sbtc-core/src/operations/commit_reveal/deposit.rs b/sbtc-core/src/operations/commit_reveal/deposit.rs
index 20a7f62..fc38f66 100644
--- a/sbtc-core/src/operations/commit_reveal/deposit.rs
+++ b/sbtc-core/src/operations/commit_reveal/deposit.rs
@@ -23,9 +23,7 @@ impl Codec for DepositData {
 	fn codec_serialize<W: io::Write>(&self, dest: &mut W) -> io::Result<()> {
 		Codec::codec_serialize(&Opcode::Deposit, dest)?;
 		self.principal.codec_serialize(dest)?;
-		self.reveal_fee.codec_serialize(dest)?;
-
-		todo!()
+		self.reveal_fee.codec_serialize(dest)
 	}
 
 	fn codec_deserialize<R: io::Read>(data: &mut R) -> io::Result<Self>
-- 
2.43.0


From d9a85c3c22a353b4d2473f9ec63a1ca07a8a047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 10/20] Add a cfg(verif) hook around the partially signed
 deposit

---
 sbtc-core/src/operations/op_return/deposit.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/sbtc-core/src/operations/op_return/deposit.rs b/sbtc-core/src/operations/op_return/deposit.rs
index 5aafe55..3c6b15e 100644
--- a/sbtc-core/src/operations/op_return/deposit.rs
+++ b/sbtc-core/src/operations/op_return/deposit.rs
@@ -279,6 +279,25 @@ fn create_partially_signed_deposit_transaction(
 	Ok(partial_tx)
 }
 
+/// Verification hook: the partially signed transaction behind [`deposit`],
+/// without the electrum server that it needs.
+#[cfg(verif)]
+pub fn verif_partially_signed_deposit(
+	wallet: &Wallet<MemoryDatabase>,
+	recipient: PrincipalData,
+	sbtc_address: &BitcoinAddress,
+	amount: u64,
+	network: Network,
+) -> SBTCResult<PartiallySignedTransaction> {
+	create_partially_signed_deposit_transaction(
+		wallet,
+		recipient,
+		sbtc_address,
+		amount,
+		network,
+	)
+}
+
 /// Construct a BTC transaction containing the provided sBTC deposit data
 pub fn deposit(
 	depositor_private_key: PrivateKey,
-- 
2.43.0


From c87fc36b288bb9db0f7bdecda88f87c13859d71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:20 +0000
Subject: [PATCH 11/20] fix: check the public key transaction again after a
 restart

A status check in flight when the operator stops leaves has_pending_task set,
and bootstrap did not reset it for the public key transaction: it was never
checked again and the operator stayed in set-up for good.
---
 romeo/src/state.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index c8e0701..478948c 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -76,8 +76,17 @@ impl State {
 			}
 			State::ContractPublicKeySetup {
 				stacks_block_height,
+				public_key_setup,
 				..
 			} => {
+				if let TransactionRequest::Acknowledged {
+					has_pending_task,
+					..
+				} = public_key_setup
+				{
+					*has_pending_task = false;
+				}
+
 				vec![Task::FetchStacksBlock(*stacks_block_height + 1)]
 			}
 			State::Initialized {
-- 
2.43.0


From 187e41c1035c79509b62b57e427e8d2efcbfe6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:47 +0000
Subject: [PATCH 12/20] fix: accept a status update for several failed
 broadcasts outside of strict mode

---
 romeo/src/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 478948c..96c1a1a 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -358,7 +358,9 @@ impl State {
 		};
 
 		if let Some(statuses_updated) = statuses_updated {
-			if statuses_updated != 1 {
+			// Outside of strict mode, requests whose broadcast failed all have
+			// the same dummy transaction ID.
+			if statuses_updated == 0 || config.strict && statuses_updated != 1 {
 				panic!(
 					"Unexpected number of Stacks statuses updated: {}",
 					statuses_updated
-- 
2.43.0


From d349195187464746c5b1e9f2d12cec694536caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:06 +0000
Subject: [PATCH 13/20] fix: do not stop at a status update while another
 request has no transaction yet

---
 romeo/src/state.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/romeo/src/state.rs b/romeo/src/state.rs
index 96c1a1a..3a93f15 100644
--- a/romeo/src/state.rs
+++ b/romeo/src/state.rs
@@ -317,18 +317,15 @@ impl State {
 							.filter_map(|withdrawal| withdrawal.burn.as_mut()),
 					)
 					.map(|req| {
+						// Requests that are not acknowledged have no
+						// transaction yet, so the update is for another one.
 						let TransactionRequest::Acknowledged {
 							txid: current_txid,
 							status: current_status,
 							has_pending_task,
 						} = req
 						else {
-							if config.strict {
-								panic!("Got an {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-							} else {
-								debug!("Ignoring {:?} status update for a Stacks transaction that is not acknowledged: {}", status, txid);
-								return false;
-							}
+							return false;
 						};
 
 						if txid != *current_txid {
@@ -393,18 +390,15 @@ impl State {
 	        .iter_mut()
 	        .filter_map(|withdrawal| withdrawal.fulfillment.as_mut())
 			.map(|req| {
+				// Requests that are not acknowledged have no transaction
+				// yet, so the update is for another one.
 				let TransactionRequest::Acknowledged {
 					txid: current_txid,
 					status: current_status,
 					has_pending_task,
 				} = req
 				else {
-					if config.strict {
-						panic!("Got an {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-					} else {
-						debug!("Ignoring {:?} status update for a Bitcoin transaction that is not acknowledged: txid {} req {:?}", status, txid, req);
-						return false;
-					};
+					return false;
 				};
 
 				if txid != *current_txid {
-- 
2.43.0


From a1b1f94d0c7206143be72f9e001a813f99ec9c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 14/20] fix: start from a log whose last line is incomplete

---
 romeo/src/system.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/romeo/src/system.rs b/romeo/src/system.rs
index 30d27b2..8c9f290 100644
--- a/romeo/src/system.rs
+++ b/romeo/src/system.rs
@@ -107,14 +107,25 @@ impl Storage {
 			.await
 			.unwrap();
 
-		let mut r = BufReader::new(&mut file).lines();
+		let mut r = BufReader::new(&mut file);
+		let mut line = vec![];
+		let mut complete_len = 0;
 
-		while let Some(line) = r.next_line().await.unwrap() {
-			let event: Event = serde_json::from_str(&line).unwrap();
+		// A crash while recording an event leaves an incomplete last line. The
+		// event has not been acted upon, and the next one must not be glued to it.
+		while r.read_until(b'\n', &mut line).await.unwrap() > 0
+			&& line.ends_with(b"\n")
+		{
+			let event: Event = serde_json::from_slice(&line).unwrap();
 
 			state.update(event, config);
+
+			complete_len += line.len() as u64;
+			line.clear();
 		}
 
+		file.set_len(complete_len).await.unwrap();
+
 		(Self(BufWriter::new(file)), state)
 	}
 
-- 
2.43.0


From 98bd535f7fc41260d8dcc63cedfee4b97739235e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 15/20] fix: get the status of a Bitcoin transaction with a
 single request

---
 romeo/src/bitcoin_client.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index f5bc13b..ff2ec5d 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -109,26 +109,19 @@ impl Client {
 		&self,
 		txid: Txid,
 	) -> anyhow::Result<TransactionStatus> {
-		let is_confirmed = self
+		let tx_info = self
 			.execute(move |client| client.get_raw_transaction_info(&txid, None))
-			.await?
-			.ok()
-			.and_then(|tx| tx.confirmations)
-			.map(|confirmations| confirmations > 0)
-			.unwrap_or_default();
-
-		let in_mempool = self
-			.execute(move |client| client.get_mempool_entry(&txid))
-			.await?
-			.is_ok();
-
-		let res = match (is_confirmed, in_mempool) {
-			(true, false) => TransactionStatus::Confirmed,
-			(false, true) => TransactionStatus::Broadcasted,
-			(false, false) => TransactionStatus::Rejected,
-			(true, true) => {
-				panic!("Transaction cannot be both confirmed and pending")
+			.await?;
+
+		let res = match tx_info {
+			Ok(tx) if tx.confirmations.unwrap_or_default() > 0 => {
+				TransactionStatus::Confirmed
 			}
+			Ok(_) => TransactionStatus::Broadcasted,
+			Err(bitcoincore_rpc::Error::JsonRpc(
+				bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+			)) if err.code == -5 => TransactionStatus::Rejected,
+			Err(err) => Err(err)?,
 		};
 
 		tracing::debug!("BTC TX {} IS {:?}", txid, res);
-- 
2.43.0


From 55705fa17bf4132fdfaaa2a89ece9669c9694a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 16/20] fix: know all final statuses of a Stacks transaction

---
 romeo/src/stacks_client.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index a0820be..03efd13 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -208,7 +208,12 @@ impl StacksClient {
 		Ok(match tx_status_str.as_str() {
 			"pending" => TransactionStatus::Broadcasted,
 			"success" => TransactionStatus::Confirmed,
-			"abort_by_response" => TransactionStatus::Rejected,
+			"abort_by_response" | "abort_by_post_condition" => {
+				TransactionStatus::Rejected
+			}
+			status if status.starts_with("dropped_") => {
+				TransactionStatus::Rejected
+			}
 			status => panic!("Unknown transation status: {}", status),
 		})
 	}
-- 
2.43.0


From 45d525ce19457551981c55379d2f193212d26a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 17/20] fix: retry Bitcoin requests that did not get through

---
 romeo/src/bitcoin_client.rs | 51 +++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index ff2ec5d..d506696 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -71,7 +71,10 @@ impl Client {
 		f: F,
 	) -> anyhow::Result<bitcoincore_rpc::Result<T>>
 	where
-		F: FnOnce(RPCClient) -> bitcoincore_rpc::Result<T> + Send + 'static,
+		F: Fn(RPCClient) -> bitcoincore_rpc::Result<T>
+			+ Clone
+			+ Send
+			+ 'static,
 		T: Send + 'static,
 	{
 		let mut url = self.config.bitcoin_node_url.clone();
@@ -90,10 +93,30 @@ impl Client {
 		url.set_username("").unwrap();
 		url.set_password(None).unwrap();
 
-		let client =
-			RPCClient::new(url.as_ref(), Auth::UserPass(username, password))?;
+		loop {
+			let client = RPCClient::new(
+				url.as_ref(),
+				Auth::UserPass(username.clone(), password.clone()),
+			)?;
+			let f = f.clone();
 
-		Ok(spawn_blocking(move || f(client)).await?)
+			match spawn_blocking(move || f(client)).await? {
+				Err(bitcoincore_rpc::Error::JsonRpc(
+					bitcoincore_rpc::jsonrpc::Error::Transport(_),
+				)) => {
+					trace!("Bitcoin client connection error, retrying...");
+				}
+				// The node is still starting up
+				Err(bitcoincore_rpc::Error::JsonRpc(
+					bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+				)) if err.code == -28 => {
+					trace!("Bitcoin node warming up, retrying...");
+				}
+				res => return Ok(res),
+			}
+
+			sleep(BLOCK_POLLING_INTERVAL).await;
+		}
 	}
 
 	/// Broadcast a transaction
@@ -162,11 +185,6 @@ impl Client {
 						))?;
 					}
 				}
-				Err(bitcoincore_rpc::Error::JsonRpc(
-					bitcoincore_rpc::jsonrpc::Error::Transport(_),
-				)) => {
-					trace!("Bitcoin client connection error, retrying...");
-				}
 				Err(err) => {
 					Err(anyhow!("Error fetching Bitcoin block: {:?}", err))?
 				}
@@ -226,9 +244,20 @@ impl Client {
 			})
 			.await??;
 
-		let txid: Txid = self
+		let txid = tx.txid();
+
+		match self
 			.execute(move |client| client.send_raw_transaction(&tx))
-			.await??;
+			.await?
+		{
+			// Mined since an attempt whose response was lost
+			Err(bitcoincore_rpc::Error::JsonRpc(
+				bitcoincore_rpc::jsonrpc::Error::Rpc(err),
+			)) if err.code == -27 => {}
+			res => {
+				res?;
+			}
+		}
 
 		Ok(txid)
 	}
-- 
2.43.0


From 3a65bb3c6dfec2d327c2dcfbba2498743b9fe261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 18/20] fix: retry the fee request like any other

---
 romeo/src/stacks_client.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index 03efd13..c99ebf5 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -375,11 +375,9 @@ impl StacksClient {
 
 	async fn calculate_fee(&self, tx_len: u64) -> anyhow::Result<u64> {
 		let fee_rate: u64 = self
-			.http_client
-			.get(self.fee_url())
-			.send()
-			.await?
-			.json()
+			.send_request(|| {
+				self.http_client.get(self.fee_url()).build().unwrap()
+			})
 			.await?;
 
 		// TODO: Figure out what's the right multiplier #98
-- 
2.43.0


From 1e77a16a1bedf8e4fb5ea6772e50b05b73efb67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 19/20] fix: pay out withdrawals from Bitcoin blocks without a
 Stacks block

---
 romeo/src/stacks_client.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/romeo/src/stacks_client.rs b/romeo/src/stacks_client.rs
index c99ebf5..1b14378 100644
--- a/romeo/src/stacks_client.rs
+++ b/romeo/src/stacks_client.rs
@@ -355,15 +355,31 @@ impl StacksClient {
 		&mut self,
 		height: u32,
 	) -> anyhow::Result<Uint256> {
-		let res: Value = self
-			.send_request(|| {
-				self.http_client
-					.get(self.block_by_bitcoin_height_url(height))
-					.header("Accept", "application/json")
-					.build()
-					.unwrap()
-			})
-			.await?;
+		let mut height = height;
+
+		let res: Value = loop {
+			let res = self
+				.send_request(|| {
+					self.http_client
+						.get(self.block_by_bitcoin_height_url(height))
+						.header("Accept", "application/json")
+						.build()
+						.unwrap()
+				})
+				.await;
+
+			match res {
+				// No Stacks block came with this Bitcoin block, so the chain tip
+				// is still an earlier one
+				Err(err)
+					if height > 0
+						&& err.to_string().contains("404 Not Found") =>
+				{
+					height -= 1;
+				}
+				res => break res?,
+			}
+		};
 
 		let hash_str = res["hash"]
 			.as_str()
-- 
2.43.0


From 359300a72834b3324325a635984d9bb12539cefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:00 +0000
Subject: [PATCH 20/20] fix: do not spend the same outputs in concurrent
 fulfillments

---
 romeo/src/bitcoin_client.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/romeo/src/bitcoin_client.rs b/romeo/src/bitcoin_client.rs
index d506696..a0af58a 100644
--- a/romeo/src/bitcoin_client.rs
+++ b/romeo/src/bitcoin_client.rs
@@ -31,6 +31,9 @@ pub struct Client {
 	blockchain: Arc<ElectrumBlockchain>,
 	// required for fulfillment txs
 	wallet: Arc<Mutex<Wallet<MemoryDatabase>>>,
+	// held until a fulfillment tx is broadcast, as the wallet does not know
+	// until then which outputs are spent
+	fulfillment: Arc<tokio::sync::Mutex<()>>,
 }
 
 impl Client {
@@ -63,6 +66,7 @@ impl Client {
 			config,
 			blockchain: Arc::new(blockchain),
 			wallet: Arc::new(Mutex::new(wallet)),
+			fulfillment: Default::default(),
 		})
 	}
 
@@ -216,6 +220,8 @@ impl Client {
 	) -> anyhow::Result<Txid> {
 		sleep(Duration::from_secs(3)).await;
 
+		let _guard = self.fulfillment.lock().await;
+
 		let blockchain = self.blockchain.clone();
 		let wallet = self.wallet.clone();
 
-- 
2.43.0

