HOOKS = {"guard": "--cfg verif", "enable": "harness/.cargo/config.toml passes rustflags = [\"--cfg\", \"verif\"] to every harness build",
         "source_commits": ["d9a85c3c22a353b4d2473f9ec63a1ca07a8a047a"]}
NOTES = "Every check is `bin/check <ID>`: it hashes the repository sources it needs, rebuilds its engine from /repo's working tree and runs it. DESIGN.md describes the engines, bounds and findings."
TODO = "The check for this property is still being built."

OPRET = "sbtc-core/src/operations/op_return/"
prop("C17", "Deposit transactions are built as requested and parse back to the request",
     "For every wallet, recipient, sBTC address, amount and network, building a deposit either fails with an error (amounts below the dust limit always do) or gives a fully signed transaction whose first output is the zero-value data output for that network and recipient, whose second output pays exactly the amount to the sBTC address, and whose only other output is change to the wallet. Both ways of building agree on this, and parsing the transaction on that network returns exactly the requested amount, recipient and sBTC address.",
     [I, C], "all wallets, recipients (both principal kinds), addresses, amounts, networks, and every order the wallet library may put outputs in",
     "Existing tests parse one fixed transaction and round-trip random payloads of one network; nothing builds a transaction, and the wallet library shuffles outputs.",
     OPRET + "deposit.rs " + OPRET + "utils.rs sbtc-core/src/operations/mod.rs",
     [("dust check, output list, reorder after finish, sign", OPRET + "deposit.rs"), ("output reordering", OPRET + "utils.rs")],
     note="All combinations of networks, address kinds, recipients, boundary amounts and coin sets within the stated grid; each build is repeated because the wallet library shuffles outputs at random. Trusts bdk's coin selection and libsecp256k1.",
     hook="a cfg(verif) wrapper around the private builder used by the electrum-backed path")
prop("C18", "The deposit parser accepts exactly well-formed deposits and never panics",
     "For any transaction, deposit parsing never panics and succeeds exactly when the first output is an OP_RETURN whose first push starts with the network's magic bytes, the deposit opcode and a valid principal, and the second output pays a standard address; the result then carries exactly that principal, that output's value and that address. Data tagged for a different network is not a deposit.",
     [I], "all transactions: output counts and orders, script and push encodings, payload bytes, networks",
     "One valid transaction is tested; malformed, truncated and foreign transactions arrive from an open blockchain.",
     OPRET + "deposit.rs stacks-core/src/utils.rs stacks-core/src/address.rs stacks-core/src/contract_name.rs",
     [("parse", OPRET + "deposit.rs"), ("data output codec", OPRET + "deposit.rs")],
     note="Exhaustive over every value of each header byte, all truncations, bit flips, push encodings, output shapes; compared with an independent parser written from the documented format.")
prop("C19", "Withdrawal requests are built as requested and parse back to the request",
     "For every wallet, drawee key, payee, sBTC address, amount, fulfillment fee and network, building a withdrawal request either fails with an error (fees below the sBTC output's dust limit always do) or gives a signed transaction with, in order, the data output, the payee's dust output and the fulfillment fee to the sBTC address, plus at most change. Parsing it on that network returns the same amount, payee, fee, sBTC address and signature, and the drawee's single-sig Stacks address for that network.",
     [I, C], "all keys, addresses (including payee equal to the sBTC wallet or the requester's own), amounts, fees, wallets, networks",
     "No existing test builds a withdrawal request.",
     OPRET + "withdrawal_request.rs " + OPRET + "utils.rs",
     [("create_outputs, reorder, sign", OPRET + "withdrawal_request.rs"), ("reordering", OPRET + "utils.rs")],
     note="Grid of networks, address kinds, amounts, fees, coins, keys; every built transaction audited and parsed back. Trusts bdk's coin selection and libsecp256k1.")
prop("C20", "A withdrawal signature authorises exactly one amount and payee",
     "The signed message is the documented prefix-and-text encoding of the amount, the payee address and their hex form, so recovering the key from a freshly created signature gives the signer's public key for every amount and payee. The same signature presented with any other amount or payee address, or with any bit changed, never yields the signer's key.",
     [I], "all amounts, payee scripts, keys; all ordered pairs of distinct requests; all single-bit changes",
     "One message hash is tested; nothing checks recovery or that different requests do not share a message.",
     OPRET + "withdrawal_request.rs stacks-core/src/codec.rs",
     [("message construction, recovery", OPRET + "withdrawal_request.rs"), ("signature encoding", "stacks-core/src/codec.rs")],
     note="Message hash compared with an independent encoder (own base58check, bech32m, SHA-256) on every combination of boundary amounts, scripts and networks; all ordered pairs of a pool of requests; all single-bit flips. Trusts libsecp256k1.")
prop("C21", "The withdrawal request parser accepts exactly well-formed requests, no panics",
     "For any transaction, withdrawal request parsing never panics and succeeds exactly when the outputs are, in order, an OP_RETURN whose first push holds the network's magic bytes, the withdrawal opcode, an amount and a recoverable signature, then a payee address, then an sBTC wallet address. The result then carries exactly those values, with the drawee derived from the key recovered for that amount and payee; data tagged for a different network is not a request.",
     [I], "all transactions: output counts and orders, push encodings, payload bytes, signature scalars, networks",
     "No existing test parses a withdrawal request.",
     OPRET + "withdrawal_request.rs stacks-core/src/codec.rs",
     [("try_parse_withdrawal_request", OPRET + "withdrawal_request.rs"), ("signature codec", "stacks-core/src/codec.rs")],
     note="Exhaustive over each header byte, recovery id, truncation, bit flip, edge scalar pair, push encoding and output sequence up to four; compared with an independent parser.")
prop("C22", "Fulfillments pay exactly the recipient and commit to the chain tip",
     "For every wallet, chain tip, recipient, amount and network, building a withdrawal fulfillment either fails with an error or gives a signed transaction whose first output is the data output with the network's magic bytes, the fulfillment opcode and the 32-byte chain tip in order, and whose second output pays exactly the amount to the recipient, with at most change behind. The data encoding round-trips and rejects every other opcode, magic or length.",
     [I, C], "all chain tips, recipients (including the wallet's own address), amounts, wallets, networks; all data bytes",
     "There is no test of fulfillments.",
     OPRET + "withdrawal_fulfillment.rs " + OPRET + "utils.rs stacks-core/src/uint.rs",
     [("create_outputs, reorder, codec", OPRET + "withdrawal_fulfillment.rs")],
     note="Grid over networks, recipients, amounts, coins, chain tips with every byte position set; every byte value of each header position.")
prop("C23", "Reordering outputs never loses, adds or changes an output",
     "For any list of outputs and any requested order, reordering returns a permutation of the given outputs in which the outputs named by the order come first, matched one for one in the requested sequence, and the others follow. Duplicate outputs, absent entries and several unnamed outputs are all kept.",
     [I], "all output lists and orders, duplicates and absent entries included",
     "No existing test calls it; duplicates and several change outputs are rare in samples.",
     OPRET + "utils.rs", [("reorder_outputs", OPRET + "utils.rs")],
     note="Complete for all lists up to 5 (thorough 6) outputs over 4 (5) kinds and all orders up to 4 (5) entries.")
CR = "sbtc-core/src/operations/commit_reveal/"
prop("C24", "A reveal transaction spends exactly what its commit address committed to",
     "For every request, revealer key and reclaim key, the commit address is the taproot output of the unspendable internal key with exactly two leaves (data, drop, revealer signature; reclaim signature), and the reveal transaction's script and control block prove the data leaf against that address. The reveal outputs are the tagged data output followed by the commit amount minus the fees to the right party (and the fulfillment fee to the sBTC wallet), and the embedded data decodes back to the request.",
     [I], "all principals, amounts, fees, signatures, keys, and data lengths up to the 520-byte script limit",
     "There is no test of commit-reveal operations.",
     CR + "utils.rs " + CR + "deposit.rs " + CR + "withdrawal_request.rs",
     [("taproot tree, reveal witness", CR + "utils.rs"), ("deposit data and reveal", CR + "deposit.rs"), ("withdrawal data and reveal", CR + "withdrawal_request.rs")],
     note="Compared with a hand-computed BIP-341 tree. Commit amounts are assumed to cover the fees, and the address network is testnet by design.")
SC = "stacks-core/src/"
prop("C25", "c32 encoding is a lossless, checksum-protected bijection that never panics",
     "Encoding any bytes in c32 gives the documented alphabet form and decoding returns the same bytes, leading zero bytes included, in either letter case and with the documented look-alike letters. Check-encoding with any version below 32 decodes to the same version and bytes; every string outside the grammar or with a wrong checksum is rejected with an error, and no string makes decoding panic.",
     [I], "all byte strings, versions and text strings",
     "Tests sample valid random strings; aliases, empty and malformed inputs are not reached.",
     SC + "c32.rs", [("encode, decode, check forms", SC + "c32.rs")],
     note="Complete for all byte strings up to 2 bytes (3 in thorough), all strings of up to 4 characters over edge classes, structured longer inputs, and single-character edits; compared with a schoolbook base conversion.")
prop("C26", "Stacks addresses and principals survive every encoding and reject all else",
     "Every address and principal (standard or contract) survives its text form, its consensus bytes and its JSON form unchanged, and these forms are the ones the Stacks specification defines. Any other text or bytes (unknown version or type, wrong length, truncated or bad name, bad checksum, extra dots) is rejected with an error and never panics, and parsing bytes consumes exactly the encoded length.",
     [I], "all versions, hashes, names; all byte strings and text strings",
     "Tests cover one address of each kind and one invalid string.",
     SC + "address.rs " + SC + "utils.rs " + SC + "contract_name.rs",
     [("address text and byte codec", SC + "address.rs"), ("principal codec and parsing", SC + "utils.rs")],
     note="All header byte values, truncations, extensions, name lengths, single-character edits; compared with an independent SIP-005 encoder and parser.")
prop("C27", "Contract names are accepted exactly when the Stacks rules allow them",
     "A contract name is accepted exactly when it is one to forty characters starting with a letter and made of letters, digits, hyphen or underscore, or is the reserved transient name; the byte form is a length byte and the characters, round-trips, and rejects truncated, overlong and non-text data with an error.",
     [I], "all strings and byte strings", "No existing test checks which names are accepted.",
     SC + "contract_name.rs", [("new, codec", SC + "contract_name.rs")],
     note="Complete for all strings of up to 3 bytes plus every character at every position of names up to 42 long; all length bytes.")
prop("C28", "Big-integer arithmetic and conversions agree with exact arithmetic",
     "Addition, subtraction, multiplication, division, remainder, shifts, bit operations, comparison, increment, widening and narrowing of fixed-width unsigned integers agree with exact arithmetic modulo the width (division by zero aside), and byte and hex conversions round-trip in the stated byte order and reject wrong lengths with an error. No in-range operation panics or reads outside its operands.",
     [I], "all operand pairs, shift amounts and byte strings, at several widths",
     "Tests check a handful of hand-picked values at one width.",
     SC + "uint.rs", [("arithmetic and conversions", SC + "uint.rs")],
     note="All pairs from a pool of limb-boundary values at widths 1, 2, 4 and 8 words, compared with a bitwise big-integer reference; division by zero is excluded.")
prop("C29", "WIF private keys round-trip and invalid ones are rejected",
     "Every valid private key on either network converts to the standard compressed wallet import text and back to the same key and network. Every text with a wrong version, length, compression marker or checksum is rejected with an error, and no text makes parsing panic.",
     [I], "all keys, networks, byte strings and texts", "One key is tested.",
     SC + "crypto/wif.rs", [("WIF", SC + "crypto/wif.rs")],
     note="Scalar edge keys on both networks, every byte value at each framing position, all truncations and extensions, single-character edits.")
prop("C30", "Wallets derive the standard keys and addresses from a mnemonic",
     "For every valid mnemonic, network and account index the derived Stacks and Bitcoin private keys, public keys and addresses are exactly those of the documented derivation paths (Stacks account n at m/44'/5757'/0'/0/n, Bitcoin account n at purpose 44, 84 or 86, coin type by network, hardened n), and wallets and credentials survive their stored form. Invalid mnemonics and out-of-range indexes are rejected with an error.",
     [I], "all mnemonics, networks and account indexes", "No wallet test exists.",
     SC + "wallet.rs", [("derivation", SC + "wallet.rs")],
     note="Mnemonics of every length with boundary entropy, all networks, boundary and small account indexes, compared with an independent BIP-32 derivation.")
prop("C31", "Address hashes follow the Stacks rules for every hash mode",
     "For every public key set and signature threshold, the address of each hash mode (single-sig, multi-sig, and their segwit-wrapped forms) is the one the Stacks specification defines, for keys in the order given, under the version given.",
     [I], "all key sets, thresholds, versions, hash modes", "Each mode is tested on one or two key sets.",
     SC + "address.rs", [("p2pkh, p2sh, p2wpkh, p2wsh", SC + "address.rs")],
     note="All key subsets up to 4 keys of a pool in order and all thresholds, compared with hand-assembled redeem scripts and an independent hash.")
prop("C32", "Serialisation survives short and interrupted I/O and never hides a failure",
     "Writing any serialisable value to a device that accepts data in pieces or is interrupted produces exactly the canonical bytes, and a device that fails or is full makes the write report an error with only a prefix written. Reading from a device that delivers data in pieces or is interrupted gives the same value and consumes exactly its bytes, while a device that fails or ends early gives an error and never a value.",
     [F, I], "all sequences of partial, interrupted and failing reads and writes; all truncation points; all serialisable types",
     "Tests serialise to and from in-memory buffers, which never answer short, interrupt or fail.",
     SC + "codec.rs " + SC + "address.rs " + SC + "utils.rs " + SC + "contract_name.rs " + SC + "uint.rs sbtc-core/src/operations/mod.rs",
     [("codec trait and implementations", SC + "codec.rs"), ("address codec", SC + "address.rs"), ("contract name codec", SC + "contract_name.rs")],
     level="fault_enumeration", technique="systematic exploration of every device behaviour (choice-tree search with a deviation bound) driving the real codecs",
     note="All device behaviours with up to 4 (thorough 6) deviations plus byte-at-a-time devices, failures after every byte count, every truncation.")
prop("C33", "Hash wrappers and network values convert without loss or confusion",
     "The hash types compute the standard digests and their byte, hex and checksum forms round-trip exactly and reject wrong lengths and non-hex text with an error. Network values convert to and from text, and between Bitcoin and Stacks, without ever turning mainnet into testnet or the reverse.",
     [I], "all byte strings, hex strings and network values", "A single digest of each kind is tested.",
     SC + "crypto/mod.rs " + SC + "crypto/sha256.rs " + SC + "crypto/hash160.rs " + SC + "lib.rs",
     [("hashing traits", SC + "crypto/mod.rs"), ("network conversions", SC + "lib.rs")],
     note="All input lengths around block boundaries, all lengths and edits of hex forms, against independent SHA-256/RIPEMD-160.")
AC = "romeo/asset-contract/contracts/"
CLAR = "explicit-state breadth-first search: the contract sources run in an interpreter and every transition is compared with a reference model; the repository's own Clarity tests are replayed through the interpreter"
prop("C13", "Only the contract owner mints, burns or administers the sBTC contract",
     "Whatever happened before, setting the owner, setting the wallet key, minting and burning succeed only when the immediate caller is the current owner, who is the deployer until ownership is handed over; after a hand-over the former owner has no power left. Every call that returns an error leaves the whole contract state (owner, key, supply, balances, recorded Bitcoin transactions) unchanged.",
     [H, P], "all histories of calls by owners, strangers and intermediate contracts",
     "The Clarity tests take one caller and one step; hand-overs and calls through contracts have histories.",
     AC + "asset.clar", [("ownership check", AC + "asset.clar"), ("mint and burn", AC + "asset.clar")],
     level="model_checking", technique=CLAR,
     note="Every call form by three accounts, directly and through a contract that does or does not take over as sender, in every state reached within 5 (thorough 6) changes (one fewer on the debug variant). Trusts the small Clarity interpreter, which passes all 32 of the repository's Clarity tests.",
     state=[("contract-owner", "principal allowed to mint, burn and administer", AC + "asset.clar")])
prop("C14", "Each Bitcoin transaction mints or burns once, and only with a valid proof",
     "Minting or burning sBTC succeeds only with a proof that the given Bitcoin transaction is in the block at the given height, and over the contract's whole history each Bitcoin transaction id is used by at most one successful mint or burn, whichever kind came first. A failed attempt does not use the transaction up, and the amount recorded for a transaction is exactly the amount minted, or minus the amount burned.",
     [H, I], "all histories of mints and burns, all proofs and corruptions of proofs",
     "The Clarity tests try two valid and one invalid proof; replays across kinds and failures need histories.",
     AC + "asset.clar " + AC + "clarity-bitcoin-mini-deploy.clar " + AC + "clarity-bitcoin-mini.clar",
     [("amounts-by-btc-tx insert", AC + "asset.clar"), ("proof check", AC + "clarity-bitcoin-mini-deploy.clar")],
     level="model_checking", technique=CLAR,
     note="Valid proof of every transaction of two blocks and all single faults of each proof, for mint and burn, in every state within 3 (thorough 5) changes. Trusts the Clarity interpreter.",
     state=[("amounts-by-btc-tx", "Bitcoin transactions used, with signed amounts", AC + "asset.clar")])
prop("C15", "sBTC tokens are conserved and move only with their holder's authority",
     "At all times the total supply equals everything minted minus everything burned, is the sum of all balances, and never exceeds 21 million BTC. A mint raises exactly the destination's balance, a burn lowers exactly the owner's and never below zero, and a transfer moves exactly the amount and succeeds only when the sender holds it and is the transaction sender or the calling contract.",
     [H, I], "all histories of mints, burns and transfers between accounts and contracts, all amounts",
     "The Clarity tests check one transfer at a time with sufficient funds.",
     AC + "asset.clar", [("transfer", AC + "asset.clar"), ("token definition", AC + "asset.clar")],
     level="model_checking", technique=CLAR,
     note="641 operations (all pairs of four principals, amounts around balances and the cap, three call forms) in every state within 5 (thorough 6) changes. Trusts the Clarity interpreter's token primitives.",
     state=[("balances and supply", "sBTC ledger", AC + "asset.clar")])
prop("C16", "The Merkle proof contract accepts exactly valid Bitcoin inclusion proofs",
     "For a block with at least two transactions, the verification contract accepts every transaction's correct proof, and otherwise accepts only a header that hashes to the chain's own block hash at the stated height together with a path that, folded by the index bits, leads from the transaction id to that header's Merkle root. Everything else gives an error, nothing is accepted with an empty path, and in the deployed variant nobody can plant a block hash.",
     [I], "all blocks, transaction indices, heights, headers and paths",
     "The Clarity tests use one block and one proof.",
     AC + "clarity-bitcoin-mini-deploy.clar " + AC + "clarity-bitcoin-mini.clar",
     [("verify-merkle-proof", AC + "clarity-bitcoin-mini-deploy.clar"), ("verify-block-header", AC + "clarity-bitcoin-mini-deploy.clar")],
     technique="bounded-exhaustive enumeration of blocks, indices and single proof faults run on the contract source in an interpreter, against an independent Merkle fold",
     note="Blocks of 1 to 18 (thorough 40) transactions, every index, every single fault; trees up to 14 levels. Both contract variants. Trusts the Clarity interpreter. An index with extra bits above the tree depth is accepted by the contract and asserted as such.")

RO = "romeo/src/"
RUNS = "explicit-state exploration of the real operator state machine (every task answer, order and crash), plus exhaustive bounded-deviation exploration of the whole operator under a controlled scheduler with simulated nodes"
DPOR = "stateless exploration of the whole real operator under a controlled scheduler: every sequence of scheduling, block arrival, crash and fault choices up to a deviation bound"
TRUST = " Trusts the stand-ins for the async runtime and the network clients, and the Clarity interpreter that runs the real asset contract."
prop("C01", "The operator mints, burns and pays out at most once per request",
     "Over any order of blocks, confirmations and task completions, and any crash and restart, the operator broadcasts at most one mint per deposit and at most one burn and one payout per withdrawal request. It does so only for requests it has seen in a Bitcoin block.",
     [S, X, H], "all interleavings of blocks, broadcasts and status answers, all crash points, all small sets of requests including identical ones",
     "The only tests of the state machine push a handful of events in one order; doubling needs an interleaving or a restart.",
     RO + "state.rs " + RO + "system.rs " + RO + "task.rs", [("update and task creation", RO + "state.rs"), ("task execution", RO + "system.rs")],
     level="model_checking", technique=RUNS,
     note="13 scenarios of up to 3 requests, strict and not: all reachable states within their chain heights. Whole program: 6 histories, every single deviation (order, early or missing block, crash with torn write, fault, delay), pairs for chosen kinds." + TRUST,
     state=[("State", "requests and the phase each transaction is in", RO + "state.rs"), ("log.ndjson", "events noted down", RO + "system.rs")],
     observe=["transactions the nodes receive"])
prop("C02", "Bitcoin is paid out only after that withdrawal's burn is confirmed",
     "The operator broadcasts the Bitcoin payout of a withdrawal only after the burn of that same request has been confirmed successful on the Stacks chain, and never when the burn failed, is pending, was dropped, or belongs to a different request.",
     [S, X, H], "all orders of status answers and blocks, several withdrawals at once, crashes between burn and payout, burns the contract refuses",
     "No existing test reaches a payout.",
     RO + "state.rs " + RO + "system.rs " + RO + "stacks_client.rs", [("fulfillment after burn", RO + "state.rs"), ("status answers", RO + "stacks_client.rs")],
     level="model_checking", technique=RUNS,
     note="As C01, with withdrawals alike and unfunded ones whose burn the real contract refuses; whole-program pairs of deviations on the unfunded history." + TRUST,
     state=[("State", "requests and the phase each transaction is in", RO + "state.rs")], observe=["transactions the nodes receive, and what the chain had confirmed by then"])
prop("C03", "Only genuine operations are acted on, with exactly their on-chain values",
     "For every Bitcoin block, the operator mints for exactly the deposits and burns and pays for exactly the withdrawal requests in it that are addressed to its own sBTC wallet on its own network, with the amount, recipient, payee and transaction the block holds. Anything else (foreign, malformed, wrong wallet or network, forged or altered) causes no transaction and does not disturb its neighbours.",
     [I, H], "all sequences of transactions in a block and over two blocks, all byte values of each field, payees and amounts, networks",
     "The state machine tests feed in hand-made operations; none goes from a block to what is done about it.",
     RO + "state.rs " + OPRET + "deposit.rs " + OPRET + "withdrawal_request.rs", [("parse_deposits, parse_withdrawals", RO + "state.rs"), ("task creation", RO + "state.rs")],
     level="model_checking", technique="explicit-state exploration of the real operator state machine, plus bounded-exhaustive enumeration of blocks driven through the real state machine to the end, against an independent parser",
     note="All reachable states of 13 scenarios; blocks: all sequences of up to 3 (thorough 4) of 20 kinds of transactions on mainnet and testnet, 2 on regtest and signet, all pairs over two blocks and in the coinbase, grids of amounts, names, versions and payees, all changes of each byte, all truncations." + TRUST,
     state=[("State", "requests and their values", RO + "state.rs")], observe=["tasks the state machine asks for"])
prop("C04", "Every block of both chains is used exactly once and in order",
     "The operator consumes each Bitcoin and each Stacks block after its starting point exactly once, in height order, with none skipped and none repeated, whatever the order in which fetches complete, however the two chains interleave, and across restarts.",
     [S, X, H], "all interleavings of the two chains and of other tasks, missing Stacks blocks, slow nodes, crash points",
     "The tests fetch no blocks at all.",
     RO + "state.rs " + RO + "bitcoin_client.rs " + RO + "stacks_client.rs " + RO + "system.rs", [("fetch tasks and heights", RO + "state.rs"), ("waiting for a block", RO + "bitcoin_client.rs")],
     level="model_checking", technique=RUNS,
     note="All reachable states of 13 scenarios, plus the whole program with every single deviation, pairs of early or missing blocks and of crashes." + TRUST,
     state=[("block heights", "last block of each chain that was used", RO + "state.rs")], observe=["blocks fetched", "block events in the log"])
prop("C05", "A restart rebuilds the state from before the crash, and always starts",
     "Wherever the operator is stopped, including in the middle of writing its log, it starts again, and the state it rebuilds is the one reached by the events completely noted down. It then carries on with the work in flight without repeating, losing or mixing up any.",
     [X, H], "every point of an execution at which a crash makes a difference, every number of bytes that may have arrived of the last write, repeated crashes",
     "No existing test restarts the operator.",
     RO + "system.rs " + RO + "state.rs", [("log replay and append", RO + "system.rs"), ("resuming", RO + "state.rs")],
     level="model_checking", technique=RUNS,
     note="Events: the replayed state is compared in every reachable state and a crash tried from each. Whole program: every crash point of 6 histories times the bytes kept of the write under way (both ends and an even spread; thorough: every byte), and pairs of crashes." + TRUST,
     state=[("log.ndjson", "events noted down", RO + "system.rs")], observe=["behaviour after restart"])
prop("C06", "No legal history makes the operator crash or hang",
     "Whatever legal sequence of blocks, operations, answers and confirmations the two chains deliver, and in whatever order tasks complete, the operator neither panics nor ends by itself nor stops reacting. The only exceptions are the documented ones in strict mode.",
     [S, H, I], "all orders of events, all answers nodes may give, blocks with any set of operations",
     "A wedge needs several requests in different phases at once; tests have one.",
     RO + "state.rs " + RO + "system.rs " + RO + "bitcoin_client.rs " + RO + "stacks_client.rs", [("update", RO + "state.rs"), ("event loop", RO + "system.rs")],
     level="model_checking", technique=RUNS,
     note="All reachable states of 13 scenarios, strict and not; whole program with every single deviation and all pairs of task orders on one history." + TRUST,
     state=[("State", "phase of set-up and requests", RO + "state.rs")], observe=["panics", "end of the event loop"])
prop("C07", "Every request is completed once both chains cooperate",
     "Whenever both chains keep producing blocks and accept valid transactions, every deposit the operator observed ends in a mint, and every withdrawal request in a burn followed by its payout, unless the contract or a node rejected it. This holds from every state the operator can reach, including after restarts.",
     [S, X, H], "all reachable states, then a fair continuation; crashes, missing and early blocks, delays, slow confirmations",
     "Completion is a property of whole histories; the tests stop after one event.",
     RO + "state.rs " + RO + "system.rs", [("task creation", RO + "state.rs"), ("event loop", RO + "system.rs")],
     level="model_checking", technique=RUNS,
     note="From every reachable state of 13 scenarios a fair continuation must complete everything; whole program with every single deviation and pairs of block timing. One known finding: a crash between deciding on a transaction and noting that it is out loses the request." + TRUST,
     state=[("State", "phase each transaction is in", RO + "state.rs")], observe=["transactions mined in the end"])
prop("C08", "Transactions under way at the same time never collide",
     "Whatever the order in which concurrent tasks run, every Stacks transaction the operator broadcasts has its own nonce, with no gaps, and no two Bitcoin payouts spend the same output. So none of its transactions pushes another out.",
     [S, H], "all task orders within the bound, several mints, burns and payouts at once, missing and early blocks, crashes",
     "Tests broadcast nothing; collisions need two tasks between the same two awaits.",
     RO + "stacks_client.rs " + RO + "bitcoin_client.rs " + RO + "system.rs", [("nonce and broadcast under one lock", RO + "system.rs"), ("coin selection", RO + "bitcoin_client.rs")],
     technique=DPOR,
     note="6 histories, every single deviation (task order included), all pairs of task orders on two simultaneous mints." + TRUST,
     observe=["nonces and inputs of the transactions the nodes receive"])
prop("C09", "Reported transaction statuses are what the chain says",
     "Whenever the operator notes down the status of one of its Stacks or Bitcoin transactions, that status was true at a moment it asked: waiting while it waits, confirmed only when a block holds it and it succeeded, rejected when the contract or a post-condition aborted it or the node dropped it. No answer a node may give is misread or mixed up with another moment or another transaction.",
     [S, H, F], "all final statuses, transactions confirmed or dropped between any two requests, late and lost answers, task orders, crashes",
     "Status is put together from several requests; the chain must move between two of them.",
     RO + "stacks_client.rs " + RO + "bitcoin_client.rs " + RO + "system.rs", [("transaction status", RO + "stacks_client.rs"), ("transaction status", RO + "bitcoin_client.rs"), ("status tasks", RO + "system.rs")],
     technique=DPOR,
     note="6 histories, every single deviation of all kinds, every single drop with each of the dropped statuses, pairs of drops and block timing on one history. Reorganisations are left out." + TRUST,
     observe=["status events in the log against the chains' own record"])
prop("C10", "Broadcast transactions carry exactly their operation's data",
     "Every transaction the operator broadcasts names exactly what its request asked for: a mint the deposit's amount and recipient, a burn the withdrawal's amount and owner, both with the request's Bitcoin transaction, block height, header, index and inclusion proof, so the real contract accepts them. A payout pays exactly the requested amount to the payee and names the chain tip; the wallet's public key is registered as the operator's own.",
     [I, H, S], "all kinds of requests (amounts, recipients, names, payees), positions and block sizes, histories and schedules",
     "No existing test builds one of these transactions.",
     RO + "system.rs " + RO + "proof_data.rs " + RO + "bitcoin_client.rs " + RO + "stacks_client.rs", [("contract call arguments", RO + "system.rs"), ("proof", RO + "proof_data.rs")],
     technique=DPOR,
     note="Every transaction of every execution is decoded and compared with an independent reading of its request, and run on the real contract; 200 requests covering amounts, recipients, payees and block positions, plus every single deviation on 6 histories." + TRUST,
     observe=["transactions the nodes receive"])
prop("C11", "Inclusion proofs the operator generates are accepted by the real contract",
     "For every Bitcoin block with at least two transactions and every position in it, the proof the operator generates names that transaction, its index, the height and the header exactly as the contract expects them, and the asset contract accepts it.",
     [I], "all block sizes, positions, heights and headers, transactions with and without witnesses",
     "No existing test generates a proof; the byte orders and the odd levels of the tree only show against the contract.",
     RO + "proof_data.rs " + AC + "clarity-bitcoin-mini-deploy.clar", [("ProofData", RO + "proof_data.rs"), ("verify-merkle-proof", AC + "clarity-bitcoin-mini-deploy.clar")],
     technique="bounded-exhaustive enumeration of blocks and positions: proofs from the real generator run on the real contract in an interpreter, and compared with an independent Merkle tree",
     note="Blocks of 2 to 40 (thorough 200) transactions, every position; large blocks at the edge positions; all heights at script-number edges; edge values of each header field. Trusts the Clarity interpreter and stand-ins for rs_merkle and blockstack-core. Header versions below 2 (before BIP 34) are left out.",
     observe=["proof values and the contract's answer"])
prop("C12", "Passing faults of the nodes never lose or corrupt work",
     "When requests to the Bitcoin or Stacks node fail for a while (connection lost before or after the request arrived, overload, warming up, data not yet indexed), the operator tries again and in the end everything is done exactly as if nothing had happened: nothing lost, nothing twice, no wrong data, no crash.",
     [F, H], "every request of every history failing in every way once, and pairs of faults",
     "Tests use no network; the fault must hit one particular request.",
     RO + "bitcoin_client.rs " + RO + "stacks_client.rs " + RO + "system.rs", [("retries", RO + "stacks_client.rs"), ("retries", RO + "bitcoin_client.rs")],
     technique="exhaustive fault enumeration: every request of the whole real operator's executions fails in every way the nodes can fail, singly and in pairs",
     note="6 histories, strict and not: each of their requests times each fault; all pairs of the plain faults on one history (thorough: all pairs of all faults)." + TRUST,
     observe=["end state of both chains compared with the fault-free requirement"])

CL = "sbtc-cli/src/commands/"
CLIT = "bounded-exhaustive enumeration: the real program run as a process for every case, against a loopback Electrum server that records requests and injects every single fault"
prop("C34", "The CLI builds exactly the deposit or withdrawal its arguments ask for",
     "For every set of arguments and every state of the wallet, the deposit and withdraw commands either fail with an error and print nothing, or print one signed transaction and its id: it does exactly what was asked on that network, spends only the key's own unspent coins, and returns the change. They never broadcast. Every argument counts: none may be missing, repeated, misspelled or mistaken for another.",
     [I, C, F], "all arguments and ways to write them, all short wallet histories, every fault of the Electrum server",
     "No test runs the program; two swapped arguments of the same type compile.",
     CL + "deposit.rs " + CL + "withdraw.rs sbtc-cli/src/main.rs", [("deposit", CL + "deposit.rs"), ("withdraw", CL + "withdraw.rs")],
     technique=CLIT,
     note="Grids of networks, recipients, payees, address kinds, amounts and fees; all wallet histories of up to 3 (thorough 4) of 6 events; each of 13 server requests failing in 4 ways (thorough: pairs); every argument missing, doubled, wrong, and every single character of keys and addresses changed. Amounts from 2^63 are left out (bdk adds them up unchecked). Trusts bdk's coin selection and libsecp256k1.",
     observe=["standard output", "exit status", "requests the Electrum server receives"])
prop("C35", "generate-from prints exactly the credentials its mnemonic defines",
     "For every valid mnemonic, network choice and number of accounts, the command prints precisely the keys, WIFs, public keys and addresses the standards define for each account, under the right labels and networks; with no choice it uses mainnet and one account. A new mnemonic is valid and never repeats. An invalid mnemonic or argument is refused and nothing is printed.",
     [I, C], "all mnemonic sizes, networks, account numbers, single-word changes of mnemonics",
     "No test runs the program; labels and values can be crossed without a type error.",
     CL + "generate.rs stacks-core/src/wallet.rs", [("value_from_wallet", CL + "generate.rs"), ("derivation", "stacks-core/src/wallet.rs")],
     technique="bounded-exhaustive enumeration: the real program run as a process for every case, compared field by field with a hand-written BIP-39/32/86 derivation",
     note="20 (thorough 60) mnemonics of all sizes, all network pairs and defaults, 0, 1, 2 and 11 accounts; every word replaced, dropped, doubled, swapped.",
     observe=["standard output", "exit status"])
prop("C36", "The operator's configuration is loaded exactly as written, or refused",
     "Loading a configuration file gives exactly the networks, node addresses, contract, strictness, API key and state directory (relative to the file) it states, and the keys and addresses its mnemonic defines by the standards for that network. A missing or invalid entry is an error, never a default. The API key goes with every request to the Stacks node when there is one and is never sent when there is none. The operator's program runs on the file it is told to, and with a bad file, or none, it fails without touching anything.",
     [I, C, H], "all combinations of networks and mnemonics, URL forms, paths, every missing, mistyped or invalid entry, whole runs with and without a key",
     "No existing test loads a configuration.",
     RO + "config.rs " + RO + "main.rs " + RO + "stacks_client.rs stacks-core/src/wallet.rs", [("from_path", RO + "config.rs"), ("request headers", RO + "stacks_client.rs")],
     technique="bounded-exhaustive enumeration of configuration files against independent key derivation and path rules, plus exhaustive bounded-deviation runs of the whole operator with the key checked on every request",
     note="All networks, 3 mnemonics, each entry missing, mistyped and invalid, directory forms, every truncation of the file; 1152 starts of the operator's own main program and every bad file; whole runs with an API key under every single fault." + TRUST,
     observe=["loaded configuration", "requests the nodes receive"])
prop("C37", "The CLI broadcasts exactly the transaction it is given, or says it failed",
     "For every well-formed transaction, the broadcast command sends precisely those bytes to the server and prints that transaction's id. When the server refuses, or cannot be reached, it fails and prints nothing; a text that is no transaction is never sent.",
     [I, F], "all transaction shapes, all truncations and non-hex texts, refusals and faults of the server",
     "No test runs the program.",
     CL + "broadcast.rs", [("broadcast_tx", CL + "broadcast.rs")],
     technique=CLIT,
     note="324 transaction shapes, every truncation and every non-hex character of one, every single fault and pair of faults." ,
     observe=["what the Electrum server receives", "standard output", "exit status"])
