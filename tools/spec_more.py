M = "merkle/src/"
prop("C20", "A merkle tree's root is the hash of its leaves, whatever the history",
 "After any sequence of additions, of single leaves or batches, and of root and proof queries in between, the root of a merkle tree of fixed or variable height is the hash computed from scratch from the leaves added, in order, with empty places as empty subtrees. The counts, the height and the capacity limit are exact, and a leaf that does not fit is refused without a trace.",
 ["histories", "configurations"], "every sequence of operations, every tree height, every hasher and merger",
 "Tests add a fixed batch and ask for the root once; a stale cached hash needs a particular order of additions and queries.",
 [M+"tree_impl.rs", M+"tree.rs", M+"merger_poseidon.rs", M+"metadata.rs"], [("MinaMerkleTree", M+"tree_impl.rs"), ("MinaPoseidonMerkleMerger", M+"merger_poseidon.rs")],
 "explicit-state enumeration of all operation histories up to a depth on the real tree vs a from-scratch reference",
 "All histories up to 5-7 operations on heights 0-5 and variable height, 6 mergers; Poseidon is replaced by an ideal hash.",
 state=[("hashes of the inner nodes", "cached hash of each node, none when outdated", M+"tree_impl.rs")])
prop("C21", "Merkle proofs verify for the leaf they were made for and for nothing else",
 "Every leaf of every tree has a proof, and the proof verifies against the tree's root for that item at that index. It is refused for another item, another index, another root, or after a change of any peer hash or index in it; checking a malformed proof never panics.",
 ["inputs", "histories"], "every leaf of every tree, every proof and alteration of a proof",
 "The tests check a few proofs that hold; soundness is about the proofs nobody made.",
 [M+"proof.rs", M+"tree_impl.rs", M+"merger_poseidon.rs"], [("MerkleProof::verify", M+"proof.rs"), ("get_proof", M+"tree_impl.rs")],
 "explicit-state enumeration of trees, leaves, proofs and all single alterations on the real code",
 "All leaves of all trees up to a size; all alterations of one field; Poseidon is replaced by an ideal hash.")
prop("C22", "Depth and height of merkle tree nodes are exact for every index",
 "The metadata of node i of a merkle tree gives its depth as the length of the way from the root to it, and its height as the tree's height less the depth, for every index a 64-bit machine can hold.",
 ["inputs"], "every node index and tree height",
 "The tests know trees of a dozen nodes; floating point or shift errors start at indices near powers of two.",
 [M+"metadata.rs", M+"tree_impl.rs"], [("MerkleTreeNodeMetadata", M+"metadata.rs")],
 "explicit-state enumeration of node indices and heights, real code vs a counting reference",
 "All indices below 2^22 or more, all within a neighbourhood of each power of two up to 2^64.")
prop("C23", "Merkle paths become proofs of the leaf they lead to; numbers are read exactly",
 "A merkle path converted to a proof names the leaf and the peers the path's left and right steps lead along, and the proof's root is the root the path implies. A path that leads to no leaf is refused with an error. A decimal number is read as exactly the field element it names, or refused if there is none.",
 ["inputs"], "every path, every decimal text",
 "The tests convert two paths of the main network.",
 [M+"path.rs", M+"proof.rs", "proof-systems-shim/src/fp.rs"], [("MerklePath", M+"path.rs"), ("fp_from_radix_10", "proof-systems-shim/src/fp.rs")],
 "explicit-state enumeration of paths and decimal texts, real conversions vs reference",
 "All paths up to a length, longer ones with at most two odd steps; numbers around 0, the modulus and 2^256.")
K = "consensus/src/"
prop("C24", "Chain selection ends with the better chain, and nodes agree on it",
 "Offered any candidates, a node keeps or adopts, candidate by candidate, the chain the rules prefer: in short-range forks the longer one, ties broken by VRF digest and then state hash; in long-range forks the one of greater relative window density, ties broken as before, malformed windows ignored. Two nodes that offer each other their chains end with the same one; short-range candidates give the same result in any order. Chains grow only by blocks of the next height; nothing in a candidate makes the node panic.",
 ["inputs", "histories"], "every set and order of candidate chains with any consensus states",
 "The tests select between a handful of chains; agreement and order independence are about all pairs and orders.",
 [K+"common.rs"], [("select_secure_chain / select_longer_chain", K+"common.rs:155"), ("ProtocolStateChain::push", K+"common.rs:67")],
 "explicit-state enumeration of candidate sequences over a universe of tips on the real selection vs a reference fold",
 "About 120 tips, all pairs (triples) of candidates, all orders of the short-range family; headers are stand-ins with chosen hashes, and a smaller run uses the real ones.")
prop("C25", "Fork range and relative window density are those of the specification",
 "A fork is short range exactly when both tips are of one epoch and share the staking lock checkpoint, or are of consecutive epochs, the earlier is past two thirds of its epoch, and its next lock checkpoint is the later's staking one. The relative minimum window density is the tip's minimum density in the grace period, else the lesser of it and the sum of the window with the sub-windows passed since the tip emptied. Both hold whatever the tips claim, without a panic.",
 ["inputs"], "every pair of consensus states",
 "The tests check about ten pairs of states of main network blocks.",
 [K+"common.rs"], [("is_short_range", K+"common.rs:220"), ("relative_min_window_density", K+"common.rs:258")],
 "explicit-state enumeration of pairs of tips, real functions vs reference",
 "All pairs over epochs, checkpoints and significant slots, all pairs of slots near the grace period and powers of two with identifying window weights. One finding listed (window shifted by two slots too many, pinned by the repository's tests).")
B = "base/src/"
prop("C26", "Hash inputs are packed into field elements without loss or overlap",
 "The input of a hash is the field elements appended, in order, followed by the numbers appended: each next to those before it, in one field element as long as all fit into fewer than 255 bits, else in the next. Nothing is dropped, cut, reordered or put over something else, however many and however wide the parts are, and appending a scalar, a flag or bytes appends exactly their bits.",
 ["inputs"], "every sequence of parts of any widths and values",
 "The tests pack one or two inputs; a packing error needs widths that meet the limit exactly, or long runs.",
 ["proof-systems-shim/src/roinput.rs"], [("ChunkedROInput", "proof-systems-shim/src/roinput.rs")],
 "explicit-state enumeration of sequences of parts on the real packing vs a reference packing",
 "All sequences of 5-7 parts over 12 widths, long runs of each width; the values have significant patterns.")
prop("C27", "Hashes of blocks and accounts cover every member, in the protocol's order",
 "The state hash of a protocol state (in the format of the main network and in that of its successor) and the hash of an account are computed from all their members, each with its width, in the order and with the domain the protocol fixes. Two states or accounts that differ in a member have different hash inputs.",
 ["inputs"], "every value of every member",
 "The tests know hashes of three blocks; a member that is left out, cut or swapped only shows when it has another value than there.",
 [B+"protocol_state.rs", B+"consensus_state.rs", B+"epoch_data.rs", B+"blockchain_state.rs", B+"account/mod.rs", B+"account/permissions.rs", B+"account/timing.rs", "crypto/src/hash/types.rs"],
 [("ProtocolState::state_hash_fp", B+"protocol_state.rs"), ("Account::to_chunked_roinput", B+"account/mod.rs")],
 "explicit-state enumeration of states and accounts whose members vary, real hash input vs a reference layout, and distinctness of all explored",
 "5 values of each of about 90 members, 2-3 varied at a time; Poseidon is replaced by an ideal hash. One finding listed (times of vesting schedules are hashed as 32 bits).")
prop("C28", "States and accounts read from GraphQL JSON are those the JSON describes",
 "Reading epoch data, consensus, blockchain and protocol states, permissions, timings and accounts from the JSON of the GraphQL interface gives every member the value that stands under its own key. Where a text is missing, malformed, out of range or of another kind, the reader returns an error; it neither panics nor makes up a value.",
 ["inputs"], "every JSON document",
 "The tests read one document per type and do not look at the result.",
 [B+"from_graphql_json.rs", B+"account/permissions.rs", B+"account/timing.rs", B+"account/mod.rs", B+"epoch_data.rs", B+"consensus_state.rs", B+"blockchain_state.rs", B+"protocol_state.rs"],
 [("FromGraphQLJson", B+"from_graphql_json.rs")],
 "explicit-state enumeration of documents and their single alterations, real readers vs the values written",
 "5 values of every member, 2-4 varied at a time; every string of a document replaced by each of several hundred others and altered at every character.")
U = B+"user_commands/"
prop("C29", "A signature is good for one command, signer and network only",
 "What is signed of a payment or delegation is all its members, in the protocol's layout and the network's domain. A command verifies exactly if its signature was made with its signer's key for its payload on that network: not after a change of any member, of the signer, the signature or the network, nor with a memo of another length. Verifying and showing commands received from others never panics, and a transfer is built with the members that were given.",
 ["inputs"], "every payload, signer, signature and network",
 "The tests verify eight payments and flip one member; no delegation, no foreign memo, no invalid signer.",
 [U+"signed_command/mod.rs", U+"signed_command/builder.rs", U+"memo.rs", U+"payment.rs", U+"mod.rs"], [("Hashable for SignedCommandPayload", U+"signed_command/mod.rs"), ("Verifiable for SignedCommand", U+"signed_command/mod.rs")],
 "explicit-state enumeration of payloads and their alterations, real hash input and verification vs a reference layout",
 "5 values of each member, 2-3 varied at a time, all single alterations of signed commands, memos of all lengths to 300; the signature is replaced by an ideal one.")
prop("C30", "A block verifies only if every command in it does",
 "A staged ledger diff, and the block that contains it, is valid exactly if the signature of every command in both of its parts is, whether the second part is there or not and whatever became of the commands.",
 ["inputs"], "every block with any number of commands in either part",
 "The tests verify blocks of the main network, whose signatures are all valid.",
 [B+"staged_ledger_diff.rs", B+"external_transition.rs", U+"mod.rs"], [("Verifiable for StagedLedgerDiff", B+"staged_ledger_diff.rs"), ("Verifiable for ExternalTransition", B+"external_transition.rs")],
 "explicit-state enumeration of diffs with valid and invalid commands on the real verification",
 "All pairs of lists of up to 3-4 commands of 4 kinds; the signature is replaced by an ideal one.")
S = "protocol/serialization-types/src/"
prop("C31", "Amounts, numbers and times mean what their text says, exactly",
 "An amount read from decimal text is the exact multiple of 10^-9 that it denotes, and a number the exact number; text that denotes none, or one that is too large or has more decimals, is refused. Every amount, number, character, block time and field element written as text, in JSON or not, reads back as itself. No text panics.",
 ["inputs"], "every text and every value",
 "The tests read a dozen amounts.",
 [B+"numbers.rs", S+"common.rs", S+"type_annotations.rs", "proof-systems-shim/src/fp.rs", "crypto/src/hex.rs"], [("FromStr for Amount, Display", B+"numbers.rs"), ("U64Json, I32Json, CharJson …", S+"common.rs")],
 "explicit-state enumeration of short texts and of texts and values near all limits, real readers and writers vs exact arithmetic",
 "All texts of up to 5-6 characters of an alphabet of 9, amounts around powers of two and ten with every shape of fraction. Two findings listed (dates of times after the year 9999 or from 2^63 on).")
prop("C32", "Keys, hashes and signatures have one text, and no other is read as them",
 "Every key, hash, signature, memo, VRF output and byte string is written as the text its format fixes (base58check with the type's version byte and version number, hexadecimal, base64), and reads back as itself. A text with a changed, missing or additional character, of another type, with another version byte or number, a wrong checksum or another length is refused or, where the format allows several spellings, is read as the same value. Nothing panics, and a key or signature whose numbers are no field elements is refused.",
 ["inputs"], "every text and every value",
 "The tests convert one or two known texts per type and no malformed ones.",
 ["crypto/src/base58.rs", "crypto/src/hash", "crypto/src/hex.rs", S+"version_bytes.rs", S+"signatures.rs", S+"field_and_curve_elements.rs", S+"common.rs", B+"user_commands/memo.rs"],
 [("Base58EncodableHash, Base58Encodable", "crypto/src/base58.rs"), ("PublicKeyJson, SignatureJson …", S+"signatures.rs")],
 "explicit-state enumeration of values, single corruptions of texts, and contents with a right checksum, real readers and writers vs a reference base58check",
 "23 text forms; values in which any one byte is any value; all single-character corruptions; all versions and lengths.")
prop("C33", "Blocks mean the same in binary and in JSON, member by member",
 "A block received in the peer to peer format and written as JSON has every value at the place the JSON format fixes for it, and read back is the same block in both formats. JSON read as a block gives exactly the block it writes: a document with a member of another kind, another name or a value out of range is refused, never read as something else. Malformed documents give an error, not a panic.",
 ["inputs"], "every block and every JSON document",
 "The tests convert blocks of the main network; their optional parts, second halves, rare commands and failures are mostly absent or the same.",
 [S+"staged_ledger_diff.rs", S+"external_transition.rs", S+"protocol_state.rs", S+"consensus_state.rs", S+"protocol_state_proof.rs", S+"snark_work.rs", S+"macros.rs", "protocol/serialization-types-macros/src/auto_from.rs"],
 [("ExternalTransitionJson, ExternalTransitionV1", S+"external_transition.rs"), ("AutoFrom", "protocol/serialization-types-macros/src/auto_from.rs"), ("impl_mina_enum_json_serde", S+"macros.rs")],
 "explicit-state enumeration of the single changes of blocks (every leaf, option, list and alternative) on the real conversions",
 "Blocks of each shape, every leaf with 2 other values, every structural change; all single alterations of every node of a JSON document. One finding listed (bytes that are no UTF-8 are written as invalid JSON text).")
prop("C34", "A block or account is the same in every form it is worked with, sent and stored",
 "Converting a block or an account between the form it is sent or stored in and the form it is worked with gives every member the value of its namesake, and converting back gives the same value, whatever options, lists and alternatives it has. The bytes and the JSON of either form are those of the other, and what they are read as is too. A value that the other form cannot hold is refused when it is received, never a panic.",
 ["inputs"], "every block and every account",
 "The tests convert blocks of the main network, and never look at most members.",
 [B+"external_transition.rs", B+"protocol_state.rs", B+"consensus_state.rs", B+"staged_ledger_diff.rs", B+"snark_work.rs", B+"account/mod.rs", B+"user_commands/mod.rs", B+"serialization_type_conversions/numbers.rs", "protocol/versioned/src/macros.rs", S+"type_annotations.rs"],
 [("ExternalTransition", B+"external_transition.rs"), ("Account, AccountLegacy", B+"account/mod.rs"), ("BinProtSerializationType, JsonSerializationType", S+"type_annotations.rs")],
 "explicit-state enumeration of the single changes of blocks and accounts on the real conversions vs member lists",
 "Blocks and accounts of each shape, every leaf with other values, every structural change; proofs are compared as a whole.")
prop("C35", "Bytes received as a block are one block, or refused",
 "Bytes received from a peer are read as a block only if they are what that block is written as (but for numbers written longer than need be): a changed version number, tag, flag or option byte, a cut, missing or additional byte is refused or gives the block those bytes stand for. Reading takes memory in proportion to the bytes; and whatever block is read can be verified, hashed and written as JSON without a panic.",
 ["inputs"], "every byte string",
 "The tests read blocks of the main network, all of which are well formed.",
 [S+"external_transition.rs", S+"signatures.rs", "protocol/bin-prot/src/de.rs", "protocol/bin-prot/src/read_ext.rs", "protocol/versioned/src/lib.rs", B+"external_transition.rs", "crypto/src/hash/types.rs"],
 [("ExternalTransitionV1", S+"external_transition.rs"), ("from_reader_strict", "protocol/bin-prot/src/de.rs")],
 "explicit-state enumeration of the alterations of a block's bytes on the real decoder, vs the real encoder",
 "One block of 18842 bytes with every structure: every byte with 16 (thorough: all) other values, removed, preceded by others, every prefix, every 32-byte member with values around the moduli. One finding listed (a hash not below the modulus is read, and panics when hashed).")
prop("C36", "Accounts in a ledger database are read as they were written",
 "The bytes stored for an account, in the database of the main network or of its successor, are read as the account they were written for: every member has its own bytes, whatever options, permissions and timing the account has, and writing the account gives the same bytes. Bytes that are cut, or have another version number, tag or flag, are refused or stand for the account they are read as. No bytes make the reader panic.",
 ["inputs"], "every account, and every byte string stored as one",
 "The tests read the accounts of one database, count them and look at a key or two; a member read from another's place passes.",
 [S+"account.rs", B+"account/mod.rs", B+"account/timing.rs", B+"account/permissions.rs", "ledger/src/rocksdb_genesis_ledger.rs"],
 [("Account, AccountV0, TimedData", S+"account.rs"), ("IntoIterator for &RocksDbGenesisLedger", "ledger/src/rocksdb_genesis_ledger.rs")],
 "explicit-state enumeration of accounts whose members vary, real readers and writers vs a reference layout that is checked against 8080 accounts of real databases",
 "Every member with 2-8 values, up to 3 (thorough: 4) members other than in the plainest account at a time; every cut, changed and additional byte. One finding listed (the token members of Berkeley accounts).")
prop("C37", "A ledger database gives its accounts, all of them, in order",
 "Iterating the accounts of a ledger database gives each account exactly once, in the order of their positions, and nothing that is no account; what cannot be read, from the database or as an account, gives an error at its place and leaves the others. The merkle ledger made of it has the accounts at their positions, the depth asked for, and the root of the tree that the accounts and empty leaves form.",
 ["inputs", "fault_sequences"], "every database content, and a fault of the database at any point",
 "The tests read two intact databases.",
 ["ledger/src/rocksdb_genesis_ledger.rs", "ledger/src/genesis_ledger.rs", "ledger/src/lib.rs"],
 [("IntoIterator for &RocksDbGenesisLedger", "ledger/src/rocksdb_genesis_ledger.rs"), ("to_mina_merkle_ledger", "ledger/src/genesis_ledger.rs")],
 "explicit-state enumeration of database contents and points of failure on the real iteration vs a reference ledger",
 "All databases of up to a few entries over a set of keys and values (accounts, locations, broken accounts, foreign keys), a fault at every point of reading; the database is replaced by an ordered map with its interface, the hash by an ideal one. One finding listed (the merkle ledger leaves out accounts it cannot read).")
N = "network/src/processor/"
prop("C38", "The frontier follows the best valid block, whatever arrives in whatever order",
 "After any sequence of blocks the frontier's best chain ends in the block that chain selection gives for the valid ones among them, in the order they came. A block with an invalid command, or that cannot be compared, gives an error and changes nothing. The accounts kept with it are those that came with the best block. An answer of a Berkeley node is read as the first block of the chain it lists and a proof for each account in it, or refused; it never panics.",
 ["inputs", "histories"], "every sequence of blocks, and every answer of a node",
 "The tests add one or two blocks to a frontier and look at its length.",
 [N+"naive_transition_frontier.rs", N+"mod.rs", "consensus/src/common.rs", "merkle/src/path.rs"],
 [("NaiveTransitionFrontier::add_block", N+"naive_transition_frontier.rs"), ("TryFrom<&Value> for ProtocolStateWithSparseMerkleLedger", N+"naive_transition_frontier.rs")],
 "explicit-state enumeration of all histories of blocks up to a depth on the real frontier vs a reference fold",
 "All sequences of 3-4 of 23 main net blocks (valid, invalid, incomparable) and 4-5 of 10 Berkeley blocks; all pairs of 43 forms of accounts in an answer; hash and signature are ideal.")
prop("C39", "The processor delivers every block and request once, and never stands still",
 "Whatever the schedule of the tasks that use it, the processor gives the frontier every block it is handed, once and in the order each task hands them over, and passes every request of the frontier on to the network, once and in order; blocks sent in reply get to the frontier like others. Blocks that are refused, requests that fail and tasks that hold the frontier or the network for a while stop nothing: no schedule leaves blocks or requests waiting forever.",
 ["schedules", "fault_sequences"], "every schedule of tasks, with any blocks refused and requests failing",
 "The tests push a few blocks one after the other; a lost request or a deadlock needs a particular schedule.",
 [N+"processor_impl.rs", N+"mod.rs", N+"naive_transition_frontier.rs"],
 [("NetworkMessageProcessor::run", N+"processor_impl.rs"), ("TransitionFrontier, NonConsensusNetworkingOps", N+"mod.rs")],
 "stateless model checking of the real processor under a controlled scheduler: all schedules, or all up to a number of departures from taking turns",
 "6624 set-ups of up to 3 tasks pushing up to 3 blocks, holders of locks, replies of 0-2 blocks; all schedules for one pusher, 2-4 (thorough: 4-6) departures for more; tokio is replaced by channels and locks with its documented order of service, on one thread.",
 state=[("queues between frontier and network", "blocks and requests under way", N+"processor_impl.rs")])
G = N+"js/"
prop("C42", "The backends deliver what the nodes answer, and nothing else",
 "Polled, the backend for the main network asks once for the ten latest blocks and then once for each of them that it was told of, by the height and hash it was told, and delivers each block that comes, unaltered and in order; the Berkeley backend asks each node on its list once for the accounts on its list, and delivers each answer once. A request for a block delivers that block. Whatever else comes, an error, no text, no JSON, cut or foreign JSON, or nobody taking the blocks, gives an error or the rest of the blocks, never a block that did not come, and no panic.",
 ["inputs", "fault_sequences", "histories"], "every combination of answers, and every history of settings, polls and requests",
 "The tests of these backends need the network and a browser; they are not run natively at all.",
 [G+"graphql_api_v1.rs", G+"graphql_api_berkeley.rs", N+"mod.rs"],
 [("NonConsensusGraphQLV1Backend, fetch_block, query_latest_blocks", G+"graphql_api_v1.rs"), ("NonConsensusGraphQLBerkeleyBackend", G+"graphql_api_berkeley.rs")],
 "explicit-state enumeration of answers, failures and histories on the real backends, built natively with a stand-in for the JavaScript they call, vs a reference",
 "All combinations of answers for up to 3 blocks or nodes out of 10-20, 5 ways of taking what is delivered, all histories of 4 (thorough: 5) operations; the answer of a call comes at its second poll.")
prop("C43", "Fetching survives two failures of the network and never makes up an answer",
 "The functions that fetch blocks, the latest blocks and the best chain make up to three attempts, each with the address, limit, accounts and members they were asked for; the first attempt that brings an answer gives that answer, as it came, and if all three fail, in whatever way, the failure is reported. The best chain they give has the ledger hash of the genesis block, every account asked for and every member that is read from it.",
 ["inputs", "fault_sequences"], "every sequence of failures of the network, and every request",
 "No test that runs offline calls these functions; those that do need the real nodes to be up.",
 ["network/js/graphql_v1_utils.js", "network/js/graphql_berkeley_utils.js", N+"naive_transition_frontier.rs"],
 [("fetch_block_json, query_latest_blocks_json", "network/js/graphql_v1_utils.js"), ("fetch_best_chain_json", "network/js/graphql_berkeley_utils.js")],
 "exhaustive fault injection: the real functions under every sequence of up to three of seven happenings, against a stand-in node that resolves the queries they send",
 "Requests for 24 blocks, 24 of the latest blocks, all arrangements of up to 3 accounts on chains of up to 3 blocks, each with all 85-259 sequences of refused connections, broken and cut answers, resets and errors; the answers are read by the real frontier.")
W = "apps/wasm/"
prop("C44", "The browser apps ask a node for exactly what they are told, once",
 "Sending a payment, locking and unlocking an account and asking for one send one request, to the node addressed, that a GraphQL server reads as exactly that operation with exactly the amount, fee, addresses, nonce, memo, validity, key and password given, whatever characters they hold and whether numbers are numbers, bigints or text; a number that is none or out of range is refused, and nothing is sent. The answer is given as it came; a failure is an error and never a panic, and operations under way at once do not mix.",
 ["inputs", "fault_sequences", "schedules"], "every payment, key, password, every answer and failure of the node, every order of steps",
 "No test of the apps exists; trying them with a usual payment and password shows nothing.",
 [W+"mina-berkeley/src/js_exports.rs", W+"mina-berkeley/src/payment.rs", W+"mina-berkeley/src/utils.rs", W+"mvp/src/payment.rs", W+"mvp/src/utils.rs"],
 [("send_payment, lock_account, unlock_account", W+"mina-berkeley/src/js_exports.rs"), ("send_payment, account_info", W+"mvp/src/payment.rs"), ("Payment", W+"mina-berkeley/src/payment.rs")],
 "explicit-state enumeration of arguments, node's replies and interleavings on the real functions, built natively, vs a GraphQL reader of their requests",
 "About 100 numbers in every kind and spelling and 266 texts, two members of a payment at a time; all texts of up to 3 (4) of 18 characters; 137 (171) replies; all orders of the steps of two operations; reqwest and wasm-bindgen are stand-ins, inline JavaScript is run by node.")
prop("C45", "The connected app shows every status it is sent, once and in order",
 "Connecting dials the address asked for on the main network and asks the proxy once for the statuses; a malformed request or address, and a transport or dial that fails, is reported as such. Every status the proxy sends, in whatever pieces, is passed to the page once, in order, with all its values; whatever else it sends is passed over, and the end or loss of the stream ends the request.",
 ["inputs", "schedules"], "every sequence of lines, every division into pieces, every end",
 "No test of the app exists; a run against a proxy that stays up shows neither the end of a stream nor other lines.",
 [W+"mvp/src/lib.rs", W+"mvp/src/js_exports.rs", W+"mvp/src/utils.rs", W+"mvp/proto/messages.proto"],
 [("connect_async", W+"mvp/src/lib.rs"), ("NodeStatusCodec::read_response", W+"mvp/src/lib.rs")],
 "explicit-state enumeration of streams, their divisions and ends on the real codec, built natively, vs a reference",
 "All sequences of up to 3 (4) of 24 lines with two ends; pairs cut at up to 2 (3) places; 130000 requests to connect, each with failing transport and dial; libp2p and protobuf are stand-ins.")
prop("C46", "The light node in the page shows the best chain of all it was given",
 "Whatever the page calls, in whatever order and overlapping: a poll asks each of the nodes last set, once, for the accounts last set, and fails exactly if one of them gives no answer that can be read. The best chain shown is none until a node gave a block, then always one of the blocks given, never a worse one than shown before, and, once nothing is under way, the best of all given, with its state and its accounts; answers that are no block, or hold a malformed account, change nothing. Node or account lists that are no texts are refused and change nothing. No call hangs while the processor runs, and none panics.",
 ["schedules", "histories"], "every sequence of calls of any number of tasks in the page, every behaviour of the nodes, every schedule",
 "No test of the light node exists; what overlapping polls, changes of settings and readings do to each other depends on their order.",
 [W+"mina-berkeley/src/js_exports.rs", W+"mina-berkeley/src/frontier.rs", W+"mvp/src/js_exports.rs", W+"mvp/src/frontier.rs", "network/src/processor/processor_impl.rs", "network/src/processor/naive_transition_frontier.rs", "network/src/processor/js/graphql_api_berkeley.rs", "network/src/processor/js/graphql_api_v1.rs"],
 [("set_api_list, poll_latest_blocks_once, get_best_chain_state_hash", W+"mina-berkeley/src/js_exports.rs"), ("poll_latest_blocks_once", W+"mvp/src/js_exports.rs")],
 "stateless exploration of the schedules of page tasks and processor on the real exported functions, built natively, under a controlled executor, vs a monitor",
 "One page task with every sequence of 2 (3) of 12 calls in every schedule, two or three overlapping with up to 2 (3) departures from taking turns, both light nodes; nodes, browser, tokio and Poseidon are stand-ins; blocks of one epoch.")
Z = "secrets/src/secret_box/"
prop("C40", "A wallet file gives its key for its password, and nothing otherwise",
 "A wallet file made with a password, with any limits, nonce and salt the algorithms allow, gives the secret it was made of for that password, and an error for every other; after a change of any bit of nonce, salt, ciphertext or limits it gives an error. A file that is read is written back with the same values, and one that has another algorithm, a missing member, a wrong checksum or version byte, or a number or length that the algorithms do not allow, gives an error when it is read or opened. No file and no password panics.",
 ["inputs"], "every wallet file and every password",
 "The tests open one wallet with its password and one other, and write it back.",
 [Z+"types_impls.rs", Z+"utils.rs", Z+"types.rs", Z+"errors.rs"],
 [("SecretBox::get_private_key_bytes, get_keypair", Z+"types_impls.rs"), ("TryFrom<SecretBoxJson> for SecretBox", Z+"types_impls.rs")],
 "explicit-state enumeration of wallets, passwords and their single alterations, real code vs a reference wallet",
 "720 wallets with 8 passwords each, all lengths to 80 of every part, numbers around powers of two, every byte changed, removed and added, every character of the file; Argon2i and the secret box are stand-ins that implement the algorithms (the repository's wallet opens with them).")
P = B+"protocol_state_proof/"
prop("C41", "The elements and points of a proof keep their value, from text and to the prover",
 "Hexadecimal text is read as exactly the field elements it spells, in order, whatever its mark and case, or refused; elements are written as the text they are read from. Given to the prover, every element is the number its bytes stand for, every point has its own two coordinates, the point at infinity is that and no other is, and lists and pairs keep their number and order, in any field. Challenges made from numbers have them at their places.",
 ["inputs"], "every text, every list of elements and points over any field",
 "The tests read some texts of the genesis block's proof; no test looks at a point as the prover gets it.",
 [P+"field_and_curve_elements.rs", P+"bulletproof_challenges.rs", B+"numbers.rs", S+"field_and_curve_elements.rs"],
 [("FieldElementVec, FiniteECPoint, ECPoint and their lists", P+"field_and_curve_elements.rs"), ("BulletproofChallengeTuple17::new", P+"bulletproof_challenges.rs")],
 "explicit-state enumeration of texts, elements and lists of points on the real conversions vs a reference",
 "Texts of up to 9 (thorough: 20) elements and all their single alterations; all lists of up to 5 (7) of 5 points, 270 numbers in each coordinate, over Fp, Fq and the 256-bit integers; ark-ff and ark-ec are stand-ins.")
