NOT_APPLICABLE = []
prop("C01", "Merkle-Patricia proofs are accepted exactly when they tell the truth",
 "For every trie and key, the proof verifier reports presence with exactly the stored value, or absence, for the honest proof, and it never accepts a truncated, altered, recombined or foreign node list as showing a different value or an absence under the same root. The trie builder computes the same root as the Ethereum specification for every insertion order and produces exactly the canonical list of nodes as proof. Arbitrary bytes given as nodes never cause an out-of-bounds access or non-termination.",
 ["inputs", "histories"], "all insertion orders and overwrites of key sets over colliding, nested and rlp-index keys; all structural edits, single bit flips and recombinations of honest proofs; all short arbitrary node byte strings",
 "tests replay a handful of recorded mainnet proofs; none enumerates tries with embedded nodes, branch values, diverging extensions or forged proofs",
 ["src/chains/eth/verifier/patricia.c", "src/chains/eth/verifier/patricia_trie.c", "src/chains/eth/verifier/patricia.h"],
 [("patricia_verify", "src/chains/eth/verifier/patricia.c"), ("patricia_set_value / patricia_create_merkle_proof", "src/chains/eth/verifier/patricia_trie.c")],
 "bounded-exhaustive enumeration of tries, insertion orders and forged proofs on the real code against a reference trie",
 "Exhaustive within the stated key/value alphabets and edit classes; keccak collisions are assumed not to occur. Under AddressSanitizer.")
prop("C02", "RLP decoding and encoding follow the specification and stay in bounds",
 "For every byte string and item index the RLP decoder returns exactly the item the specification defines, or reports out-of-range or not-found, and never reads or returns memory outside the input nor loops. Encoding any byte string, list or integer produces the canonical RLP form and decodes back to the same value.",
 ["inputs"], "all byte strings up to 2 bytes (3 in the thorough tier), all strings up to 5 (6) bytes over the 20 boundary bytes, all long-form length headers at integer limits, all encoder length classes up to 16 MB",
 "tests decode a few well-formed transactions; malformed length headers and limits are not sampled",
 ["src/chains/eth/verifier/rlp.c", "src/chains/eth/verifier/rlp.h"],
 [("rlp_decode, rlp_get_uint64", "src/chains/eth/verifier/rlp.c"), ("rlp_add_item/list/uint, rlp_to_list", "src/chains/eth/verifier/rlp.c")],
 "bounded-exhaustive enumeration of inputs on the real code against a reference decoder/encoder",
 "Exhaustive over the stated strings; under AddressSanitizer with exact-size buffers.")
prop("C18", "A proof is only accepted for the methods it is documented for",
 "For every method, every kind of proof and every kind of data a prover adds, a verifier accepts only the combinations of the supported-methods table: an answer of a provable method needs a proof of exactly its kind and is the value that proof shows, never data added by the prover; methods answered locally (chain id, accounts, versions, web3_sha3) get exactly their defined answer on every chain with or without a request; unprovable, unknown and misspelled methods, requests for another chain or chain type, and requests whose frame (version, offsets, union selectors, length) is changed are never answered with anything else. Methods are classified (provable, local, unprovable, unknown) as documented, on Ethereum chains only.",
 ["inputs", "configurations"], "57 method names x 11 kinds of proof x 10 kinds of data on 2 chains; every method x proof x 30 argument lists; 7 misspellings of every name x every proof; all pairs of 4 chains sharing the same keys; all 256 version bytes and union selectors, offset changes, cuts and added bytes for 15 methods; classes of all names on 16 chain ids; web3_sha3 of 900 inputs up to 300 bytes and 20 malformed ones",
 "tests replay recorded pairs of method and proof which belong together",
 ["src/chains/eth/verifier/eth_verify.c", "src/verifier/verify.c", "src/chains/eth/verifier/verify_local.c"],
 [("c4_eth_verify, c4_eth_get_method_type", "src/chains/eth/verifier/eth_verify.c"), ("c4_verify_init, c4_verify", "src/verifier/verify.c"), ("verify_eth_local", "src/chains/eth/verifier/verify_local.c")],
 "bounded-exhaustive enumeration of method, proof, data, chain and frame on the real verifier in a simulated chain",
 "Exhaustive over the listed methods and kinds; one proof of every kind. Calls are only checked for being rejected where they do not belong. Under AddressSanitizer.")
prop("C21", "The transaction-location cache never loses or misreports a live entry",
 "After any sequence of insertions, updates, capacity changes, reservations and resets, looking up a transaction hash returns its most recent block and index unless its block was evicted oldest-first because space was needed, and the reported size equals the number of retrievable entries and never exceeds the capacity. Every operation terminates.",
 ["histories", "configurations"], "all operation sequences up to 5 (6) over keys with colliding and wrapping probe sequences; all insertion orders and block groupings of 7 (8) colliding keys with step-wise evictions; capacity limits around the physical table size",
 "the tests insert well-distributed hashes only; hash collisions with evictions in between are never sampled",
 ["src/chains/eth/prover/tx_cache.c", "src/chains/eth/prover/tx_cache.h"],
 [("open addressing table with backshift deletion, FIFO of blocks", "src/chains/eth/prover/tx_cache.c")],
 "bounded-exhaustive enumeration of operation sequences on the real cache against a map + FIFO reference model",
 "Exhaustive over all sequences within the bounds; every lookup, the size and the capacity are compared after each step.")
prop("C03", "SSZ validation admits only well-formed, safely readable objects",
 "An SSZ byte string that passes recursive validation against its type has the declared sizes, offsets that are ordered and inside the object, list and bit-list lengths within their limits, bit lists with a delimiter, boolean values 0 or 1 and an existing union selector; every accessor, the hash and the JSON dump of it then stay inside the input and agree with the encoded value. Every canonical encoding within the limits passes. Validation of arbitrary bytes never reads outside of them.",
 ["inputs", "configurations"], "all values of a family of 60+ types (every kind and nesting) up to small sizes; all truncations, extensions and byte edits of them; all byte strings up to 5 (6) bytes over boundary bytes; all offset tables of up to 3 offsets; all over-limit lists",
 "tests validate a few recorded proofs; malformed offsets, limits and delimiters in nested types are not sampled",
 ["src/util/ssz.c", "src/util/ssz.h", "src/util/ssz_merkle.c"],
 [("ssz_is_valid", "src/util/ssz.c"), ("ssz_at, ssz_len, ssz_union, dump", "src/util/ssz.c"), ("ssz_get", "src/util/ssz_merkle.c")],
 "bounded-exhaustive enumeration of encodings on the real code against a reference decoder",
 "Exhaustive over the stated strings and types; strictness beyond what memory safety and limits need (first offset, padding bits) is not demanded. Under AddressSanitizer with exact-size buffers.")
prop("C04", "SSZ roots and Merkle proofs are exact in both directions",
 "For every value the hash tree root equals the SSZ specification's; created single and multi proofs are exactly the canonical witness lists (including list-length mix-ins); verifying an honest proof reproduces the root; and no altered leaf, witness, index, order, missing or additional witness, or contradicting second value for a node reproduces it. Generalized indices computed from type definitions equal the specification's.",
 ["inputs"], "all values of the type family; all leaf and inner paths of them, all pairs and triples of paths; all single-byte witness edits, leaf bit flips, sibling and index swaps, shortened and extended proofs, duplicated nodes",
 "tests check a few recorded roots and proofs; wrong-direction cases (what must not verify) are hardly covered",
 ["src/util/ssz_merkle.c", "src/util/ssz.h"],
 [("hash_tree_root / merkle_hash / mix_in_length", "src/util/ssz_merkle.c"), ("ssz_create_multi_proof_for_gindexes", "src/util/ssz_merkle.c"), ("ssz_verify_multi_merkle_proof", "src/util/ssz_merkle.c"), ("ssz_gindex, ssz_add_gindex", "src/util/ssz_merkle.c")],
 "bounded-exhaustive enumeration of values, proofs and proof edits on the real code against a reference merkleization",
 "Exhaustive over the stated values and edits, assuming sha256 has no collisions. Union types are not hashed by the code base (documented TODO) and are excluded.")
prop("C05", "SSZ objects built or read from JSON encode exactly the given value",
 "Building a container or list field by field, or converting a JSON document for a type, yields exactly the canonical SSZ encoding of the given value, and dumping an object to JSON and reading it back returns the identical bytes, for every supported kind of type in both number notations.",
 ["inputs", "configurations"], "all values of the type family in both number notations; all containers and lists rebuilt through every builder function",
 "tests build the handful of proof types the recorded requests need",
 ["src/util/ssz_builder.c", "src/util/ssz.c"],
 [("ssz_add_*, ssz_builder_to_bytes", "src/util/ssz_builder.c"), ("ssz_from_json", "src/util/ssz_builder.c"), ("ssz_dump_to_str", "src/util/ssz.c")],
 "bounded-exhaustive enumeration of values on the real builders against a reference serializer",
 "Exhaustive over the value family. Unions are excluded from the JSON round trip (ssz_from_json does not support them).")
prop("C06", "JSON documents are read exactly and arbitrary text is read safely",
 "For every valid JSON document, element counts, element and property access, iteration order, strings including all escapes, numbers, booleans and null are returned exactly as written, regardless of whitespace. For arbitrary text every accessor terminates and never reads outside the text or writes outside its target, and length and element access agree.",
 ["inputs"], "all texts up to 5 (6) characters over the structural alphabet, all sequences of up to 5 (6) tokens, all documents of up to 4 (5) nodes in 3 whitespace styles, all strings of up to 4 (5) escape tokens",
 "tests parse a few well-formed documents",
 ["src/util/json.c", "src/util/json.h"],
 [("json_parse, json_next_value, find_end", "src/util/json.c"), ("json_get, json_at, json_len", "src/util/json.c"), ("json_as_string, json_as_uint64, json_as_bytes", "src/util/json.c")],
 "bounded-exhaustive enumeration of texts and documents on the real parser against reference trees",
 "Exhaustive within the stated alphabets; property names with escapes, surrogate pairs and \\u0000 are outside. Under AddressSanitizer with exact-size texts.")
prop("C07", "JSON schema validation accepts exactly the conforming values",
 "json_validate accepts a value if and only if it conforms to the schema: hex types need the 0x prefix, hex digits only and the exact or maximal length, hexuint has no leading zeros and at most 32 bytes, uint and suint hold decimal digits only, block is a hex number or a known tag, required properties exist, optional ones may be missing or null, and all array elements and wildcard properties conform. The cached variant gives the same verdict in every order of validations.",
 ["inputs", "histories"], "all pairs of 9 primitive types and 130+ values around every length and prefix boundary; all two-field objects, positional arrays, wildcards and nestings over 7 types and 8 values; all sequences of 4 (5) cached validations",
 "tests validate a few accepted and rejected values per type",
 ["src/util/json_validate.c", "src/util/json.h"],
 [("check_hex, check_block, check_object, check_array", "src/util/json_validate.c"), ("json_validate_cached", "src/util/json_validate.c")],
 "bounded-exhaustive enumeration of schema/value pairs and cache histories on the real code against a reference validator",
 "Exhaustive over the stated schemas and values; hash collisions of the cache key are outside.")
prop("C08", "Conversions and buffers never exceed their bounds and are exact",
 "Converting hex text and numbers yields exactly the written value or fails, numbers print and parse back identically, and every buffer operation on a growing buffer appends exactly its data while on a fixed buffer it never writes beyond the capacity, never reports a larger length, and formatted text stays terminated.",
 ["inputs", "histories"], "all hex lengths 0-70 x capacities 0-40 x invalid positions; all powers of two and ten +-1; all sequences of up to 4 (5) of 9 buffer operations on 8 capacities; all format directives on capacities 1-40",
 "tests use buffers that are large enough",
 ["src/util/bytes.c", "src/util/bytes.h", "src/util/json.c"],
 [("buffer_grow, buffer_append, buffer_splice, buffer_add_*", "src/util/bytes.c"), ("bprintf", "src/util/bytes.c"), ("hex_to_bytes", "src/util/bytes.c"), ("json_as_bytes, json_to_bytes", "src/util/json.c")],
 "bounded-exhaustive enumeration of conversions and operation sequences on the real code against a string model",
 "Exhaustive within the bounds. Under AddressSanitizer with exact-size buffers.")

prop("C09", "A beacon header is trusted only with the sync committee's signature",
 "A verifier accepts a beacon block header only if at least two thirds of the seats of the sync committee that is responsible for it (or, as documented, of the preceding period) have signed exactly this header for this chain and fork, or if it is linked to a header signed that way by an unbroken chain of parent roots or by a Merkle proof to a block-root location of the signed header's state. Every such honest proof is accepted, whatever was verified before in the same process; any other signature, participation, committee, domain, header, chain link or state location is rejected.",
 ["inputs", "histories", "configurations"], "all participation counts 0..512 from several starting seats; all single bit edits of the participation bits, every byte of signature and header; all 4 chains x forks x fork-boundary slots x signing fork; all assignments of committees to stored periods; all orders of verifications in one process; all chain lengths up to 6 with every link edit; every block-root location class and every other state location class of deneb and electra states; all key multisets up to 4 keys x participation subsets x key formats for the aggregation",
 "tests replay recorded mainnet signatures: none has a low participation, a forged location or a repeated key",
 ["src/chains/eth/verifier/beacon_header.c", "src/util/crypto.c"],
 [("c4_verify_header / c4_verify_blockroot_signature", "src/chains/eth/verifier/beacon_header.c"), ("c4_verify_headers_proof / c4_verify_historic_proof", "src/chains/eth/verifier/beacon_header.c"), ("blst_verify / key aggregation", "src/util/crypto.c")],
 "bounded-exhaustive enumeration of signed headers, links and edits on the real verifier in a simulated beacon chain",
 "Exhaustive within the stated edit classes; the pairing arithmetic of blst is replaced by an ideal signature scheme, sha256 collisions are assumed not to occur. Under AddressSanitizer.")
prop("C10", "A client adopts a sync committee only with valid evidence",
 "A light client comes to trust the sync committee of a period only through the trusted checkpoint (the block with exactly this root and the committee proven in its state) or through an update signed by at least two thirds of an already trusted committee, with the next committee and the finalized header proven in the signed state. Gaps longer than the weak subjectivity period of the chain are adopted only if the checkpoint server confirms the finalized block of the last update, whether the updates come from the network or with the proof. Every honest sequence of updates is adopted, and malformed, truncated, misdirected or failing answers end in an error without reading out of bounds or hanging.",
 ["inputs", "histories", "faults"], "every single edit of every field of bootstrap and update on 4 chains and both forks, both transports, gaps of 1 and 2; all fork-boundary slots; all orders, omissions and repetitions of up to 4 (5) updates; all gaps around the weak subjectivity period x honest or forked chains x 9 checkpoint-server answers x over-delivery; 3600+ truncations, lengths and offsets of answers",
 "tests replay recorded updates of honest nodes; none is forged, malformed, over-long or beyond the weak subjectivity period",
 ["src/chains/eth/verifier/sync_committee.c", "src/chains/eth/verifier/sync_committee_state.c"],
 [("update_light_client_update, update_from_lc_sync_data", "src/chains/eth/verifier/sync_committee.c"), ("c4_process_light_client_updates", "src/chains/eth/verifier/sync_committee.c"), ("c4_handle_bootstrap, c4_check_weak_subjectivity", "src/chains/eth/verifier/sync_committee_state.c")],
 "bounded-exhaustive enumeration of light client data, edits and server answers on the real verifier in a simulated beacon chain",
 "Exhaustive within the stated edit classes and sequence lengths; ideal signatures. An attacker's state naming a genuine finalized checkpoint cannot be detected by the design of the weak subjectivity check and is outside. Under AddressSanitizer.")
prop("C11", "The stored sync state stays consistent across histories and crashes",
 "Whatever sequence of verifications a client went through, and if it was killed at any write or in the middle of one, or its storage refuses writes or holds arbitrary bytes, it never accepts a forged header afterwards and it ends with an answer or an error. After a crash it accepts honest proofs again. The list of stored periods has no duplicates, respects the configured limit, keeps the oldest and the newest period, every listed period has its real committee, and no keys remain for periods not listed.",
 ["histories", "crash points", "faults"], "all sequences of up to 5 (6) stored periods out of 5 with limits 1-4, all limits 0-12 x 14 stores x 3 orders; all 31 sets of known periods x signer x limit x used or fresh; all histories of up to 4 (5) verifications over 6 periods and 4 limits; every write as crash point for 5 start states x 4 limits x 3 targets x 2 chains; 23 torn lengths at every write; every write as first failing one; state records of all lengths 0-44 and key records around every valid length",
 "tests start from a fixed state, use one verification and never crash",
 ["src/chains/eth/verifier/sync_committee_state.c"],
 [("c4_set_sync_period, cleanup_old_periods", "src/chains/eth/verifier/sync_committee_state.c"), ("get_validators_from_cache, c4_get_validators", "src/chains/eth/verifier/sync_committee_state.c"), ("c4_try_sync_from_next_period", "src/chains/eth/verifier/sync_committee_state.c")],
 "exhaustive enumeration of histories, crash points, torn and failing writes on the real code with an instrumented storage",
 "Exhaustive within the bounds; crashes are modelled at storage-plugin calls (set, delete) with prefix tearing; ideal signatures. Under AddressSanitizer.")
prop("C12", "Account and storage answers are those of the signed block's state",
 "For eth_getBalance, eth_getTransactionCount, eth_getCode, eth_getStorageAt and eth_getProof a verifier returns exactly the values which the state of the signed block holds for the requested address and storage keys, including zero for missing accounts and keys, and only if the block is the one asked for by number or hash. Every honest proof is accepted. A proof made for another address, key, block or method, with any part changed, exchanged, dropped or added, with data supplied by the prover or with arguments which do not form a valid question is never answered with anything else than that value.",
 ["inputs", "configurations"], "all questions (5 methods x existing, empty and missing accounts x present, diverging and absent keys x latest/hash/number) over 3 state sizes, 2 chains, 2 header proofs; all pairs (proof made for question, question asked); every byte of every part of the proof changed; all drops, cuts, repeats, swaps and exchanges of nodes and storage proofs; all combinations of 13 address, 14 key and 15 block arguments; made-up account and storage leaves of every length",
 "tests replay a handful of recorded proofs, none of a missing account or key, none with several keys and none given for a different question",
 ["src/chains/eth/verifier/verify_account_proof.c", "src/chains/eth/verifier/eth_account.c", "src/util/patricia.c"],
 [("verify_account_proof", "src/chains/eth/verifier/verify_account_proof.c"), ("eth_verify_account_proof_exec, verify_storage", "src/chains/eth/verifier/eth_account.c"), ("eth_verify_state_proof, eth_account_verify_data", "src/chains/eth/verifier/eth_account.c")],
 "bounded-exhaustive enumeration of questions, proofs and edits on the real verifier in a simulated chain, against the state itself",
 "Exhaustive within the stated questions and edit classes; ideal signatures, no hash collisions. Which nodes are repeated in the answer of eth_getProof is not compared for changed proofs. Under AddressSanitizer.")
prop("C13", "Transaction answers are exactly a transaction of the signed block",
 "For eth_getTransactionByHash, eth_getTransactionByBlockHashAndIndex and eth_getTransactionByBlockNumberAndIndex a verifier returns the transaction with exactly the requested hash, or at exactly the requested index of the requested block, with every field (block, index, sender, fees, signature, lists) as it stands in the block whose header is signed. Every honest proof is accepted. A proof of another transaction, index or block, with any part changed or exchanged, with a transaction hidden under another value of the block, with prover supplied data or for malformed arguments is never answered with anything else.",
 ["inputs", "configurations"], "550 transactions of all 5 types (boundary values of every field) x 3 methods x 4 chains x 2 forks; all pairs (proof of transaction, question); all combinations of block and index arguments; every byte of every part of the proof changed, also when the changed transaction itself is asked for; all exchanges of transaction and index; drops, inserts, cuts and swaps of nodes; transactions hidden below 20 places of the block at 3 depths and 3 paths",
 "tests replay a handful of recorded proofs for the transaction they were made for",
 ["src/chains/eth/verifier/verify_tx_proof.c", "src/chains/eth/verifier/eth_tx.c"],
 [("verify_tx_proof, verify_args, verify_merkle_proof", "src/chains/eth/verifier/verify_tx_proof.c"), ("c4_write_tx_data_from_raw, c4_tx_verify_tx_hash", "src/chains/eth/verifier/eth_tx.c")],
 "bounded-exhaustive enumeration of transactions, proofs, questions and edits on the real verifier in a simulated chain",
 "Exhaustive within the stated transactions and edit classes; ideal BLS signatures, real ECDSA, no hash collisions. Under AddressSanitizer.")
prop("C14", "Receipt answers are those of the transaction in the signed block",
 "For eth_getTransactionReceipt a verifier returns the receipt of exactly the transaction with the requested hash, with block, index, type, sender, recipient, cumulative gas, status, bloom and every log (address, topics, data, in the same order, none missing or added) as they stand in the block whose header is signed. Every honest proof is accepted. A proof of another transaction, with any part changed, dropped or exchanged, with fields hidden or added by the mask, or asked for by another method or malformed arguments is never answered with anything else; malformed receipts are rejected without reading out of bounds. The logIndex is documented as unverified and excluded.",
 ["inputs", "configurations"], "4 chains x 2 forks x 9 block sizes up to 300 transactions (index keys over every RLP boundary); 10 kinds of transactions x 32 receipts x 6 gas values; all pairs (proof, question, data); all exchanges of transaction, index and receipt proof; every byte of data and proof changed; all near masks of the receipt (thorough: all 32768); all list edits; 1200 malformed receipts",
 "tests replay three recorded receipts with the data they were recorded with",
 ["src/chains/eth/verifier/verify_receipt_proof.c", "src/chains/eth/verifier/eth_tx.c"],
 [("verify_receipt_proof", "src/chains/eth/verifier/verify_receipt_proof.c"), ("c4_tx_verify_receipt_data, c4_tx_verify_receipt_proof", "src/chains/eth/verifier/eth_tx.c")],
 "bounded-exhaustive enumeration of blocks, proofs, questions and edits on the real verifier in a simulated chain",
 "Exhaustive within the stated edit classes; ideal BLS signatures, real ECDSA, no hash collisions. Known findings: gasUsed and effectiveGasPrice cannot be derived from this proof. Under AddressSanitizer.")
prop("C15", "Every log of an answer is a log of a signed block matching the filter",
 "For eth_getLogs every log returned stands, with block, transaction, address, topics and data, in a receipt of a block whose header is signed, is returned at most as often as it occurs there, and matches address, topics, block range and block hash of the requested filter. For eth_verifyLogs the given logs are accepted exactly if all of them are such logs. Every honest proof is accepted; a proof with any part changed, exchanged, dropped or repeated, of other logs, with supplied data or for arguments which are no filter never gives another answer, and verification ends promptly. The logIndex and the completeness of the list are not part of the proof and excluded.",
 ["inputs", "configurations"], "a chain of 3 blocks, 6 transactions, 10 logs (repeated ones, 0 to 4 topics); all 726 filters (6 address, 11 topics and 11 block conditions) x every single log and all of them; all subsets up to 3 logs in both orders (thorough: all 1024); for 4 sets of logs every byte of data and proof changed, all list edits, all exchanges of up to two fields with every other log; for eth_verifyLogs every character of the given logs changed by 4 others, all fields replaced by 11 values, removed or exchanged",
 "tests replay recorded answers of a few filters, all of them honest",
 ["src/chains/eth/verifier/verify_logs_proof.c", "src/chains/eth/verifier/eth_tx.c"],
 [("verify_logs_proof, verif_block, verify_tx, matches_filter", "src/chains/eth/verifier/verify_logs_proof.c"), ("c4_tx_verify_log_data", "src/chains/eth/verifier/eth_tx.c")],
 "bounded-exhaustive enumeration of filters, log sets, proofs and edits on the real verifier in a simulated chain",
 "Exhaustive within the stated chain and edit classes; block tags (latest, earliest) are not conditions a stateless verifier can check. Under AddressSanitizer.")
prop("C16", "Block answers are exactly the requested signed block",
 "For eth_getBlockByHash and eth_getBlockByNumber a verifier returns the block with exactly the requested hash or number (or, for a tag, any signed block), with every field, every transaction (hash or full content with its sender, in order, none missing) and every withdrawal as it stands in the execution payload of a block whose header is signed; for eth_blockNumber the number of such a block. Every honest proof is accepted. A proof of another block, with any part changed, moved or exchanged, with data supplied by the prover or with malformed arguments is never answered with anything else.",
 ["inputs", "configurations"], "4 chains x 2 forks x header proofs x sizes of the transaction list; boundary values of every field of the payload; blocks of all transaction types, invalid and empty ones at every place; all pairs (proof of block, argument: hashes, numbers, tags, malformed ones); every byte of data, payload, branch and header changed; for block numbers every byte and all exchanges of number and timestamp",
 "tests replay a few recorded mainnet blocks for the question they were recorded for",
 ["src/chains/eth/verifier/verify_block.c", "src/chains/eth/verifier/eth_tx.c"],
 [("verify_block_proof, eth_set_block_data, matches_blocknumber, verify_block_number_proof", "src/chains/eth/verifier/verify_block.c"), ("c4_write_tx_data_from_raw", "src/chains/eth/verifier/eth_tx.c")],
 "bounded-exhaustive enumeration of blocks, proofs, questions and edits on the real verifier in a simulated chain",
 "Exhaustive within the stated blocks and edit classes; ideal BLS signatures, real ECDSA, no hash collisions. Known finding: withdrawalsRoot is an SSZ root (pinned by the repository's tests). Which block is the latest is not something a stateless proof shows. Under AddressSanitizer.")
prop("C17", "Raw transactions are decoded exactly or rejected",
 "Decoding a raw transaction (colibri_decodeTransaction) of any supported type returns every field exactly as encoded, the hash, and as sender the account whose key signed it. Bytes which are not exactly one well-formed transaction of a known type with every field in its range are rejected: nothing is cut off, misread, read or written out of bounds, and no sender is reported for content it did not sign.",
 ["inputs"], "2196 transactions: all 5 types x boundary values of every field, input lengths around every RLP boundary, access lists, blob hashes, authorizations, both parities, short r and s, chain ids up to 28 bits; for 8 transactions every cut and 24 changes of every byte; every field replaced by 40 items, removed, added (thorough: all pairs of fields); all 256 type bytes; all v from 0 to 299",
 "tests decode a few recorded transactions of mainnet",
 ["src/chains/eth/verifier/eth_tx.c", "src/chains/eth/verifier/verify_local.c", "src/chains/eth/verifier/rlp.c"],
 [("c4_write_tx_data_from_raw, c4_tx_create_from_address", "src/chains/eth/verifier/eth_tx.c"), ("build_access_list_ssz, build_authorization_list_ssz", "src/chains/eth/verifier/eth_tx.c"), ("colibri_decodeTransaction", "src/chains/eth/verifier/verify_local.c")],
 "bounded-exhaustive enumeration of transactions and changed encodings on the real decoder against a reference decoder and signer",
 "Exhaustive within the families; rejection of changed transactions is not demanded where a lenient decoder finds the same fields. Numbers above 64 bits of gas and fees may be rejected. Under AddressSanitizer.")

prop("C19", "A proof built from honest nodes is complete and accepted by the client",
 "For every provable question about every block an honest pair of nodes knows, the prover ends with a proof that a verifier in the client state it was told about accepts, giving exactly the right answer: for all tags, numbers and hashes, for signed and unsigned (skipped signature) blocks, for the clients' known periods, checkpoints or missing states, with sync data included or not, for historic blocks, across period boundaries and fork layouts and for the different habits of nodes. No honest question fails, loops or needs data the client was not given.",
 ["inputs", "configurations", "histories"], "every account, transaction, block and log question about every block of 9-block simulated chains x 4 networks x 2 fork layouts x 3 sets of unsigned blocks x 7 client states x server flags; historic blocks at 3 positions of a period; all alignments of 12 slots around a period end x 3 client states; nodes with compact storage keys or JSON beacon blocks",
 "tests replay recorded conversations of single questions with one client state",
 ["src/prover/prover.c", "src/chains/eth/prover/proof_account.c", "src/chains/eth/prover/proof_logs.c", "src/chains/eth/prover/historic_proof.c", "src/chains/eth/prover/beacon.c"],
 [("c4_prover_execute", "src/prover/prover.c"), ("c4_check_blockroot_proof", "src/chains/eth/prover/historic_proof.c"), ("c4_beacon_get_block_for_eth", "src/chains/eth/prover/beacon.c"), ("c4_proof_logs and the other proof_*.c", "src/chains/eth/prover/proof_logs.c")],
 "bounded-exhaustive enumeration of questions, blocks and client states; the real prover against simulated nodes, its proof checked by the real verifier and a reference answer",
 "Exhaustive over the listed questions of the simulated chains. eth_call, simulations, witness proofs and zk sync data are not included; empty log results cannot be proven by design.")
prop("C27", "The prover survives any answer of a node and never proves a wrong answer",
 "Whatever a node answers to any request of any question (errors, truncated or malformed documents, other blocks' data, forged values, wrong types and sizes) and in whatever order answers arrive, the prover stays in bounds, terminates with a proof or an error after a bounded number of requests, and a proof it returns either is the correct answer for the client or is rejected by the verifier; which block the tags latest, safe and finalized stand for is the word of the node. Malformed questions are answered with an error. The outcome does not depend on the order in which answers arrive.",
 ["inputs", "schedules", "faults"], "22 representative questions x every request of the conversation x every bad answer of the catalogue (structural edits of every JSON value, cuts, other requests' answers, errors) x faulty on one or on all nodes; all reachable states of a conversation under every order of arriving answers; every cut and edit of method and params",
 "tests answer with one recorded, well-formed response per request in one order",
 ["src/prover/prover.c", "src/chains/eth/prover", "src/util/state.c"],
 [("c4_prover_execute", "src/prover/prover.c"), ("c4_send_beacon_json, c4_send_eth_rpc", "src/chains/eth/prover/eth_req.c"), ("schema checks of answers", "src/chains/eth/prover/beacon.c")],
 "exhaustive fault injection and exploration of all arrival orders (breadth-first over conversation states) on the real prover",
 "One faulty request kind at a time; exhaustive over the catalogue of faults. Under AddressSanitizer.")
prop("C29", "Every question gives back all memory it used",
 "Whatever the question, answers, proof or failure, and at whatever point a conversation is abandoned, freeing the verification or proving context releases every allocation made for it, except those intentionally held by caches; nothing is released twice.",
 ["inputs", "faults", "histories"], "22 representative questions to the prover x every request x every bad answer, and abandoned after every step; verifications of the account, transaction, receipt, log, block, header, sync and dispatch families including forged and malformed proofs",
 "tests run a few questions and do not check for leaks on failing paths",
 ["src/prover/prover.c", "src/verifier/verify.c", "src/util/state.c", "src/chains/eth"],
 [("c4_prover_free", "src/prover/prover.c"), ("c4_verify_free_data", "src/verifier/verify.c"), ("c4_state_free", "src/util/state.c")],
 "exhaustive enumeration of failing and abandoned runs of the real code with every allocation accounted for",
 "Allocations are counted by wrapping malloc and free under AddressSanitizer; global caches are cleared before counting.")

prop("C30", "A call sees exactly the proven state and its own committed changes",
 "The result of an accepted eth_call, and the status, result and logs of an accepted colibri_simulateTransaction, are those of executing the requested call on the state of the requested signed block with the requested overrides: every balance, storage value and code the machine is given is the proven one, changed only by what the call itself has done in frames that were not reverted. Storage, balances and logs changed in a reverted frame leave no trace. An account, storage value or code that is not proven is never taken for a value, missing, zero or empty; code delivered by the proof, a node or the cache is only used for accounts with its hash. A call with an honest and sufficient proof is accepted, and the prover creates one from what honest nodes tell it, whichever way it asks them. No proof, override or request makes the verifier read or write outside of its memory or keep memory. Gas and the values of block and transaction context other than block hashes are not covered.",
 ["inputs", "histories", "configurations"], "5 accounts (contracts, a wallet, a missing one, two with the same code); every host operation in every frame, all programs of up to 3 operations in nested calls and delegate calls, committed, reverted or failed; all pairs of writes and reads across frames; every account, storage key and code left out of the proof; every source of code right or wrong; every kind of override; every bit of the proof; 1300 calls x ways to ask the nodes, blocks x references x clients, every request of the prover x every bad answer",
 "the tests run recorded calls and never a reverted frame, missing part, wrong code or nested write; without evmone none at all",
 ["src/chains/eth/verifier/call_evmone.c", "src/chains/eth/verifier/call_ctx.h", "src/chains/eth/verifier/verify_call.c", "src/chains/eth/verifier/verify_simulate.c", "src/chains/eth/verifier/eth_account.c", "src/chains/eth/verifier/state_overrides.c", "src/chains/eth/prover/proof_call.c"],
 [("eth_run_call_evmone_with_events, host_*", "src/chains/eth/verifier/call_evmone.c"), ("context_apply, create_changed_account, set_changed_storage", "src/chains/eth/verifier/call_ctx.h"), ("verify_call_proof", "src/chains/eth/verifier/verify_call.c"), ("eth_get_call_codes", "src/chains/eth/verifier/eth_account.c"), ("c4_proof_call, c4_get_eth_proofs", "src/chains/eth/prover/proof_call.c"), ("eth_parse_state_overrides", "src/chains/eth/verifier/state_overrides.c")],
 "exhaustive enumeration of small programs, proofs and histories run by the real verifier and EVM host, compared with a reference host holding the whole state",
 "The machine is a stand-in (see assumptions); the host, proof check, code handling and overrides are the real code.")

prop("C28", "A zk sync proof brings in only the committee it proves, with all witnesses",
 "With a zero-knowledge sync proof a client adopts exactly the committee of the period after the attested header, and only if the Groth16 proof verifies for this client's chain: its trust anchor, the hash tree root of the sent keys, the period, the attested header and the signature domain of that header's chain and fork; and only if every configured witness has signed a checkpoint that is the attested header or linked to it by parent roots. Every such honest proof is accepted in every state of the client; with anything changed, exchanged or proven for another chain, period, program or anchor nothing is adopted and the stored state stays as it was. The Groth16 verification accepts a proof exactly if the pairing equation holds for the registered key of the program and the given public inputs; points off the curve and proofs of a wrong length are rejected.",
 ["inputs", "configurations"], "3 chains x periods x slots x client states x distances of the checkpoint x witness sets; every bit of proof and program, every key, every byte of the headers and links, 16 kinds of forged statements, all lists of up to 3 (4) of 8 signatures x 8 witness sets; products of pairings over all logarithms -3..3 (-4..4) and large ones, Groth16 equations over 6 keys x all A, B in -3..3 x C off by -1..1, every bit of recorded proofs and inputs",
 "tests verify a few recorded proofs and never a wrong statement, missing witness or fork boundary",
 ["src/chains/eth/verifier/sync_committee.c", "src/chains/eth/zk_verifier/zk_verifier.c", "src/chains/eth/bn254/bn254.c"],
 [("update_from_zk_sync_data, verify_signatures", "src/chains/eth/verifier/sync_committee.c"), ("c4_verify_zk_proof", "src/chains/eth/zk_verifier/zk_verifier.c"), ("bn254_pairing_batch_check, bn254_g1_mul/add, bn254_g1/g2_from_bytes", "src/chains/eth/bn254/bn254.c")],
 "exhaustive enumeration of sync proofs on the real verifier with an ideal proof system, and of pairing and Groth16 equations on the real arithmetic against discrete logarithms",
 "G2 points of the proof are not checked for the prime-order subgroup (no G2 arithmetic in bn254.c); such points and the neutral element are outside the enumeration.")

prop("C20", "What provers share never changes, ages or loses an answer",
 "The shared cache hands a question only values put under the same key and not invalidated before, keeps every value alive as long as any open question works with it, and releases each value exactly once: at the latest by the cleanup after it expired or was invalidated and the last question using it ended; its statistics equal its contents, and after a cleanup unused values stay within the size limit. Whatever earlier or concurrent questions left in the caches (blocks, heads, finality, receipt trees, transaction locations), after whatever time, cleanup and growth of the chain, every honest question still ends with a proof the client accepts and the right answer.",
 ["histories", "schedules", "configurations"], "all sequences of up to 10 (12) operations of two questions on one key, 8 (9) of three questions, 7 (8) on two keys with different lifetimes, 7 (8) with sizes around the limit; growth of the table with values in use; all ordered pairs of 31 questions x {at once, 30 s, 10 min later with a grown chain} and x every round at which the first question pauses while the second one runs",
 "tests ask single questions; invalidation or expiry while another question uses the value never happens in them",
 ["src/prover/prover.c", "src/chains/eth/prover/beacon.c", "src/chains/eth/prover/proof_receipt.c", "src/chains/eth/prover/proof_logs.c", "src/chains/eth/prover/tx_cache.c"],
 [("c4_prover_cache_get/set/invalidate/cleanup, c4_prover_free", "src/prover/prover.c"), ("c4_beacon_cache_update_blockdata, eth_get_final_hash", "src/chains/eth/prover/beacon.c"), ("receipt trees", "src/chains/eth/prover/proof_receipt.c")],
 "bounded-exhaustive enumeration of operation sequences on the real cache against a reference model, and of pairs and interleavings of questions on the real prover",
 "Answers to tags may be as old as the documented lifetime of the cached head. Reorganisations of the chain are not modelled. Interleavings at the granularity of prover steps (the server runs them on one loop).")

prop("C22", "The log cache serves exactly the logs of the blocks it holds",
 "After any sequence of added blocks (new, repeated, skipped, older) and any capacity, the cache claims exactly the longest run of consecutive newest blocks that fits its capacity, and for every range and filter (addresses, topics, alternatives, wildcards) inside of it, it returns exactly the matching logs in the order of the chain, as a node does; every other range, and a block given by its hash, is left to the node. This also holds if blocks are added, evicted or the cache is switched off while a question is waiting for its receipts, and a proof built from the cached logs is accepted with the right answer.",
 ["histories", "inputs", "configurations"], "all sequences of up to 5 (6) added blocks out of 5 (6) x capacities 1-4 x all ranges x 3 filters; 300+ filters (1-40 addresses, 1-17 alternatives per topic position, wildcards) per range x 2 capacities; blocks by hash; 9 changes of the cache during a question x capacities; questions to the prover answered from the cache and verified",
 "tests add a few blocks to an empty cache and never rotate it",
 ["src/chains/eth/prover/logs_cache.c", "src/chains/eth/prover/logs_cache.h", "src/chains/eth/prover/proof_logs.c"],
 [("push_block, c4_eth_logs_cache_add_block", "src/chains/eth/prover/logs_cache.c"), ("build_bloom_variants, build_match_index", "src/chains/eth/prover/logs_cache.c"), ("c4_eth_logs_cache_scan", "src/chains/eth/prover/logs_cache.c")],
 "bounded-exhaustive enumeration of histories, ranges and filters on the real cache against a reference model and the simulated chain",
 "Exhaustive within the bounds. Whether a trailing wildcard topic requires the log to have that many topics differs between nodes and is not part of it. Under AddressSanitizer.")
prop("C24", "The C API tells a host everything it needs and survives all it hands over",
 "For every conversation through the C API (the base of all bindings), every status text is valid JSON of the documented form; pending lists exactly the requests still open, each once and with its url, payload, type, encoding, method and excluded nodes; success is reported only for a finished proof, which is the one returned, or a verified answer, which is exactly the verified value, and error with the message. The outcome equals that of the inner interface however a host orders and splits its answers, and answers, errors, arguments, proofs and checkpoints of any content, handed over in memory of exactly their size and released afterwards, are never read out of bounds. Malformed arguments or checkpoints are never adopted, and freeing a context at any point releases everything once.",
 ["inputs", "schedules", "faults"], "22 representative questions proved and verified through the API; every subset of open requests answered first in every round; every request failing with each of 53 messages (quotes, control characters, 5000 bytes); abandoned in every round with none, one or all requests answered; every request x bad answers of the catalogue; 12 methods x 11 argument texts x 10 checkpoints x 6 proofs x 4 chains for verifying, 11 x 10 x 5 chains x 5 flags for proving",
 "the unit tests use the inner C functions; the texts and the memory handling of the API are not covered",
 ["bindings/colibri.c", "bindings/colibri.h", "src/util/state.c"],
 [("c4_prover_execute_json_status, c4_verify_execute_json_status, add_data_request", "bindings/colibri.c"), ("c4_req_set_response, c4_req_set_error", "bindings/colibri.c"), ("c4_verify_create_ctx, c4_verify_free_ctx", "bindings/colibri.c")],
 "exhaustive enumeration of conversations (splits, failures, abandonment, inputs) on the real API against a strict JSON reader and the inner interface",
 "Exhaustive within the bounds; after an error a host is expected to stop. The chain_id of a request is only compared with the request itself. Under AddressSanitizer with every allocation accounted for.")

prop("C23", "The TS and Python clients return only verified results and use every server",
 "Whatever the servers do (unreachable, HTTP errors, wrong content, good answers, in any combination and order), a call of a client ends; it succeeds if for every request of the library one of the configured servers of that kind gives an answer the library accepts, and fails otherwise. Only configured servers of the right kind are asked, with exactly the url, method, payload and encoding the library gave, every such server is tried before giving up, and one whose answer was rejected is not asked again for it, neither over the network nor from a cache. For a provable method the value returned is exactly the one the library verified and never one it did not verify or rejected; errors of the library and nodes reach the caller; the strategies for methods that cannot be proven behave as configured. Every context is freed once.",
 ["faults", "inputs", "configurations"], "all combinations of {good, rejected, HTTP 500, unreachable} over up to 6 (7) servers in every split over the kinds, for requests of every kind while proving and verifying; forms of requests; 1-2 rounds with 1-2 requests and all behaviours per request; cached answers; methods x method types x answers of provers and nodes x verdicts x result values; trusted checkpoints; strategies x wallets",
 "tests run one conversation with good servers from recorded files and a library that always agrees",
 ["bindings/emscripten/src/index.ts", "bindings/emscripten/src/wasm.ts", "bindings/emscripten/src/strategy.ts", "bindings/python/src/colibri/client.py"],
 [("handle_request, fetch_rpc, rpc, createProof, verifyProof", "bindings/emscripten/src/index.ts"), ("as_char_ptr, as_json", "bindings/emscripten/src/wasm.ts"), ("strategies", "bindings/emscripten/src/strategy.ts"), ("_handle_request, rpc, verify_proof, create_proof", "bindings/python/src/colibri/client.py")],
 "exhaustive enumeration of server behaviours and library outcomes on the real client code with a scripted library and network",
 "Exhaustive within the bounds. The library is a scripted stand-in following the protocol checked by C24; the clients run unmodified (TypeScript bundled with esbuild).")
prop("C25", "With verifyTransactions only the transaction the user asked for is broadcast",
 "With verifyTransactions set, whichever way a transaction is sent (rpc, request, with or without strategies), nothing is handed to the network unless the signed transaction, as decoded by the library, has the recipient, value, data, and every further field (sender, gas, fees, nonce, ...) the user gave; a missing recipient, value or data means none. A signer that signs something else, changes the request object, fails, or returns nothing leads to an error. A transaction that does match is broadcast once, exactly as signed, and its hash returned.",
 ["inputs", "faults"], "every field x all pairs of 8+ asked and signed values (missing, null, equal in another notation, different, empty), pairs of differing fields, all ways of sending x failing steps, signers which change the object they are given",
 "tests compare two hand-written transactions",
 ["bindings/emscripten/src/transactionVerifier.ts", "bindings/emscripten/src/index.ts"],
 [("verifyAndSendTransaction, compareTransactions", "bindings/emscripten/src/transactionVerifier.ts"), ("request, rpc", "bindings/emscripten/src/index.ts")],
 "exhaustive enumeration of asked/signed pairs, ways and failing steps on the real client with a scripted wallet and library",
 "Exhaustive within the bounds; decoding itself is C17. Fields the wallet fills in because the user gave none (gas, fees, nonce) are free.")
prop("C26", "Subscriptions and filters deliver every new block and log exactly once, in order",
 "For every growth of the chain and every pattern of failing or empty answers, a subscription (newHeads, logs) or filter (blocks, logs) delivers each new block or matching log exactly once and in order as soon as the node answers again, starting at the head at its creation (or the given fromBlock), independent of other subscriptions, also if polls overlap. After unsubscribing or uninstalling nothing is delivered, even if a poll is under way; unknown or foreign ids are refused, and failures never end a subscription.",
 ["histories", "schedules", "faults"], "3-4 polls x growth 0-2 blocks before each x every pattern of one or two failing or null calls; cancelled before or during every call; pairs of subscriptions; 6 kinds of fromBlock; overlapping filter polls",
 "tests poll once or twice with a node that always answers",
 ["bindings/emscripten/src/subscriptionManager.ts"],
 [("executePollLogic", "bindings/emscripten/src/subscriptionManager.ts"), ("getFilterChanges, schedulePoll, unsubscribe", "bindings/emscripten/src/subscriptionManager.ts")],
 "bounded-exhaustive enumeration of chain growth, failures, cancellation points and overlaps on the real manager with controlled timers and node",
 "Exhaustive within the bounds. Reorganisations, block 0, a toBlock or blockHash in the filter are not covered; whether the head at creation itself is delivered is left open.")
