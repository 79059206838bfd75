"""The checks: property -> explorers."""
A_TOY_BLS = "BLS is replaced by an ideal scheme (stubs/blst.c): a signature is valid exactly for the aggregate of the given keys and message."
A_EVM = "evmone, which is not part of the repository, is replaced by a stand-in that executes a small language on the host functions of the repository; the reference runs the same language on a host that holds the whole state; precompiles give back their input."
A_LIB = "The compiled library behind a client is a scripted stand-in that follows the request/retry protocol and the status texts checked by C24; network and timers are stand-ins under the control of the explorer."
CHECKS = {
 "C01": dict(explorers=[dict(harness="h_mpt")], rule="every case of every section of harness/h_mpt.cpp: tries in every insertion order, honest proofs, node edits, recombinations, arbitrary nodes"),
 "C02": dict(explorers=[dict(harness="h_rlp")], rule="every case of every section of harness/h_rlp.cpp: all short byte strings, boundary headers, encoder lengths"),
 "C03": dict(explorers=[dict(harness="h_ssz", args=["--prefix","valid/"])], rule="every case of the valid/ sections of harness/h_ssz.cpp: values of the type family, cuts, extensions, byte edits, offset tables, limits"),
 "C04": dict(explorers=[dict(harness="h_ssz", args=["--prefix","merkle/"])], rule="every case of the merkle/ sections of harness/h_ssz.cpp: roots, paths, pairs and triples of paths, proof edits"),
 "C05": dict(explorers=[dict(harness="h_ssz", args=["--prefix","build/"])], rule="every case of the build/ sections of harness/h_ssz.cpp: values through every builder and both JSON notations"),
 "C06": dict(explorers=[dict(harness="h_json", args=["--prefix","json/"])], rule="every case of the json/ sections of harness/h_json.cpp: all short texts and token sequences, documents, escapes"),
 "C07": dict(explorers=[dict(harness="h_json", args=["--prefix","schema/"])], rule="every case of the schema/ sections of harness/h_json.cpp: type x value pairs, objects, arrays, cached validation sequences"),
 "C08": dict(explorers=[dict(harness="h_json", args=["--prefix","conv/"])], rule="every case of the conv/ sections of harness/h_json.cpp: hex lengths x capacities, numbers, buffer operation sequences, format directives"),
 "C09": dict(explorers=[dict(harness="h_header")], assumptions=[A_TOY_BLS],
   rule="every case of every section of harness/h_header.cpp: participation counts, bit/signature/header edits, committees, domains, histories, chain links, historic locations, key aggregation"),
 "C10": dict(explorers=[dict(harness="h_sync", args=["--prefix","lc/"]), dict(harness="h_sync", args=["--log","--prefix","lc/malformed"])], assumptions=[A_TOY_BLS],
   rule="every case of the lc/ sections of harness/h_sync.cpp: field edits of bootstrap and updates, fork boundaries, update sequences, weak subjectivity gaps x server answers, malformed answers"),
 "C11": dict(explorers=[dict(harness="h_sync", args=["--prefix","state/"])], assumptions=[A_TOY_BLS],
   rule="every case of the state/ sections of harness/h_sync.cpp: store sequences, sets of known periods, verification histories, crash points, torn and refused writes, damaged records"),
 "C12": dict(explorers=[dict(harness="h_account")], assumptions=[A_TOY_BLS],
   rule="every case of every section of harness/h_account.cpp: honest questions, proof/question pairs, byte edits, list edits, supplied data, arguments, made-up leaves"),
 "C13": dict(explorers=[dict(harness="h_tx", args=["--prefix","proof/"])], assumptions=[A_TOY_BLS],
   rule="every case of the proof/ sections of harness/h_tx.cpp: honest proofs of the transaction family, proof/question pairs, arguments, byte, node and field edits, hidden transactions"),
 "C14": dict(explorers=[dict(harness="h_receipt", args=["--prefix","receipt/"])], assumptions=[A_TOY_BLS],
   rule="every case of the receipt/ sections of harness/h_receipt.cpp: honest receipts, values, proof/question/data pairs, byte, mask and list edits, malformed receipts"),
 "C15": dict(explorers=[dict(harness="h_receipt", args=["--prefix","logs/"])], assumptions=[A_TOY_BLS],
   rule="every case of the logs/ sections of harness/h_receipt.cpp: filters, subsets, byte, list and field edits, arguments, eth_verifyLogs"),
 "C16": dict(explorers=[dict(harness="h_block", args=["--prefix","block/"])], assumptions=[A_TOY_BLS],
   rule="every case of harness/h_block.cpp: honest blocks, field values, transaction lists, proof/question pairs, byte edits, block numbers"),
 "C17": dict(explorers=[dict(harness="h_tx", args=["--prefix","decode/"])],
   rule="every case of the decode/ sections of harness/h_tx.cpp: the transaction family, byte edits, cuts, replaced fields, type bytes, v values, arguments"),
 "C18": dict(explorers=[dict(harness="h_dispatch")], assumptions=[A_TOY_BLS],
   rule="every case of harness/h_dispatch.cpp: method x proof x data, arguments, names, chains, frames, local methods"),
 "C19": dict(explorers=[dict(harness="h_prover", variant="fast")], assumptions=[A_TOY_BLS],
   rule="every case of every section of harness/h_prover.cpp: question x block x reference x client state x flags x chain x fork layout, historic blocks, period boundaries, node habits"),
 "C27": dict(explorers=[dict(harness="h_provfault", args=["--prefix","fault/"]), dict(harness="h_provfault", args=["--prefix","order"]), dict(harness="h_provfault", args=["--prefix","question/"]), dict(harness="h_provfault", args=["--log","--prefix","order"])], assumptions=[A_TOY_BLS],
   rule="every case of the fault/, order and question/ sections of harness/h_provfault.cpp: every request of every representative question x every bad answer on one or all nodes; all orders in which answers arrive; malformed questions"),
 "C29": dict(explorers=[dict(harness="h_provfault", args=["--leaks","--prefix","leak/"])] + [dict(harness=h, args=["--leaks","--prefix",p]) for h, p in (
      ("h_account","account/lists"),("h_account","account/binding"),("h_tx","decode/"),("h_tx","proof/binding"),("h_receipt","logs/verify"),("h_receipt","receipt/malformed"),("h_receipt","logs/filter"),
      ("h_block","block/number"),("h_header","historic"),("h_header","chain"),("h_sync","lc/"),("h_dispatch",""))], assumptions=[A_TOY_BLS],
   rule="every case of the leak/ sections of harness/h_provfault.cpp and of the listed sections of the verifier harnesses, with every allocation made by the code under test counted until the context is freed"),
 "C30": dict(explorers=[dict(harness="h_call", variant="evm")] + [dict(harness="h_provcall", variant="evm", args=a) for a in (["--prefix","prove/"],["--prefix","fault/"],["--prefix","question/"],["--leaks","--prefix","leak/"],["--log","--prefix","prove/blocks"])] + [dict(harness="h_call", variant="evm", args=["--leaks","--prefix",p]) for p in ("call/operations","call/codes","call/overrides","call/malformed","call/value")], assumptions=[A_TOY_BLS, A_EVM],
   rule="every case of harness/h_call.cpp: single operations in every frame, all small programs of nested calls committed or reverted, every part of the proof left out, codes from proof, node and cache, overrides, requests, every bit of the proof; and of harness/h_provcall.cpp: calls proven by the real prover asking simulated nodes with traces or access lists, blocks x references x clients, overrides, every request x every bad answer"),
 "C20": dict(explorers=[dict(harness="h_cache", variant="fast", args=["--prefix","ops/"]), dict(harness="h_cache", args=["--prefix","pair/"])], assumptions=[A_TOY_BLS],
   rule="every sequence of cache operations up to the depth of each ops/ section of harness/h_cache.cpp; every ordered pair of questions x gap or pause of the pair/ sections"),
 "C21": dict(explorers=[dict(harness="h_txcache", variant="fast")],
   rule="all operation sequences over colliding keys up to the depth bound; all insertion orders x block groupings x step-wise evictions; limits around the table size"),
 "C22": dict(explorers=[dict(harness="h_logscache")], assumptions=[A_TOY_BLS],
   rule="every case of harness/h_logscache.cpp: histories of added blocks x limits x ranges, filters, block hashes, changes of the cache during a question, questions to the prover"),
 "C24": dict(explorers=[dict(harness="h_capi")], assumptions=[A_TOY_BLS],
   rule="every case of harness/h_capi.cpp: honest conversations, partly answered rounds, failing requests x messages, abandoned conversations, bad answers, inputs of a host"),
 "C23": dict(explorers=[dict(harness="h_tsclient", variant="node"), dict(harness="h_pyclient", variant="py")], assumptions=[A_LIB],
   rule="every case of harness/host/h_tsclient.mjs and h_pyclient.py: behaviours of all configured servers, forms of requests, rounds, cached answers, methods x method types x proofs x verdicts, checkpoints, strategies"),
 "C25": dict(explorers=[dict(harness="h_tstx", variant="node")], assumptions=[A_LIB],
   rule="every case of harness/host/h_tstx.mjs: pairs of asked and signed values of every field, pairs of fields, ways to send, failing steps, signers which change the transaction"),
 "C26": dict(explorers=[dict(harness="h_tssubs", variant="node")], assumptions=[A_LIB],
   rule="every case of harness/host/h_tssubs.mjs: growth of the chain x failing calls per poll, cancelling at every call, pairs of subscriptions, start blocks, overlapping polls"),
 "C28": dict(explorers=[dict(harness="h_zk", variant="fast"), dict(harness="h_pairing", variant="fast")], assumptions=[A_TOY_BLS, "in h_zk an ideal proof system: a proof exists for every statement the attacker can prove and for no other; h_pairing explores the real one"],
   rule="every case of harness/h_zk.cpp (statements x keys x headers x witnesses x links x client states) and harness/h_pairing.cpp (products of pairings and Groth16 equations over known logarithms, group law, changed bits of points, proofs and inputs)"),
}
