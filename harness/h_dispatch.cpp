// C18: what a proof is accepted for, methods answered without a proof, and the frame of a request
#include "tx.hpp"
using namespace mc;
using namespace world;
static std::string I(uint64_t x) { return std::to_string(x); }
static const uint64_t BASE = 7000000000ull;
enum Kind { NOPROOF = -1, LOCAL = -2, UNPROVEN = -3, UNKNOWN = -4 };
struct M { std::string name; int kind; std::string args; };
static std::vector<std::string> variants(const std::string& m) { // names which are not the method
  std::vector<std::string> r = {m + " ", " " + m, m + "s", m.substr(0, m.size() - 1), std::string("x") + m};
  std::string u = m; for (auto& c : u) c = toupper(c); r.push_back(u);
  u = m; u.back() ^= 0x20; r.push_back(u);
  return r;
}
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store();
  // ---- a block with an account, transactions, receipts and logs
  struct W { Exec x; std::vector<V> proofs; std::vector<std::string> pnames; std::vector<int> pkind; V rdata, ldata; std::vector<M> ms; Tx t0; };
  auto make = [&](int ci) {
    W w;
    const Chain& ch = chain(ci);
    Bytes addr = Bytes(20, 0xaa), code = S("some code");
    Trie  st; st.set(ref::keccak(be(7, 32)), rlp_str(B({9})));
    Trie  db; db.set(ref::keccak(addr), rlp_list({rlp_u64(3), rlp_u64(77), rlp_str(st.root()), rlp_str(ref::keccak(code))}));
    Block k;
    std::vector<Tx> ts;
    for (int i = 0; i < 2; i++) { Tx t = base_tx(i * 2, ch.id); t.nonce = i; ts.push_back(t.sign()); k.txs.push_back(ts[i].raw); }
    w.t0 = ts[0];
    Bytes topic = tag32("dtopic"), laddr = Bytes(20, 0xbb), ldat = S("log data");
    Bytes lg = rlp_list({rlp_str(laddr), rlp_list({rlp_str(topic)}), rlp_str(ldat)});
    Trie  rc;
    for (int i = 0; i < 2; i++) rc.set(rlp_u64(i), cat(i ? B({2}) : Bytes(), rlp_list({rlp_u64(1), rlp_u64(21000 * (i + 1)), rlp_str(Bytes(256)), rlp_list({lg})})));
    k.number = 21000700; k.hash = tag32("dblock" + I(ci)); k.baseFee = le(BASE, 32); k.receiptsRoot = rc.root(); k.stateRoot = db.root();
    w.x = make_exec(ch, exec_slot(ch, 0), k, "d" + I(ci));
    auto& x = w.x;
    V L = cont({{"blockHash", bv(k.hash)}, {"blockNumber", u(k.number, 8)}, {"transactionHash", bv(ts[0].hash)}, {"transactionIndex", u(0, 4)}, {"address", bv(laddr)}, {"logIndex", u(0, 4)}, {"removed", u(0, 1)}, {"topics", h32list({topic}, 8)}, {"data", bl(ldat, 1073741824)}});
    w.ldata = un(D_LOGS, list({L}, 1024, false, 0, false));
    w.rdata = un(D_RECEIPT, cont({{"_optmask", u(0x3ffe, 4)}, {"blockHash", bv(k.hash)}, {"blockNumber", u(k.number, 8)}, {"transactionHash", bv(ts[0].hash)}, {"transactionIndex", u(0, 4)}, {"type", u(0, 1)}, {"from", bv(key_address(ts[0].key))}, {"to", bl(ts[0].to, 20)}, {"cumulativeGasUsed", u(21000, 8)}, {"gasUsed", u(21000, 8)}, {"logs", list({L}, 256, false, 0, false)}, {"logsBloom", bv(Bytes(256))}, {"status", u(1, 1)}, {"effectiveGasPrice", u(ts[0].price(BASE), 8)}, {"depositNonce", u(0, 8)}, {"depositReceiptVersion", u(0, 4)}}));
    auto add = [&](const char* n, int kind, V p) { w.pnames.push_back(n); w.pkind.push_back(kind); w.proofs.push_back(p); };
    auto acc = [&](bool sto) { std::vector<V> sp; if (sto) sp.push_back(cont({{"key", bv(be(7, 32))}, {"proof", nodelist(st.prove(ref::keccak(be(7, 32))), 1024)}})); return cont({{"accountProof", nodelist(db.prove(ref::keccak(addr)), 256)}, {"address", bv(addr)}, {"storageProof", list(sp, 256, false, 0, false)}, {"state_proof", state_proof(x, 0)}}); };
    V txp = bl(ts[0].raw, 1073741824);
    std::vector<std::string> t0 = {"transactions", "0"};
    add("nothing", NOPROOF, none());
    add("account", P_ACCOUNT, un(P_ACCOUNT, acc(false)));
    add("storage", P_ACCOUNT, un(P_ACCOUNT, acc(true)));
    add("transaction", P_TX, un(P_TX, cont({{"transaction", txp}, {"transactionIndex", u(0, 4)}, {"blockNumber", u(k.number, 8)}, {"blockHash", bv(k.hash)}, {"baseFeePerGas", u(BASE, 8)}, {"proof", proof_below(x, {{"blockNumber"}, {"blockHash"}, {"baseFeePerGas"}, t0}, 64)}, {"header", x.h.v()}, {"header_proof", x.hp}})));
    add("receipt", P_RECEIPT, un(P_RECEIPT, cont({{"transaction", txp}, {"transactionIndex", u(0, 4)}, {"blockNumber", u(k.number, 8)}, {"blockHash", bv(k.hash)}, {"receipt_proof", nodelist(rc.prove(rlp_u64(0)), 64)}, {"block_proof", proof_below(x, {{"blockNumber"}, {"blockHash"}, {"receiptsRoot"}, t0}, 64)}, {"header", x.h.v()}, {"header_proof", x.hp}})));
    add("logs", P_LOGS, un(P_LOGS, list({cont({{"blockNumber", u(k.number, 8)}, {"blockHash", bv(k.hash)}, {"proof", proof_below(x, {{"blockNumber"}, {"blockHash"}, {"receiptsRoot"}, t0}, 1024)}, {"header", x.h.v()}, {"header_proof", x.hp}, {"txs", list({cont({{"transaction", txp}, {"transactionIndex", u(0, 4)}, {"proof", nodelist(rc.prove(rlp_u64(0)), 256)}})}, 256, false, 0, false)}})}, 256, false, 0, false)));
    add("no logs", P_LOGS, un(P_LOGS, list({}, 256, false, 0, false)));
    add("block", P_BLOCK, un(P_BLOCK, cont({{"executionPayload", un(x.blk.gnosis ? 1 : 0, get(x.body.v, "executionPayload"))}, {"proof", proof_below(x, {{}})}, {"header", x.h.v()}, {"header_proof", x.hp}})));
    add("block number", P_BLOCKNUMBER, un(P_BLOCKNUMBER, cont({{"blockNumber", u(k.number, 8)}, {"timestamp", u(k.timestamp, 8)}, {"proof", proof_below(x, {{"blockNumber"}, {"timestamp"}})}, {"header", x.h.v()}, {"header_proof", x.hp}})));
    add("call", P_CALL, un(P_CALL, cont({{"accounts", list({cont({{"accountProof", nodelist(db.prove(ref::keccak(addr)), 256)}, {"address", bv(addr)}, {"code", un(1, bl(code, 4194304))}, {"storageProof", list({}, 4096, false, 0, false)}})}, 256, false, 0, false)}, {"state_proof", state_proof(x, 0)}})));
    add("sync", P_SYNC, un(P_SYNC, cont({{"oldKeys", bv(committee(the_committee(ch)).keys)}, {"newKeys", bv(committee(the_committee(ch)).keys)}, {"syncCommitteeBits", bv(Bytes(64, 0xff))}, {"syncCommitteeSignature", bv(Bytes(96))}, {"gidx", u(1, 8)}, {"slot", u(x.h.slot, 8)}, {"proposerIndex", u(1, 8)}, {"proof", h32list({}, 256)}})));
    std::string A = qs(hx(addr)), h = qs(hx(k.hash)), n = qs(hxu(k.number)), t = qs(hx(ts[0].hash)), key = qs(hx(be(7, 32)));
    std::string jlog = "{\"address\":" + qs(hx(laddr)) + ",\"topics\":[" + qs(hx(topic)) + "],\"data\":" + qs(hx(ldat)) + ",\"blockHash\":" + h + ",\"blockNumber\":" + n + ",\"transactionHash\":" + t + ",\"transactionIndex\":\"0x0\",\"logIndex\":\"0x0\",\"removed\":false}";
    w.ms = {{"eth_call", P_CALL, "[{\"to\":" + A + ",\"data\":\"0x\"},\"latest\"]"}, {"colibri_simulateTransaction", P_CALL, "[{\"to\":" + A + ",\"data\":\"0x\"},\"latest\"]"},
            {"eth_getProof", P_ACCOUNT, "[" + A + ",[],\"latest\"]"}, {"eth_getBalance", P_ACCOUNT, "[" + A + ",\"latest\"]"}, {"eth_getCode", P_ACCOUNT, "[" + A + ",\"latest\"]"}, {"eth_getTransactionCount", P_ACCOUNT, "[" + A + ",\"latest\"]"}, {"eth_getStorageAt", P_ACCOUNT, "[" + A + "," + key + ",\"latest\"]"},
            {"eth_getBlockByHash", P_BLOCK, "[" + h + ",false]"}, {"eth_getBlockByNumber", P_BLOCK, "[" + n + ",false]"}, {"eth_getLogs", P_LOGS, "[{\"address\":" + qs(hx(laddr)) + "}]"}, {"eth_verifyLogs", P_LOGS, "[" + jlog + "]"},
            {"eth_getTransactionReceipt", P_RECEIPT, "[" + t + "]"}, {"eth_getTransactionByHash", P_TX, "[" + t + "]"}, {"eth_getTransactionByBlockHashAndIndex", P_TX, "[" + h + ",\"0x0\"]"}, {"eth_getTransactionByBlockNumberAndIndex", P_TX, "[" + n + ",\"0x0\"]"}, {"eth_blockNumber", P_BLOCKNUMBER, "[]"}};
    for (const char* m : {"eth_newPendingTransactionFilter", "eth_newFilter", "eth_newBlockFilter", "eth_getFilterChanges", "eth_getFilterLogs", "eth_uninstallFilter", "eth_subscribe", "eth_unsubscribe"}) w.ms.push_back({m, NOPROOF, "[]"});
    for (const char* m : {"eth_chainId", "eth_accounts", "eth_protocolVersion", "web3_clientVersion", "net_version"}) w.ms.push_back({m, LOCAL, "[]"});
    w.ms.push_back({"web3_sha3", LOCAL, "[\"0x6869\"]"});
    w.ms.push_back({"colibri_decodeTransaction", LOCAL, "[" + qs(hx(ts[0].raw)) + "]"});
    for (const char* m : {"eth_getUncleByBlockHashAndIndex", "eth_getUncleByBlockNumberAndIndex", "eth_getBlockTransactionCountByHash", "eth_getBlockTransactionCountByNumber", "eth_feeHistory", "eth_blobBaseFee", "eth_createAccessList", "eth_estimateGas", "eth_gasPrice", "eth_getBlockReceipts", "eth_getUncleByBlockHash", "eth_getUncleByBlockNumber", "eth_getUncleCountByBlockHash", "eth_getUncleCountByBlockNumber", "eth_maxPriorityFeePerGas", "eth_sendRawTransaction"}) w.ms.push_back({m, UNPROVEN, "[]"});
    for (const char* m : {"", "e", "eth_", "foo", "eth_sign", "eth_sendTransaction", "debug_traceCall", "personal_sign", "web3_sha", "eth_blockNumbers"}) w.ms.push_back({m, UNKNOWN, "[]"});
    return w;
  };
  static W Ws[4] = {make(0), make(1), make(2), make(3)};
  auto D = [&](const W& w) { // data a prover may add: (name, value)
    std::vector<std::pair<std::string, V>> r = {{"nothing", none()}, {"hash", un(D_HASH, bv(tag32("forged")))}, {"bytes", un(D_BYTES, bl(S("forged"), 1073741824))}, {"no bytes", un(D_BYTES, bl({}, 1073741824))}, {"code", un(D_BYTES, bl(S("some code"), 1073741824))}, {"number", un(D_UINT256, u256(S("forged")))}, {"receipt", w.rdata}, {"logs", w.ldata}, {"no logs", un(D_LOGS, list({}, 1024, false, 0, false))},
      {"simulation", un(D_SIM, cont({{"_optmask", u(0x3ff, 4)}, {"blockNumber", u(1, 8)}, {"cumulativeGasUsed", u(1, 8)}, {"gasUsed", u(1, 8)}, {"logs", list({}, 1024, false, 0, false)}, {"logsBloom", bv(Bytes(256))}, {"status", u(1, 1)}, {"trace", list({}, 4096, false, 0, false)}, {"type", u(0, 1)}, {"returnValue", bl(S("x"), 1073741824)}}))}};
    return r;
  };
  auto honest_data = [&](const W& w, const std::string& m) -> V { return m == "eth_getTransactionReceipt" ? w.rdata : m == "eth_getLogs" ? w.ldata : m == "eth_getCode" ? un(D_BYTES, bl(S("some code"), 1073741824)) : none(); };
  auto local_answer = [&](const W& w, const std::string& m) -> std::string {
    if (m == "eth_chainId") return qs(hxu(w.x.ch->id));
    if (m == "eth_accounts") return "[]";
    if (m == "eth_protocolVersion") return qs("0x41");
    if (m == "net_version") return qs(I(w.x.ch->id));
    if (m == "web3_sha3") return qs(hx(ref::keccak(S("hi"))));
    return "?";
  };
  auto honest_kind = [&](const W& w, const M& m) { for (size_t i = 0; i < w.proofs.size(); i++) if (w.pkind[i] == m.kind && !(m.name == "eth_getStorageAt" && w.pnames[i] == "account")) return i; return (size_t) 0; };
  // the honest answer, "" if there is none
  auto truth = [&](const W& w, const M& m) -> std::string {
    static std::map<std::string, std::string> memo;
    std::string id = I(w.x.ch->id) + m.name + m.args;
    auto it = memo.find(id);
    if (it != memo.end()) return it->second;
    trust(w.x);
    Res r = verify(request(honest_data(w, m.name), w.proofs[honest_kind(w, m)]), m.name.c_str(), m.args, *w.x.ch);
    return memo[id] = r.accepted ? "answer:" + r.json : "";
  };
  auto allowed = [&](const M& m, int kind) { return m.kind == LOCAL ? true : m.kind >= 0 && kind == m.kind; };
  if (section("dispatch/honest"))
    for (int ci = 0; ci < 4; ci++)
      for (auto& m : Ws[ci].ms) {
        if (!next()) continue;
        const W& w = Ws[ci];
        std::string t = truth(w, m);
        outcome(hash64(m.name + t.substr(0, 20)));
        if (m.kind == P_CALL) continue; // needs an EVM
        bool want = m.kind == LOCAL || m.kind >= 0;
        if (want != (t != "")) { violation(want ? "honest:rejected" : "honest:unproven-accepted", m.name + m.args); continue; }
        if (m.kind == LOCAL) {
          std::string e = local_answer(w, m.name), got = nows(t.substr(7));
          if (m.name == "web3_clientVersion" ? (got.size() < 4 || got[0] != '"') : m.name == "colibri_decodeTransaction" ? jobj(t.substr(7))["hash"] != qs(hx(w.t0.hash)) : got != e) violation("local:wrong-answer", m.name + " " + got);
          trust(w.x); // no request at all
          Res r = verify({}, m.name.c_str(), m.args, *w.x.ch);
          if (!r.accepted || "answer:" + r.json != t) violation("local:needs-proof", m.name + " " + r.error);
        }
        else {
          Res r = verify({}, m.name.c_str(), m.args, *w.x.ch);
          if (r.accepted) violation("honest:accepted-without-proof", m.name + " " + r.json);
        }
        sample(m.name + m.args.substr(0, 60) + " -> " + nows(t).substr(0, 60));
      }
  // every method, with every kind of proof, with every kind of data
  if (section("dispatch/product"))
    for (int ci : {0, 2})
      for (auto& m : Ws[ci].ms)
        for (size_t p = 0; p < Ws[ci].proofs.size(); p++)
          for (size_t d = 0; d < 10; d++) {
            if (!next()) continue;
            const W& w = Ws[ci];
            auto ds = D(w)[d];
            trust(w.x);
            Res r = verify(request(ds.second, w.proofs[p]), m.name.c_str(), m.args, *w.x.ch);
            outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60)));
            if (!r.accepted) continue;
            std::string t = truth(w, m), det = m.name + m.args.substr(0, 90) + " proof: " + w.pnames[p] + ", data: " + ds.first + " -> " + nows(r.json).substr(0, 100);
            if (!allowed(m, w.pkind[p])) violation("dispatch:wrong-proof", det);
            else if (m.name == "eth_getLogs" && nows(r.json) == "[]") {} // completeness is not proven
            else if ("answer:" + r.json != t) violation("dispatch:forged-data", det + " instead of " + t);
          }
  // the arguments of every other method
  if (section("dispatch/args"))
    for (auto& m : Ws[0].ms)
      for (size_t p = 0; p < Ws[0].proofs.size(); p++) {
        std::set<std::string> as;
        for (auto& o : Ws[0].ms) as.insert(o.args);
        for (const char* a : {"[]", "{}", "null", "", "[null]", "[[]]", "[{}]", "[1]", "[true]", "\"x\"", "[\"\"]", "[\"0x\"]", "[\"0x0\"]"}) as.insert(a);
        for (auto& a : as) {
          if (!next()) continue;
          const W& w = Ws[0];
          trust(w.x);
          Res r = verify(request(honest_data(w, m.name), w.proofs[p]), m.name.c_str(), a, *w.x.ch);
          outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60)));
          if (r.accepted && !allowed(m, w.pkind[p])) violation("dispatch:wrong-proof", m.name + a.substr(0, 90) + " proof: " + w.pnames[p] + " -> " + nows(r.json).substr(0, 100));
        }
      }
  // the classes of methods on every chain; names which are not methods
  if (section("dispatch/class")) {
    std::vector<uint64_t> ids = {0, 1, 2, 5, 10, 100, 137, 8453, 10200, 42161, 11155111, 17000, 560048, ~0ull, 1ull << 32, (1ull << 32) + 1};
    for (auto id : ids)
      for (auto& m : Ws[0].ms) {
        if (!next()) continue;
        chain_type_t ct = c4_chain_type(id);
        auto is = [&](const std::string& n, int want, const char* what) {
          char* s = strdup(n.c_str());
          int   g = c4_get_method_type(id, s);
          free(s);
          step();
          if (g != want) violation(what, n + " on chain " + I(id) + ": class " + I(g) + " instead of " + I(want));
        };
        bool eth = ct == C4_CHAIN_TYPE_ETHEREUM;
        int  want = !eth || m.kind == UNKNOWN ? METHOD_UNDEFINED : m.kind == LOCAL ? METHOD_LOCAL : m.kind == UNPROVEN ? METHOD_UNPROOFABLE : METHOD_PROOFABLE;
        outcome(hash64(I(want)));
        is(m.name, want, "class:wrong");
        if (m.kind != UNKNOWN) for (auto& n : variants(m.name)) { bool known = false; for (auto& o : Ws[0].ms) if (o.name == n && o.kind != UNKNOWN) known = true; if (!known) is(n, METHOD_UNDEFINED, "class:variant"); }
      }
    for (auto id : {1ull, 11155111ull, 100ull, 10200ull}) { if (next() && c4_chain_type(id) != C4_CHAIN_TYPE_ETHEREUM) violation("class:chain", I(id)); }
  }
  // variants of method names are never answered
  if (section("dispatch/names"))
    for (auto& m : Ws[0].ms)
      for (auto& n : variants(m.name.empty() ? "x" : m.name)) {
        if (!next()) continue;
        bool known = false;
        for (auto& o : Ws[0].ms) if (o.name == n) known = true;
        if (known) continue;
        const W& w = Ws[0];
        for (size_t p = 0; p < w.proofs.size(); p++) {
          trust(w.x);
          Res r = verify(request(honest_data(w, m.name), w.proofs[p]), n.c_str(), m.args, *w.x.ch);
          if (r.accepted) violation("dispatch:unknown-method", n + " proof: " + w.pnames[p]);
        }
        if (verify({}, n.c_str(), m.args, *w.x.ch).accepted) violation("dispatch:unknown-method", n);
      }
  // proofs of one chain on another, with the same keys trusted there
  if (section("dispatch/chains"))
    for (int ci = 0; ci < 4; ci++)
      for (int cj = 0; cj < 4; cj++)
        for (auto& m : Ws[ci].ms) {
          if (m.kind < 0 || m.kind == P_CALL || ci == cj || !next()) continue;
          const W& w = Ws[ci];
          reset_store();
          std::vector<std::pair<uint32_t, int>> ps;
          for (int q = 0; q < 3; q++) ps.push_back({(uint32_t) chain(cj).period(w.x.h.slot) + q, the_committee(*w.x.ch)});
          put_periods(chain(cj), ps);
          Res r = verify(request(honest_data(w, m.name), w.proofs[honest_kind(w, m)]), m.name.c_str(), m.args, chain(cj));
          outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60)));
          if (r.accepted) violation("chains:other-chain", m.name + " of " + I(ci) + " on " + I(cj));
        }
  // the frame: version bytes, cuts, bytes added, selectors of the three unions
  if (section("dispatch/frame")) {
    const W& w = Ws[0];
    for (auto& m : w.ms) {
      if (!(m.kind >= 0 && m.kind != P_CALL) && m.name != "eth_chainId") continue;
      Bytes  rq = request(honest_data(w, m.name), w.proofs[m.kind >= 0 ? honest_kind(w, m) : 0]);
      std::vector<std::pair<std::string, Bytes>> es;
      for (int x = 0; x < 256; x++) { Bytes e = rq; e[0] = x; es.push_back({"version " + I(x), e}); }
      for (size_t i = 4; i < 16; i++) for (int x : {1, 2, 3, 4, 8, 16, 64, 128, 255}) { Bytes e = rq; e[i] ^= x; es.push_back({"offset byte " + I(i), e}); }
      for (size_t n : {(size_t) 0, (size_t) 1, (size_t) 4, (size_t) 15, (size_t) 16, (size_t) 17, rq.size() / 2, rq.size() - 2, rq.size() - 1}) es.push_back({"cut " + I(n), Bytes(rq.begin(), rq.begin() + std::min(n, rq.size()))});
      for (size_t n : {1, 4, 32, 100}) es.push_back({"added " + I(n), cat(rq, Bytes(n))});
      for (int f = 0; f < 3; f++) { // selectors
        size_t o = rq[4 + 4 * f] | rq[5 + 4 * f] << 8 | rq[6 + 4 * f] << 16 | (size_t) rq[7 + 4 * f] << 24;
        if (o < rq.size()) for (int x = 0; x < 256; x++) { Bytes e = rq; e[o] = x; es.push_back({"selector " + I(f) + "=" + I(x), e}); }
      }
      for (auto& e : es) {
        if (!next()) continue;
        trust(w.x);
        Res r = verify(e.second, m.name.c_str(), m.args, *w.x.ch);
        outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60)));
        if (!r.accepted) { if (e.second == rq) violation("frame:honest-rejected", m.name + " " + r.error); continue; }
        if (e.first.rfind("version", 0) == 0 && e.second[0] != 0) { violation("frame:other-chain-type", m.name + " " + e.first); continue; }
        if ("answer:" + r.json != truth(w, m) && !(m.name == "eth_getLogs" && nows(r.json) == "[]")) violation("frame:wrong-answer", m.name + " " + e.first + " " + nows(r.json).substr(0, 100));
      }
    }
  }
  // local methods: every answer exact whatever the arguments
  if (section("dispatch/local")) {
    const W& w = Ws[0];
    for (int l = 0; l <= 300; l++)
      for (int f : {0, 0x7f, 0xff}) {
        if (!next()) continue;
        Bytes d(l, (uint8_t) f); for (int i = 0; i < l; i++) d[i] ^= i * 7;
        Res r = verify({}, "web3_sha3", "[" + qs(hx(d)) + "]", *w.x.ch);
        if (!r.accepted || nows(r.json) != qs(hx(ref::keccak(d)))) violation("local:wrong-answer", "web3_sha3 of " + I(l) + " bytes: " + r.json + r.error);
      }
    for (const char* a : {"[]", "{}", "null", "", "[null]", "[[]]", "[{}]", "[12]", "[true]", "[\"\"]", "[\"hello\"]", "[\"0xzz\"]", "[\"0x6869zz\"]", "[\"0x686\"]", "[\"6869\"]", "[\"0x68 69\"]", "[\"0X6869\"]", "[[\"0x6869\"]]", "\"0x6869\"", "[\"0x6869"}) {
      if (!next()) continue;
      Res r = verify({}, "web3_sha3", a, *w.x.ch);
      outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60)));
      bool maybe = std::string(a) == "[\"6869\"]" || std::string(a) == "[\"0X6869\"]"; // a lenient reading
      if (r.accepted && std::string(a) == "[\"0x686\"]" && nows(r.json) == qs(hx(ref::keccak(B({0x06, 0x86}))))) continue; // bytes may be written like numbers
      if (r.accepted && !(maybe && nows(r.json) == qs(hx(ref::keccak(S("hi")))))) violation("local:malformed-argument", std::string("web3_sha3") + a + " -> " + nows(r.json));
    }
    for (const char* m : {"eth_chainId", "eth_accounts", "eth_protocolVersion", "web3_clientVersion", "net_version"})
      for (int ci = 0; ci < 4; ci++)
        for (const char* a : {"[]", "{}", "null", "", "[\"0x1\"]", "[2,3]"})
          for (size_t d = 0; d < 10; d++) {
            if (!next()) continue;
            const W& x = Ws[ci];
            Res r = verify(request(D(x)[d].second, none()), m, a, *x.x.ch);
            std::string e = local_answer(x, m);
            if (r.accepted && e != "?" && nows(r.json) != e) violation("local:wrong-answer", std::string(m) + a + " " + r.json);
            if (!r.accepted && std::string(a) == "[]") violation("local:rejected", std::string(m) + " data " + D(x)[d].first + " " + r.error);
          }
  }
  finish();
  return 0;
}
