// A simulated chain of blocks with the nodes (beacon node, execution node, chain store) a prover asks for data. Built
// from the specifications only; the blocks carry every kind of operation.
#pragma once
#include "tx.hpp"
#include "carrier.hpp"
#include "wire.hpp"
#define main main_of_account
namespace acc {
#include "h_account.cpp"
}
#undef main
#define main main_of_receipt
namespace rcp {
#include "h_receipt.cpp"
}
#undef main
#define main main_of_block
namespace bk {
#include "h_block.cpp"
}
#undef main
#define main main_of_sync
namespace syn {
#include "h_sync.cpp"
}
#undef main
namespace sim {
using namespace mc;
using namespace world;
inline std::string I(uint64_t x) { return std::to_string(x); }
inline Bytes b96(const std::string& s) { return cat(cat(tag32(s), tag32(s + "1")), tag32(s + "2")); }
inline Bytes b48(const std::string& s) { Bytes r = cat(tag32(s), tag32(s + "1")); r.resize(48); return r; }
// ---- the body of a beacon block with n operations of every kind
inline V beacon_body(const Block& blk, const Bits& sbits, const Bytes& ssig, bool electra, int n, const std::string& s) {
  auto header = [&](int i) { Header h; h.slot = 100 + i; h.proposer = i; h.parent = tag32(s + "hp"); h.state = tag32(s + "hs"); h.body = tag32(s + "hb" + I(i)); return h.v(); };
  auto cp     = [&](int i) { return cont({{"epoch", u(1000 + i, 8)}, {"root", bv(tag32(s + "cp" + I(i)))}}); };
  auto adata  = [&](int i) { return cont({{"slot", u(5000 + i, 8)}, {"index", u(i, 8)}, {"beacon_block_root", bv(tag32(s + "bbr" + I(i)))}, {"source", cp(i)}, {"target", cp(i + 1)}}); };
  auto ia     = [&](int i) { std::vector<V> ix; for (int k = 0; k < 3 + i * 2; k++) ix.push_back(u(300000 + 7 * k, 8)); return cont({{"attesting_indices", list(ix, electra ? 131072 : 2048, true, 8, true)}, {"data", adata(i)}, {"signature", bv(b96(s + "ia" + I(i)))}}); };
  std::vector<V> ps, as, at, de, ex, ch, kz, rd, rw, rc;
  for (int i = 0; i < n; i++) {
    auto sh = [&](int k) { return cont({{"message", header(i * 2 + k)}, {"signature", bv(b96(s + "ps" + I(i * 2 + k)))}}); };
    ps.push_back(cont({{"signed_header_1", sh(0)}, {"signed_header_2", sh(1)}}));
    if (i < (electra ? 1 : 2)) as.push_back(cont({{"attestation_1", ia(i * 2)}, {"attestation_2", ia(i * 2 + 1)}}));
    std::vector<bool> ab(10 + i * 9); for (size_t k = 0; k < ab.size(); k += 2) ab[k] = true;
    std::vector<bool> cb(64); cb[i] = true;
    std::vector<std::pair<std::string, V>> f = {{"aggregation_bits", bitl(ab, electra ? 131072 : 2048)}, {"data", adata(i)}, {"signature", bv(b96(s + "at" + I(i)))}};
    if (electra) f.push_back({"committee_bits", bitv(cb)});
    at.push_back(cont(f));
    std::vector<V> dp; for (int k = 0; k < 33; k++) dp.push_back(bv(tag32(s + "dp" + I(k))));
    de.push_back(cont({{"proof", vec(dp)}, {"data", cont({{"pubkey", bv(b48(s + "dk"))}, {"withdrawal_credentials", bv(tag32(s + "wc"))}, {"amount", u(32000000000ull, 8)}, {"signature", bv(b96(s + "ds"))}})}}));
    ex.push_back(cont({{"message", cont({{"epoch", u(9, 8)}, {"validator_index", u(i, 8)}})}, {"signature", bv(b96(s + "ex"))}}));
    ch.push_back(cont({{"message", cont({{"validator_index", u(i, 8)}, {"from_bls_pubkey", bv(b48(s + "bp"))}, {"to_execution_address", bv(Bytes(20, 0x71))}})}, {"signature", bv(b96(s + "ch"))}}));
    kz.push_back(bv(b48(s + "kz" + I(i))));
    rd.push_back(cont({{"pubkey", bv(b48(s + "rk"))}, {"withdrawal_credentials", bv(tag32(s + "rwc"))}, {"amount", u(1, 8)}, {"signature", bv(b96(s + "rs"))}, {"index", u(i, 8)}}));
    rw.push_back(cont({{"source_address", bv(Bytes(20, 0x72))}, {"validator_pubkey", bv(b48(s + "rv"))}, {"amount", u(3, 8)}}));
    if (i < 2) rc.push_back(cont({{"source_address", bv(Bytes(20, 0x73))}, {"source_pubkey", bv(b48(s + "sp"))}, {"target_pubkey", bv(b48(s + "tp"))}}));
  }
  std::vector<std::pair<std::string, V>> f = {
      {"randao_reveal", bv(b96(s + "rr"))}, {"eth1_data", cont({{"deposit_root", bv(tag32(s + "dr"))}, {"deposit_count", u(77, 8)}, {"block_hash", bv(tag32(s + "eb"))}})}, {"graffiti", bv(tag32(s + "gr"))},
      {"proposer_slashings", list(ps, 16, true, 416, false)}, {"attester_slashings", list(as, electra ? 1 : 2, false, 0, false)}, {"attestations", list(at, electra ? 8 : 128, false, 0, false)}, {"deposits", list(de, 16, true, 1240, false)}, {"voluntary_exits", list(ex, 16, true, 112, false)},
      {"sync_aggregate", cont({{"sync_committee_bits", bitv(sbits)}, {"sync_committee_signature", bv(ssig)}})}, {"executionPayload", blk.payload()}, {"bls_to_execution_changes", list(ch, 16, true, 172, false)}, {"blob_kzg_commitments", list(kz, 4096, true, 48, false)}};
  if (electra) f.push_back({"execution_requests", cont({{"deposits", list(rd, 8192, true, 192, false)}, {"withdrawals", list(rw, 16, true, 76, false)}, {"consolidations", list(rc, 2, true, 116, false)}})});
  return cont(f);
}
struct BB {
  rcp::Bl        r; // transactions, receipts and the signed block
  const acc::Db* db = nullptr;
  Bytes          raw;  // SignedBeaconBlock
  Bytes          root, parent_exec;
  V              msg;
  bool           signs = true; // carries the signature of its parent
  Exec&          x() { return r.x; }
  const Exec&    x() const { return r.x; }
};
struct Style { bool compact_keys = false, json_blocks = false, unpadded_values = true; };
// ---- JSON of the beacon API
inline std::string snake(const std::string& n) { std::string r; for (char c : n) { if (isupper(c)) { r += '_'; r += (char) tolower(c); } else r += c; } return r; }
inline std::string vjson(const V& v) {
  switch (v->k) {
    case UINT: { // decimal
      if (v->data.size() <= 8) { uint64_t x = 0; for (size_t i = v->data.size(); i-- > 0;) x = x << 8 | v->data[i]; return qs(I(x)); }
      std::string d; Bytes b = v->data; std::reverse(b.begin(), b.end());
      while (std::any_of(b.begin(), b.end(), [](uint8_t x) { return x; })) { int rem = 0; for (auto& x : b) { int c = rem * 256 + x; x = (uint8_t) (c / 10); rem = c % 10; } d.insert(d.begin(), (char) ('0' + rem)); }
      return qs(d.empty() ? "0" : d);
    }
    case BVEC: case BLIST: return qs(hx(v->data));
    case BITV: case BITL: return qs(hx(ser(v)));
    case VEC: case LIST: { std::string s = "["; for (size_t i = 0; i < v->kids.size(); i++) s += (i ? "," : "") + vjson(v->kids[i]); return s + "]"; }
    case CONT: { std::string s = "{"; for (size_t i = 0; i < v->kids.size(); i++) s += std::string(i ? "," : "") + qs(snake(v->names[i])) + ":" + vjson(v->kids[i]); return s + "}"; }
    default: return "null";
  }
}
inline std::string jheader(const Header& h) { return "{\"slot\":" + qs(I(h.slot)) + ",\"proposer_index\":" + qs(I(h.proposer)) + ",\"parent_root\":" + qs(hx(h.parent)) + ",\"state_root\":" + qs(hx(h.state)) + ",\"body_root\":" + qs(hx(h.body)) + "}"; }
inline int  hid(uint64_t p) { return syn::hid(p); }
struct Sim {
  const Chain*    ch = nullptr;
  std::vector<BB> b;
  size_t          head = 0, justified = 0, finalized = 0;
  Style           style;
  // the chain store: periods with the roots of their blocks, and the summaries in the state of the block before the head
  std::map<uint64_t, std::vector<Bytes>> roots;
  std::map<Bytes, StateTree>             states; // by state root
  std::string                            summaries_json;
  uint64_t period(size_t i) const { return ch->period(b[i].x().h.slot); }
  // the newest block whose child carries a signature, as seen from the head
  size_t latest() const { size_t i = head; if (!b[i].signs && i) i--; return i ? i - 1 : 0; }
  // is there a signature above block i, at most this many headers away?
  bool provable(size_t i) const { for (size_t j = i + 1; j <= head && j <= i + 10; j++) if (b[j].signs) return true; return false; }
  // ---- lookups
  int by_root(const std::string& r) const { for (size_t i = 0; i <= head; i++) if (hx(b[i].root) == r) return (int) i; return -1; }
  int child(const std::string& r) const { for (size_t i = 0; i <= head; i++) if (hx(b[i].x().h.parent) == r) return (int) i; return -1; }
  int by_hash(const std::string& h) const { for (size_t i = 0; i <= head; i++) if (hx(b[i].x().blk.hash) == h) return (int) i; return -1; }
  int by_number(const std::string& n) const { for (size_t i = 0; i <= head; i++) if (hxu(b[i].x().blk.number) == n) return (int) i; return -1; }
  int by_ref(std::string r) const { // an execution block as JSON text
    if (r.size() > 1 && r[0] == '"') r = r.substr(1, r.size() - 2);
    if (r == "latest") return (int) head;
    if (r == "safe") return (int) justified;
    if (r == "finalized") return (int) finalized;
    if (r == "earliest") return 0;
    return r.size() == 66 ? by_hash(r) : by_number(r);
  }
  bool find_tx(const std::string& h, size_t& bi, size_t& ti) const {
    for (bi = 0; bi <= head; bi++) for (ti = 0; ti < b[bi].r.txs.size(); ti++) if (qs(hx(b[bi].r.txs[ti].hash)) == h) return true;
    return false;
  }
  // ---- JSON of the execution node
  std::string jtx(size_t bi, size_t i) const {
    auto& k = b[bi]; auto& t = k.r.txs[i];
    std::string s = "{\"blockHash\":" + qs(hx(k.x().blk.hash)) + ",\"blockNumber\":" + qs(hxu(k.x().blk.number)) + ",\"from\":" + qs(hx(key_address(t.key))) + ",\"gas\":" + qs(hxu(t.gas)) + ",\"gasPrice\":" + qs(hxu(t.price(rcp::BASE))) + ",\"hash\":" + qs(hx(t.hash)) + ",\"input\":" + qs(hx(t.input)) + ",\"nonce\":" + qs(hxu(t.nonce)) + ",\"to\":" + (t.to.size() ? qs(hx(t.to)) : "null") + ",\"transactionIndex\":" + qs(hxu(i)) + ",\"value\":" + qs(hxn(t.value)) + ",\"type\":" + qs(hxu(t.type)) + ",\"v\":" + qs(hxn(t.v)) + ",\"r\":" + qs(hxn(t.sig.r)) + ",\"s\":" + qs(hxn(t.sig.s));
    if (t.chainId) s += ",\"chainId\":" + qs(hxu(t.chainId));
    if (t.type) s += ",\"accessList\":" + access_json(t);
    return s + "}";
  }
  std::string jlog(size_t bi, size_t i, const rcp::Log& l, uint64_t idx) const {
    auto& k = b[bi];
    return "{\"address\":" + qs(hx(l.addr)) + ",\"topics\":" + list_json(l.topics) + ",\"data\":" + qs(hx(l.data)) + ",\"blockNumber\":" + qs(hxu(k.x().blk.number)) + ",\"transactionHash\":" + qs(hx(k.r.txs[i].hash)) + ",\"transactionIndex\":" + qs(hxu(i)) + ",\"blockHash\":" + qs(hx(k.x().blk.hash)) + ",\"logIndex\":" + qs(hxu(idx)) + ",\"removed\":false}";
  }
  uint64_t first_log(size_t bi, size_t i) const { uint64_t n = 0; for (size_t k = 0; k < i; k++) n += b[bi].r.rcs[k].logs.size(); return n; }
  std::string jreceipt(size_t bi, size_t i) const {
    auto& k = b[bi]; auto& t = k.r.txs[i]; auto& r = k.r.rcs[i];
    uint64_t n = first_log(bi, i);
    std::string ls;
    for (auto& l : r.logs) ls += (ls.empty() ? "" : ",") + jlog(bi, i, l, n++);
    return "{\"blockHash\":" + qs(hx(k.x().blk.hash)) + ",\"blockNumber\":" + qs(hxu(k.x().blk.number)) + ",\"contractAddress\":" + (t.to.size() ? "null" : qs(hx(Bytes(20, 0x99)))) + ",\"cumulativeGasUsed\":" + qs(hxu(r.cum)) + ",\"effectiveGasPrice\":" + qs(hxu(t.price(rcp::BASE))) + ",\"from\":" + qs(hx(key_address(t.key))) + ",\"gasUsed\":" + qs(hxu(k.r.gas(i))) + ",\"logs\":[" + ls + "],\"logsBloom\":" + qs(hx(r.bloom)) + ",\"status\":" + qs(hxu(r.status)) + ",\"to\":" + (t.to.size() ? qs(hx(t.to)) : "null") + ",\"transactionHash\":" + qs(hx(t.hash)) + ",\"transactionIndex\":" + qs(hxu(i)) + ",\"type\":" + qs(hxu(t.type)) + "}";
  }
  std::string jblock(size_t bi) const {
    auto& k = b[bi].x().blk;
    std::string ts;
    for (auto& t : b[bi].r.txs) ts += (ts.empty() ? "" : ",") + qs(hx(t.hash));
    return "{\"number\":" + qs(hxu(k.number)) + ",\"hash\":" + qs(hx(k.hash)) + ",\"parentHash\":" + qs(hx(k.parentHash)) + ",\"stateRoot\":" + qs(hx(k.stateRoot)) + ",\"receiptsRoot\":" + qs(hx(k.receiptsRoot)) + ",\"transactionsRoot\":" + qs(hx(bk::trie_root(k.txs))) + ",\"parentBeaconBlockRoot\":" + qs(hx(b[bi].x().h.parent)) + ",\"transactions\":[" + ts + "]}";
  }
  std::string jproof(size_t bi, const std::string& addr, const std::vector<std::string>& keys) const {
    auto& d = *b[bi].db;
    Bytes ad = unhex(addr.substr(2));
    const acc::Acc* a = d.find(ad);
    std::string s = "{\"address\":" + qs(addr) + ",\"accountProof\":" + list_json(d.t.prove(ref::keccak(ad))) + ",\"balance\":" + qs(hxn(a ? a->balance : Bytes())) + ",\"codeHash\":" + qs(hx(a ? a->chash() : Bytes(32))) + ",\"nonce\":" + qs(hxu(a ? a->nonce : 0)) + ",\"storageHash\":" + qs(hx(a ? a->shash() : Bytes(32))) + ",\"storageProof\":[";
    for (size_t i = 0; i < keys.size(); i++) {
      std::string ks = keys[i].substr(1, keys[i].size() - 2);
      std::string h = ks.substr(2); if (h.size() & 1) h = "0" + h;
      Bytes k = padl(unhex(h), 32), v;
      if (a) { auto it = a->st.find(k); if (it != a->st.end()) v = it->second; }
      s += std::string(i ? "," : "") + "{\"key\":" + qs(style.compact_keys ? hxn(k) : ks) + ",\"value\":" + qs(hxn(v)) + ",\"proof\":" + list_json(acc::st_nodes(a, k)) + "}";
    }
    return s + "]}";
  }
  // logs of the filter given as JSON object
  struct Hit { size_t bi, ti, li; };
  std::vector<Hit> logs(const std::string& filter, bool = false) const {
    auto f = jobj(filter);
    std::vector<Hit> r;
    int from = -1, to = (int) head;
    if (f.count("blockHash")) { from = to = by_ref(f["blockHash"]); if (from < 0) return r; }
    else {
      auto num = [&](const std::string& s, int def) { if (s.empty()) return def; int i = by_ref(s); if (i >= 0) return i; uint64_t n = strtoull(s.c_str() + 1, nullptr, 16); return n > b[head].x().blk.number ? (int) head : 0; };
      from = num(f["fromBlock"], (int) head); to = num(f["toBlock"], (int) head);
    }
    auto is = [](const std::string& pat, const Bytes& v) { if (pat.empty() || pat == "null") return true; if (pat[0] == '"') return pat == qs(hx(v)); auto l = jarr(pat); if (l.empty()) return true; for (auto& x : l) if (x == qs(hx(v)) || x == "null") return true; return false; };
    for (int bi = from; bi <= to; bi++) {
      auto& k = b[bi];
      for (size_t ti = 0; ti < k.r.txs.size(); ti++)
        for (size_t li = 0; li < k.r.rcs[ti].logs.size(); li++) {
          auto& l = k.r.rcs[ti].logs[li];
          if (!is(f["address"], l.addr)) continue;
          auto tp = jarr(f["topics"]);
          bool ok = true;
          for (size_t i = 0; ok && i < tp.size(); i++) { if (i >= l.topics.size()) { if (tp[i] != "null") ok = false; } else ok = is(tp[i], l.topics[i]); }
          if (ok) r.push_back({(size_t) bi, ti, li});
        }
    }
    return r;
  }
  std::string jlogs(const std::vector<Hit>& h) const { std::string s; for (auto& x : h) s += (s.empty() ? "" : ",") + jlog(x.bi, x.ti, b[x.bi].r.rcs[x.ti].logs[x.li], first_log(x.bi, x.ti) + x.li); return "[" + s + "]"; }
  // ---- answering
  static Answer ok(const std::string& s) { return {true, S(s), ""}; }
  static Answer res(const std::string& s) { return ok("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":" + s + "}"); }
  static Answer rpcerr(int code, const std::string& m) { return ok("{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":" + std::to_string(code) + ",\"message\":" + qs(m) + "}}"); }
  mutable std::set<std::string> unknown; // requests nobody can answer
  std::optional<Answer> answer(const Req& q) const {
    if (q.type == C4_DATA_TYPE_ETH_RPC) {
      auto        o = jobj(q.payload);
      std::string m = o["method"];
      auto        p = jarr(o["params"]);
      auto        P = [&](size_t i) { return i < p.size() ? p[i] : std::string(); };
      if (m == "\"eth_getBlockByNumber\"" || m == "\"eth_getBlockByHash\"") { int i = by_ref(P(0)); return res(i < 0 ? "null" : jblock(i)); }
      if (m == "\"eth_getTransactionByHash\"") { size_t bi, ti; return res(find_tx(P(0), bi, ti) ? jtx(bi, ti) : "null"); }
      if (m == "\"eth_getBlockReceipts\"") { int i = by_ref(P(0)); if (i < 0) return res("null"); std::string s; for (size_t k = 0; k < b[i].r.txs.size(); k++) s += (k ? "," : "") + jreceipt(i, k); return res("[" + s + "]"); }
      if (m == "\"eth_getLogs\"") return res(jlogs(logs(P(0))));
      if (m == "\"eth_getProof\"") { int i = by_ref(P(2)); if (i < 0) return rpcerr(-32000, "header not found"); return res(jproof(i, P(0).substr(1, P(0).size() - 2), jarr(P(1)))); }
      if (m == "\"eth_getCode\"") { int i = by_ref(P(1)); if (i < 0) return rpcerr(-32602, "invalid argument 1: hex string without 0x prefix"); auto* a = b[i].db->find(unhex(P(0).substr(3, 40))); return res(qs(hx(a ? a->code : Bytes()))); }
      unknown.insert(q.payload);
      return rpcerr(-32601, "the method does not exist");
    }
    auto has = [&](const char* pre) { return q.url.rfind(pre, 0) == 0; };
    auto rest = [&](const char* pre) { return q.url.substr(strlen(pre)); };
    if (q.type == C4_DATA_TYPE_BEACON_API) {
      if (has("eth/v1/beacon/headers?parent_root=")) {
        int i = child(rest("eth/v1/beacon/headers?parent_root="));
        return ok(i < 0 ? "{\"execution_optimistic\":false,\"finalized\":false,\"data\":[]}" : "{\"execution_optimistic\":false,\"finalized\":false,\"data\":[{\"root\":" + qs(hx(b[i].root)) + ",\"canonical\":true,\"header\":{\"message\":" + jheader(b[i].x().h) + ",\"signature\":" + qs(hx(b96("s"))) + "}}]}");
      }
      if (has("eth/v1/beacon/headers/0x")) {
        int i = by_root(rest("eth/v1/beacon/headers/"));
        if (i < 0) return Answer{false, {}, "404 not found"};
        return ok("{\"data\":{\"root\":" + qs(hx(b[i].root)) + ",\"canonical\":true,\"header\":{\"message\":" + jheader(b[i].x().h) + ",\"signature\":" + qs(hx(b96("s"))) + "}}}");
      }
      if (has("eth/v2/beacon/blocks/")) {
        std::string r = rest("eth/v2/beacon/blocks/");
        int i = r == "head" ? (int) head : r.rfind("0x", 0) == 0 ? by_root(r) : -1;
        if (i < 0 && r.rfind("0x", 0)) for (size_t k = 0; k <= head; k++) if (I(b[k].x().h.slot) == r) i = (int) k;
        if (i < 0) return Answer{false, {}, "404 not found"};
        if (style.json_blocks) return ok("{\"version\":\"x\",\"execution_optimistic\":false,\"finalized\":false,\"data\":{\"message\":" + vjson(b[i].msg) + ",\"signature\":" + qs(hx(b96("blocksig"))) + "}}");
        return Answer{true, b[i].raw, ""};
      }
      if (q.url == "eth/v1/beacon/states/head/finality_checkpoints") {
        auto cp = [&](size_t i) { return "{\"epoch\":" + qs(I(((b[i].x().h.slot - 1) >> ch->spe) + 1)) + ",\"root\":" + qs(hx(b[i].root)) + "}"; };
        return ok("{\"execution_optimistic\":false,\"finalized\":false,\"data\":{\"previous_justified\":" + cp(finalized) + ",\"current_justified\":" + cp(justified) + ",\"finalized\":" + cp(finalized) + "}}");
      }
      uint64_t s, n;
      if (syn::parse_updates(q.url, s, n)) { std::vector<syn::Upd> l; for (uint64_t i = 0; i < n && i < 40; i++) l.push_back(upd(s + i)); return Answer{true, syn::api(l), ""}; }
      if (has("eth/v1/beacon/light_client/bootstrap/")) { auto it = boots.find(rest("eth/v1/beacon/light_client/bootstrap/")); if (it == boots.end()) return Answer{false, {}, "404"}; return Answer{true, it->second, ""}; }
      if (has("eth/v1/lodestar/states/") && summaries_json.size()) return ok(summaries_json);
      unsigned long long slot;
      if (sscanf(q.url.c_str(), "eth/v1/beacon/blocks/%llu/root", &slot) == 1) return syn::honest_net(*ch)(q);
    }
    if (q.type == C4_DATA_TYPE_INTERN) {
      unsigned long long p;
      if (sscanf(q.url.c_str(), "period_store/%llu/blocks.ssz", &p) == 1 && roots.count(p)) return Answer{true, concat(roots.at(p)), ""};
      unsigned long long a, c;
      if (sscanf(q.url.c_str(), "lcu_updates?start_period=%llu&count=%llu", &a, &c) == 2) { std::vector<syn::Upd> l; for (uint64_t i = 0; i < c && i < 40; i++) l.push_back(upd(a + i)); return Answer{true, syn::api(l), ""}; }
    }
    if (q.type == C4_DATA_TYPE_CHECKPOINTZ) return syn::honest_net(*ch)(q);
    unknown.insert(q.url + " type " + I(q.type));
    return Answer{false, {}, "no node answers " + q.url};
  }
  std::map<std::string, Bytes> boots; // light client bootstraps by block root
  mutable std::map<uint64_t, syn::Upd> upds;
  const syn::Upd& upd(uint64_t p) const { auto it = upds.find(p); if (it == upds.end()) it = upds.emplace(p, syn::honest(*ch, p)).first; return it->second; }
  // a checkpoint in period p: returns the root a client would trust
  Bytes checkpoint(uint64_t p) {
    syn::ST* st;
    Header h = syn::boot_header(*ch, p, 320, "simboot" + I(p), st);
    boots[hx(h.root())] = ser(syn::boot_v(h, hid(p), st->t.br(st->t.g({"current_sync_committee"}))));
    return h.root();
  }
  Net net() const { return [this](const Req& q) { return answer(q); }; }
};
// a block on top of the chain. n: number of transactions
inline void add_block(Sim& s, uint64_t slot, uint64_t number, std::vector<Tx> txs, std::vector<rcp::Rc> rcs, const acc::Db& db, int ops, bool signs, const std::string& salt, const Bytes& state_root = {}) {
  BB     k;
  Block  blk;
  k.r.txs = txs; k.r.rcs = rcs;
  for (size_t i = 0; i < txs.size(); i++) { blk.txs.push_back(txs[i].raw); k.r.tree.set(rlp_u64(i), rcp::rc_raw(rcs[i], txs[i].type)); }
  bool electra = s.ch->fork(slot) >= ELECTRA;
  blk.gnosis = s.ch->spe == 4;
  blk.number = number; blk.hash = tag32("simhash" + salt + I(number)); blk.baseFee = le(rcp::BASE, 32); blk.receiptsRoot = txs.empty() ? ref::keccak(B({0x80})) : k.r.tree.root(); blk.stateRoot = db.t.root();
  blk.parentHash = s.b.empty() ? tag32("simgenesis") : s.b.back().x().blk.hash;
  blk.timestamp = 1700000000 + slot % 100000 * 12;
  for (int i = 0; i < ops; i++) blk.wds.push_back({1000ull + i, 77ull * i, Bytes(20, (uint8_t) (0xd0 + i)), 1000000ull * i});
  Bits  sb = bits(signs ? 500 : 0, 3);
  Bytes sg(96);
  if (signs && s.b.size()) sg = sign(committee(hid(s.ch->period(slot))), sb, signing_root(s.b.back().root, domain(*s.ch, s.ch->fork(slot - 1))));
  if (!signs) { sg = Bytes(96); sg[0] = 0xc0; }
  Exec& x = k.x();
  x.ch = s.ch; x.blk = blk;
  x.body.v = beacon_body(blk, sb, sg, electra, ops, "sb" + salt + I(number));
  x.body.root = htr(x.body.v, &x.body.m);
  x.h.slot = slot; x.h.proposer = number % 97; x.h.parent = s.b.empty() ? tag32("simroot") : s.b.back().root; x.h.state = state_root.size() ? state_root : tag32("simstate" + salt + I(number)); x.h.body = x.body.root;
  k.msg  = cont({{"slot", u(slot, 8)}, {"proposer_index", u(x.h.proposer, 8)}, {"parent_root", bv(x.h.parent)}, {"state_root", bv(x.h.state)}, {"body", x.body.v}});
  k.raw  = ser(cont({{"message", k.msg}, {"signature", bv(b96("blocksig"))}}));
  k.root = x.h.root();
  k.db   = &db; k.signs = signs;
  s.b.push_back(k);
  s.head = s.b.size() - 1;
}
inline std::vector<Tx> some_txs(size_t n, uint64_t cid, size_t shift) {
  static std::vector<Tx> tx;
  if (tx.empty()) {
    for (int t = 0; t <= 4; t++) { Tx x = base_tx(t, 1); x.key = 1 + t % 3; tx.push_back(x); }
    { Tx x = base_tx(0, 1); x.chainId = 0; tx.push_back(x); x = base_tx(1, 1); x.access = {{Bytes(20, 7), {tag32("k")}}}; tx.push_back(x); x = base_tx(2, 1); x.to = {}; x.input = S("code"); tx.push_back(x); }
  }
  std::vector<Tx> r;
  for (size_t i = 0; i < n; i++) { Tx t = tx[(i + shift) % tx.size()]; t.nonce = shift * 1000 + i; t.chainId = t.chainId ? cid : 0; r.push_back(t.sign()); }
  return r;
}
inline std::vector<rcp::Rc> some_rcs(size_t n, size_t shift) {
  auto rf = rcp::rc_family();
  std::vector<rcp::Rc> r; uint64_t cum = 0;
  for (size_t i = 0; i < n; i++) { r.push_back(rf[(i * 7 + shift * 3 + 1) % rf.size()]); cum += 21000 + i * 1000; r.back().cum = cum; for (auto& l : r.back().logs) { l.data.push_back((uint8_t) shift); l.data.push_back((uint8_t) i); } }
  return r;
}
} // namespace sim
