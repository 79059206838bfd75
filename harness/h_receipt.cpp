// C14: receipts; C15: logs
#include "tx.hpp"
#include "wire.hpp"
using namespace mc;
using namespace world;
static std::string I(uint64_t x) { return std::to_string(x); }
struct Log { Bytes addr; std::vector<Bytes> topics; Bytes data; };
struct Rc { int status = 1; uint64_t cum = 21000; Bytes bloom = Bytes(256); std::vector<Log> logs; };
static Bytes log_rlp(const Log& l) { std::vector<Bytes> t; for (auto& x : l.topics) t.push_back(rlp_str(x)); return rlp_list({rlp_str(l.addr), rlp_list(t), rlp_str(l.data)}); }
static Bytes rc_raw(const Rc& r, int type) {
  std::vector<Bytes> l;
  for (auto& x : r.logs) l.push_back(log_rlp(x));
  Bytes e = rlp_list({rlp_u64(r.status), rlp_u64(r.cum), rlp_str(r.bloom), rlp_list(l)});
  return type ? cat(B({type}), e) : e;
}
static const uint64_t BASE = 7000000000ull;
struct Bl { std::vector<Tx> txs; std::vector<Rc> rcs; Trie tree; Exec x; uint64_t gas(size_t i) const { return rcs[i].cum - (i ? rcs[i - 1].cum : 0); } };
static Bytes ikey(uint64_t i) { return rlp_u64(i); }
static Bl block_of(const std::vector<Tx>& txs, const std::vector<Rc>& rcs, int ci, int kind, uint64_t number, const std::string& salt) {
  Bl b; b.txs = txs; b.rcs = rcs;
  Block k;
  for (size_t i = 0; i < txs.size(); i++) { k.txs.push_back(txs[i].raw); b.tree.set(ikey(i), rc_raw(rcs[i], txs[i].type)); }
  k.number = number; k.hash = tag32("rblock" + salt); k.baseFee = le(BASE, 32); k.receiptsRoot = b.tree.root();
  b.x = make_exec(chain(ci), exec_slot(chain(ci), kind) + number % 7, k, salt);
  return b;
}
static V log_data(const Bl& b, size_t i, const Log& l, uint32_t logIndex) {
  std::vector<Bytes> t = l.topics;
  return cont({{"blockHash", bv(b.x.blk.hash)}, {"blockNumber", u(b.x.blk.number, 8)}, {"transactionHash", bv(b.txs[i].hash)}, {"transactionIndex", u(i, 4)}, {"address", bv(l.addr)}, {"logIndex", u(logIndex, 4)}, {"removed", u(0, 1)}, {"topics", h32list(t, 8)}, {"data", bl(l.data, 1073741824)}});
}
static V rc_data(const Bl& b, size_t i, uint32_t mask = 0x3ffe) {
  std::vector<V> ls;
  uint32_t n = 0;
  for (size_t k = 0; k < i; k++) n += b.rcs[k].logs.size();
  for (auto& l : b.rcs[i].logs) ls.push_back(log_data(b, i, l, n++));
  auto& t = b.txs[i]; auto& r = b.rcs[i];
  return cont({{"_optmask", u(mask, 4)}, {"blockHash", bv(b.x.blk.hash)}, {"blockNumber", u(b.x.blk.number, 8)}, {"transactionHash", bv(t.hash)}, {"transactionIndex", u(i, 4)}, {"type", u(t.type, 1)}, {"from", bv(key_address(t.key))}, {"to", bl(t.to, 20)}, {"cumulativeGasUsed", u(r.cum, 8)}, {"gasUsed", u(b.gas(i), 8)}, {"logs", list(ls, 256, false, 0, false)}, {"logsBloom", bv(r.bloom)}, {"status", u(r.status, 1)}, {"effectiveGasPrice", u(t.price(BASE), 8)}, {"depositNonce", u(0, 8)}, {"depositReceiptVersion", u(0, 4)}});
}
static V rc_proof(const Bl& b, size_t i) {
  return cont({{"transaction", bl(b.txs[i].raw, 1073741824)}, {"transactionIndex", u(i, 4)}, {"blockNumber", u(b.x.blk.number, 8)}, {"blockHash", bv(b.x.blk.hash)}, {"receipt_proof", nodelist(b.tree.prove(ikey(i)), 64)},
               {"block_proof", proof_below(b.x, {{"blockNumber"}, {"blockHash"}, {"receiptsRoot"}, {"transactions", I(i)}}, 64)}, {"header", b.x.h.v()}, {"header_proof", b.x.hp}});
}
// "" if the log shown is exactly this one
static std::string log_diff(const std::string& json, const Bl& b, size_t i, const Log& l) {
  auto o = jobj(json);
  std::string err;
  auto is = [&](const char* n, const std::string& e) { if (err.empty() && o[n] != e) err = std::string(n) + " is " + o[n].substr(0, 100) + " instead of " + e.substr(0, 100); };
  is("blockHash", qs(hx(b.x.blk.hash))); is("blockNumber", qs(hxu(b.x.blk.number))); is("transactionHash", qs(hx(b.txs[i].hash))); is("transactionIndex", qs(hxu(i))); is("address", qs(hx(l.addr))); is("removed", "false"); is("topics", list_json(l.topics)); is("data", qs(hx(l.data)));
  return err;
}
static std::string rc_diff(const std::string& json, const Bl& b, size_t i, std::string& soft) {
  auto o = jobj(json);
  auto& t = b.txs[i]; auto& r = b.rcs[i];
  std::string err;
  auto is = [&](const char* n, const std::string& e) { if (err.empty() && o[n] != e) err = std::string(n) + " is " + o[n].substr(0, 100) + " instead of " + e.substr(0, 100); };
  is("blockHash", qs(hx(b.x.blk.hash))); is("blockNumber", qs(hxu(b.x.blk.number))); is("transactionHash", qs(hx(t.hash))); is("transactionIndex", qs(hxu(i))); is("type", qs(hxu(t.type))); is("from", qs(hx(key_address(t.key))));
  if (t.to.size()) is("to", qs(hx(t.to))); else if (o.count("to") && o["to"] != "null" && o["to"] != "\"0x\"") err = "to of a creation is " + o["to"];
  is("cumulativeGasUsed", qs(hxu(r.cum))); is("logsBloom", qs(hx(r.bloom))); is("status", qs(hxu(r.status)));
  for (const char* n : {"depositNonce", "depositReceiptVersion"}) if (err.empty() && o.count(n)) err = std::string(n) + " shown";
  auto ls = jarr(o["logs"]);
  if (err.empty() && ls.size() != r.logs.size()) err = I(ls.size()) + " logs instead of " + I(r.logs.size());
  for (size_t k = 0; err.empty() && k < ls.size(); k++) { err = log_diff(ls[k], b, i, r.logs[k]); if (err.size()) err = "log " + I(k) + ": " + err; }
  if (o.count("gasUsed") && o["gasUsed"] != qs(hxu(b.gas(i)))) soft = "gasUsed";
  else if (o.count("effectiveGasPrice") && o["effectiveGasPrice"] != qs(hxu(t.price(BASE)))) soft = "effectiveGasPrice";
  return err;
}
static std::string hargs(const Bytes& h) { return "[\"" + hx(h) + "\"]"; }
static void ask(const Bl& b, const Bytes& rq, const std::string& args, int truth, bool must, const std::string& what, const std::string& det, const char* method = "eth_getTransactionReceipt") {
  trust(b.x);
  Res r = verify(rq, method, args, *b.x.ch);
  outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60), hash64(cur_section)));
  if (must && !r.accepted) { violation(what + ":honest-rejected", args + " " + det + " " + r.error); return; }
  if (!r.accepted) return;
  if (truth < 0) { violation(what + ":forgery-accepted", std::string(method) + args + " " + det + " answer " + nows(r.json).substr(0, 200)); return; }
  std::string soft, d = rc_diff(r.json, b, truth, soft);
  if (d.size()) violation(what + (must ? ":wrong-answer" : ":forgery-accepted"), args + " " + det + " " + d);
  else if (soft.size()) violation("receipt:unbound:" + soft, args + " " + det);
}
static std::vector<Rc> rc_family() {
  std::vector<Rc> r;
  auto L = [](int topics, int len, int fill) { Log l; l.addr = Bytes(20, (uint8_t) (0xa0 + topics)); for (int i = 0; i < topics; i++) l.topics.push_back(tag32("topic" + std::to_string(i))); l.data = Bytes(len, (uint8_t) fill); return l; };
  r.push_back({});
  for (int s : {0, 1}) for (int t = 0; t <= 4; t++) { Rc c; c.status = s; c.logs = {L(t, 32, 1)}; r.push_back(c); }
  for (int len : {0, 1, 31, 32, 33, 54, 55, 56, 57, 255, 256, 300, 1024}) for (int f : {0x00, 0x7f, 0x80}) { if (len > 1 && f != 0x80) continue; Rc c; c.logs = {L(1, len, f)}; r.push_back(c); }
  for (int n = 2; n <= 5; n++) { Rc c; for (int i = 0; i < n; i++) c.logs.push_back(L(i % 5, i * 7, i)); r.push_back(c); }
  { Rc c; c.logs = {L(2, 5, 9), L(2, 5, 9), L(3, 5, 9), L(2, 5, 9)}; r.push_back(c); }
  { Rc c; c.bloom = Bytes(256, 0xff); c.logs = std::vector<Log>(20, L(4, 64, 3)); r.push_back(c); }
  return r;
}
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store();
  std::vector<Rc> rf  = rc_family();
  std::vector<Tx> tx; // one transaction of every kind
  for (int t = 0; t <= 4; t++) { Tx x = base_tx(t, 1); x.key = 1 + t % 3; tx.push_back(x.sign()); }
  { Tx x = base_tx(0, 1); x.chainId = 0; tx.push_back(x.sign()); x = base_tx(1, 1); x.access = {{Bytes(20, 7), {tag32("k")}}}; tx.push_back(x.sign()); }
  for (int t = 0; t < 3; t++) { Tx x = base_tx(t, 1); x.to = {}; x.input = S("code"); tx.push_back(x.sign()); }
  auto mk = [&](size_t n, int ci, int kind, uint64_t number, const std::string& salt, size_t shift) {
    std::vector<Tx> ts; std::vector<Rc> rs; uint64_t cum = 0;
    for (size_t i = 0; i < n; i++) { ts.push_back(tx[(i + shift) % tx.size()]); ts.back().nonce = i; ts.back().chainId = ts.back().chainId ? chain(ci).id : 0; ts.back().sign(); rs.push_back(rf[(i * 7 + shift) % rf.size()]); cum += 21000 + i * 1000; rs.back().cum = cum; }
    return block_of(ts, rs, ci, kind, number, salt);
  };
  if (section("receipt/honest"))
    for (int ci = 0; ci < 4; ci++)
      for (int kind = 0; kind < 2; kind++)
        for (size_t n : {1, 2, 3, 9, 16, 17, 60, 130, 300}) {
          std::optional<Bl> b;
          for (size_t i = 0; i < n; i++) {
            if (n >= 130 && i > 17 && !(i >= 126 && i <= 130) && !(i >= 254 && i <= 258) && i != n - 1) continue;
            if (!next()) continue;
            if (!b) b = mk(n, ci, kind, 21000000 + n, "r" + I(ci) + I(kind) + I(n), n + ci);
            ask(*b, request(un(D_RECEIPT, rc_data(*b, i)), un(P_RECEIPT, rc_proof(*b, i))), hargs(b->txs[i].hash), (int) i, true, "honest", "index " + I(i) + " of " + I(n));
            sample("receipt " + I(i) + " of " + I(n) + " type " + I(b->txs[i].type) + " logs " + I(b->rcs[i].logs.size()));
          }
        }
  if (section("receipt/values"))
    for (size_t t = 0; t < tx.size(); t++)
      for (size_t k = 0; k < rf.size(); k++)
        for (uint64_t cum : {(uint64_t) 21000, (uint64_t) 0x7f, (uint64_t) 0x80, (uint64_t) 0xffffffff, (uint64_t) 0x100000000ull, (uint64_t) 0xffffffffffffffffull}) {
          if (cum != 21000 && k > 3) continue;
          if (!next()) continue;
          Rc r = rf[k]; r.cum = cum;
          Bl b = block_of({tx[t]}, {r}, 0, 0, 21000001, "v" + I(t) + "." + I(k));
          ask(b, request(un(D_RECEIPT, rc_data(b, 0)), un(P_RECEIPT, rc_proof(b, 0))), hargs(b.txs[0].hash), 0, true, "honest", "values");
        }
  const Bl B1 = mk(10, 0, 0, 21000010, "b1", 0), B2 = mk(3, 0, 1, 21000011, "b2", 5);
  auto rq_of = [&](const V& d, const V& p) { return request(un(D_RECEIPT, d), un(P_RECEIPT, p)); };
  if (section("receipt/binding"))
    for (auto* b : {&B1, &B2})
      for (size_t i = 0; i < b->txs.size(); i++) {
        for (auto* q : {&B1, &B2})
          for (size_t j = 0; j < q->txs.size(); j++) {
            bool same = q == b && i == j;
            V d = rc_data(*q, j), p = rc_proof(*b, i);
            if (next()) ask(*b, rq_of(rc_data(*b, i), p), hargs(q->txs[j].hash), b->txs[i].hash == q->txs[j].hash ? (int) i : -1, same, "binding", "question");
            if (next()) ask(*b, rq_of(d, p), hargs(b->txs[i].hash), (int) i, same, "binding", "data of another");
            if (next()) ask(*b, rq_of(d, p), hargs(q->txs[j].hash), b->txs[i].hash == q->txs[j].hash ? (int) i : -1, same, "binding", "data and question of another");
            if (q != b) continue;
            for (int what = 1; what < 8; what++) { // parts of the proof of another transaction
              if (same || !next()) continue;
              V p2 = copy(p), o = rc_proof(*b, j);
              if (what & 1) put(p2, "transaction", get(o, "transaction"));
              if (what & 2) put(p2, "transactionIndex", get(o, "transactionIndex"));
              if (what & 4) put(p2, "receipt_proof", get(o, "receipt_proof"));
              for (auto* dd : {&d}) {
                ask(*b, rq_of(rc_data(*b, i), p2), hargs(b->txs[i].hash), (int) i, false, "binding", "exchanged " + I(what));
                ask(*b, rq_of(*dd, p2), hargs(b->txs[j].hash), (int) j, false, "binding", "exchanged " + I(what) + " other");
              }
            }
          }
        V d = rc_data(*b, i), p = rc_proof(*b, i);
        std::string h = hx(b->txs[i].hash);
        for (std::string a : {std::string("[]"), std::string("null"), std::string("{}"), std::string("[null]"), std::string("[1]"), std::string("[\"\"]"), std::string("[\"0x\"]"), "[\"" + h.substr(0, 64) + "\"]", "[\"" + h + "00\"]", "[\"0x00" + h.substr(2) + "\"]", "[[\"" + h + "\"]]", std::string("[true]")}) { if (!next()) continue; ask(*b, rq_of(d, p), a, -1, false, "binding", "arguments"); }
        for (const char* m : {"eth_getTransactionByHash", "eth_getLogs", "eth_getBalance", "eth_call", "eth_getBlockByHash", "eth_blockNumber", "eth_verifyLogs", "eth_getProof", "eth_chainId", "eth_unknown"}) { if (!next()) continue; ask(*b, rq_of(d, p), hargs(b->txs[i].hash), -1, false, "binding", "method", m); }
        // data of other types
        for (V x : {none(), un(D_HASH, bv(Bytes(32))), un(D_BYTES, bl({}, 1 << 30)), un(D_BYTES, bl(ser(d), 1 << 30)), un(D_UINT256, u256({})), un(D_LOGS, get(d, "logs"))}) { if (!next()) continue; ask(*b, request(x, un(P_RECEIPT, p)), hargs(b->txs[i].hash), -1, false, "binding", "data type"); }
      }
  if (section("receipt/wire"))
    for (auto* b : {&B1, &B2})
      for (size_t i = 0; i < b->txs.size(); i += thorough ? 1 : 4)
        wire_edits(rq_of(rc_data(*b, i), rc_proof(*b, i)), [&](const Bytes& rq, const std::string& w) { ask(*b, rq, hargs(b->txs[i].hash), (int) i, false, "wire", w); });
  if (section("receipt/edits"))
    for (auto* b : {&B1, &B2})
      for (size_t i = 0; i < b->txs.size(); i++) {
        V d = rc_data(*b, i), p = rc_proof(*b, i);
        for (int s = 0; s < 2; s++) {
          std::vector<std::pair<std::string, V>> ls;
          leaves(s ? p : d, s ? "proof" : "data", ls);
          for (auto& l : ls) {
            if (l.first.find("header_proof") != std::string::npos) continue;
            for (size_t k = 0; k < l.second->data.size(); k++)
              for (int bit : {0, 1, 3, 7}) {
                if (bit % 2 && bit != 7 && l.first.find("optmask") == std::string::npos && l.second->data.size() > 8) continue;
                if (!next()) continue;
                l.second->data[k] ^= 1 << bit;
                ask(*b, rq_of(d, p), hargs(b->txs[i].hash), (int) i, false, "edits", l.first + " byte " + I(k));
                l.second->data[k] ^= 1 << bit;
              }
          }
        }
        for (uint32_t m = 0; m < 0x10000; m += 2) { // every mask of the receipt's fields
          bool near = __builtin_popcount(m ^ 0x3ffe) <= 2 || __builtin_popcount(m) <= 2 || (i == 1 && b == &B2 && m % 8 == 6);
          if (!near && !thorough) continue;
          if (!next()) continue;
          ask(*b, rq_of(rc_data(*b, i, m), p), hargs(b->txs[i].hash), (int) i, false, "edits", "mask " + I(m));
        }
        // lists of the data
        std::vector<V> lists;
        lists.push_back(get(d, "logs"));
        for (auto& l : get(d, "logs")->kids) lists.push_back(get(l, "topics"));
        std::vector<V> all = lists;
        for (const char* n : {"receipt_proof", "block_proof"}) all.push_back(get(p, n));
        for (auto& l : all) {
          auto old = l->kids;
          for (size_t k = 0; k <= old.size(); k++)
            for (int op = 0; op < 5; op++) {
              if (!next()) continue;
              auto n = old;
              if (op == 0 && k < n.size()) n.erase(n.begin() + k);
              if (op == 1 && n.size()) n.insert(n.begin() + k, n[k % n.size()]);
              if (op == 2) n.resize(k);
              if (op == 3 && k + 1 < n.size()) std::swap(n[k], n[k + 1]);
              if (op == 4 && n.size()) std::rotate(n.begin(), n.begin() + k % n.size(), n.end());
              l->kids = n;
              if (get(d, "logs")->kids.size() <= 256) ask(*b, rq_of(d, p), hargs(b->txs[i].hash), (int) i, false, "edits", "list op " + I(op) + " at " + I(k));
              l->kids = old;
            }
        }
      }
  // receipts which are no receipts: never out of bounds
  if (section("receipt/malformed")) {
    Tx t = tx[2];
    std::vector<Bytes> items = {{}, B({0x80}), B({1}), rlp_str(Bytes(9, 1)), rlp_str(Bytes(33, 1)), rlp_str(Bytes(256, 1)), rlp_str(Bytes(255, 1)), B({0xc0}), rlp_list({B({1})}), rlp_list({B({0xc0})}), rlp_list({rlp_list({rlp_str(Bytes(20, 1)), B({0xc0}), B({0x80})})}), rlp_list({rlp_list({rlp_str(Bytes(20, 1)), rlp_list({rlp_str(Bytes(31, 1))}), B({0x80})})}), rlp_list({rlp_list({rlp_str(Bytes(20, 1)), B({0x80}), B({0x80})})}), B({0xb8}), B({0xf8, 0xff}), B({0xbf, 0xff, 0xff}), B({0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})};
    Rc r; r.logs = {rf[3].logs[0]};
    std::vector<Bytes> good = {rlp_u64(1), rlp_u64(21000), rlp_str(Bytes(256)), rlp_list({log_rlp(r.logs[0])})};
    std::vector<Bytes> raws;
    for (size_t i = 0; i < good.size(); i++) for (auto& x : items) { auto g = good; g[i] = x; raws.push_back(cat(B({2}), rlp_list(g))); }
    for (size_t n = 0; n < 4; n++) { auto g = good; g.resize(n); raws.push_back(cat(B({2}), rlp_list(g))); }
    Bytes full = rc_raw(r, 2);
    for (size_t n = 0; n < full.size(); n++) raws.push_back(Bytes(full.begin(), full.begin() + n));
    for (size_t n = 0; n < full.size(); n++) for (int x : {0, 0x80, 0xb8, 0xbf, 0xc0, 0xf8, 0xff}) { Bytes e = full; e[n] = x; raws.push_back(e); }
    for (auto& raw : raws) {
      if (!next()) continue;
      Bl b; b.txs = {t}; b.rcs = {r};
      Block k; k.txs = {t.raw}; k.number = 21000100; k.hash = tag32("malformed"); k.baseFee = le(BASE, 32);
      if (raw.size()) b.tree.set(ikey(0), raw);
      k.receiptsRoot = b.tree.root();
      b.x = make_exec(chain(0), exec_slot(chain(0), 0), k, "malformed");
      trust(b.x);
      Res rs = verify(rq_of(rc_data(b, 0), rc_proof(b, 0)), "eth_getTransactionReceipt", hargs(t.hash), chain(0));
      outcome(hash64(rs.accepted ? "ok" : rs.error.substr(0, 60), hash64(cur_section)));
      // accepted: every value shown must be the one in the tree, read leniently
      if (rs.accepted && raw.size() && raw[0] != 2) violation("malformed:accepted", hx(raw).substr(0, 200));
    }
  }
  // ---- logs
  auto LG = [](int a, std::vector<int> ts, int d) { Log l; l.addr = Bytes(20, (uint8_t) a); for (int t : ts) l.topics.push_back(tag32("T" + std::to_string(t))); l.data = Bytes(d, (uint8_t) d); return l; };
  std::vector<Bl> W;
  {
    std::vector<std::vector<std::vector<Log>>> cont = {
        {{LG(1, {1, 2}, 3), LG(2, {1}, 0)}, {}, {LG(1, {}, 40), LG(1, {1, 3}, 3), LG(1, {1, 2}, 3), LG(1, {1, 2}, 3)}},
        {{LG(3, {4}, 1)}},
        {{LG(1, {1, 2}, 3)}, {LG(2, {2, 1, 3, 4}, 70), LG(3, {3}, 5)}}};
    for (size_t k = 0; k < cont.size(); k++) {
      std::vector<Tx> ts; std::vector<Rc> rs;
      for (size_t i = 0; i < cont[k].size(); i++) { Tx t = tx[(i + k) % 5]; t.nonce = 100 * k + i; ts.push_back(t.sign()); Rc r; r.cum = 21000 * (i + 1); r.logs = cont[k][i]; rs.push_back(r); }
      W.push_back(block_of(ts, rs, 0, 0, 21000200 + k, "log" + I(k)));
    }
  }
  struct Ref { size_t b, t, l; };
  std::vector<Ref> all;
  for (size_t k = 0; k < W.size(); k++) for (size_t i = 0; i < W[k].rcs.size(); i++) for (size_t l = 0; l < W[k].rcs[i].logs.size(); l++) all.push_back({k, i, l});
  auto logof = [&](const Ref& r) -> const Log& { return W[r.b].rcs[r.t].logs[r.l]; };
  auto trust_all = [&] { trust(W[0].x); };
  auto logs_v = [&](const std::vector<Ref>& rs) { std::vector<V> l; for (auto& r : rs) { uint32_t n = r.l; for (size_t k = 0; k < r.t; k++) n += W[r.b].rcs[k].logs.size(); l.push_back(log_data(W[r.b], r.t, logof(r), n)); } return list(l, 1024, false, 0, false); };
  auto block_v = [&](size_t k, const std::vector<size_t>& ts) {
    std::vector<std::vector<std::string>> names = {{"blockNumber"}, {"blockHash"}, {"receiptsRoot"}};
    std::vector<V> l;
    for (size_t t : ts) { names.push_back({"transactions", I(t)}); l.push_back(cont({{"transaction", bl(W[k].txs[t].raw, 1073741824)}, {"transactionIndex", u(t, 4)}, {"proof", nodelist(W[k].tree.prove(ikey(t)), 256)}})); }
    return cont({{"blockNumber", u(W[k].x.blk.number, 8)}, {"blockHash", bv(W[k].x.blk.hash)}, {"proof", proof_below(W[k].x, names, 1024)}, {"header", W[k].x.h.v()}, {"header_proof", W[k].x.hp}, {"txs", list(l, 256, false, 0, false)}});
  };
  auto proof_v = [&](const std::vector<Ref>& rs) { // blocks and transactions as the logs come
    std::vector<V> l;
    for (size_t k = 0; k < W.size(); k++) { std::vector<size_t> ts; for (auto& r : rs) if (r.b == k && std::find(ts.begin(), ts.end(), r.t) == ts.end()) ts.push_back(r.t); if (ts.size()) l.push_back(block_v(k, ts)); }
    return list(l, 256, false, 0, false);
  };
  struct Flt { std::string json; std::function<bool(const Ref&)> match; };
  std::vector<Flt> flts;
  {
    struct P { std::string j; std::function<bool(const Ref&)> f; };
    auto A = [](int a) { return qs(hx(Bytes(20, (uint8_t) a))); };
    auto T = [](int t) { return qs(hx(tag32("T" + std::to_string(t)))); };
    auto ad = [&](const Ref& r, std::vector<int> as) { for (int a : as) if (logof(r).addr == Bytes(20, (uint8_t) a)) return true; return false; };
    auto tp = [&](const Ref& r, size_t at, std::vector<int> ts) { if (logof(r).topics.size() <= at) return false; if (ts.empty()) return true; for (int t : ts) if (logof(r).topics[at] == tag32("T" + std::to_string(t))) return true; return false; };
    std::vector<P> PA = {{"", [](const Ref&) { return true; }}, {"\"address\":" + A(1), [=](const Ref& r) { return ad(r, {1}); }}, {"\"address\":[" + A(1) + "," + A(3) + "]", [=](const Ref& r) { return ad(r, {1, 3}); }}, {"\"address\":[]", [](const Ref&) { return true; }}, {"\"address\":null", [](const Ref&) { return true; }}, {"\"address\":" + A(9), [](const Ref&) { return false; }}};
    std::vector<P> PT = {{"", [](const Ref&) { return true; }}, {"\"topics\":[]", [](const Ref&) { return true; }}, {"\"topics\":null", [](const Ref&) { return true; }}, {"\"topics\":[" + T(1) + "]", [=](const Ref& r) { return tp(r, 0, {1}); }}, {"\"topics\":[null," + T(2) + "]", [=](const Ref& r) { return tp(r, 1, {2}); }}, {"\"topics\":[[" + T(1) + "," + T(4) + "]]", [=](const Ref& r) { return tp(r, 0, {1, 4}); }}, {"\"topics\":[[]," + T(2) + "]", [=](const Ref& r) { return tp(r, 1, {2}); }}, {"\"topics\":[" + T(1) + "," + T(2) + "]", [=](const Ref& r) { return tp(r, 0, {1}) && tp(r, 1, {2}); }}, {"\"topics\":[" + T(2) + "]", [=](const Ref& r) { return tp(r, 0, {2}); }}, {"\"topics\":[null,null,null," + T(4) + "]", [=](const Ref& r) { return tp(r, 3, {4}); }}, {"\"topics\":[null,null]", [=](const Ref& r) { return tp(r, 1, {}); }}};
    auto N = [&](size_t k) { return qs(hxu(W[k].x.blk.number)); };
    auto num = [&](const Ref& r) { return W[r.b].x.blk.number; };
    uint64_t n0 = W[0].x.blk.number;
    std::vector<P> PB = {{"", [](const Ref&) { return true; }}, {"\"fromBlock\":" + N(0) + ",\"toBlock\":" + N(2), [](const Ref&) { return true; }}, {"\"fromBlock\":" + N(1), [=](const Ref& r) { return num(r) >= n0 + 1; }}, {"\"toBlock\":" + N(0), [=](const Ref& r) { return num(r) <= n0; }}, {"\"fromBlock\":" + N(1) + ",\"toBlock\":" + N(1), [=](const Ref& r) { return num(r) == n0 + 1; }}, {"\"fromBlock\":\"earliest\",\"toBlock\":\"latest\"", [](const Ref&) { return true; }}, {"\"fromBlock\":\"0x0\",\"toBlock\":\"latest\"", [](const Ref&) { return true; }}, {"\"blockHash\":" + qs(hx(W[2].x.blk.hash)), [](const Ref& r) { return r.b == 2; }}, {"\"toBlock\":\"0x1\"", [](const Ref&) { return false; }}, {"\"fromBlock\":\"0xffffffffffffffff\"", [](const Ref&) { return false; }}, {"\"fromBlock\":\"0x100000000" + hxu(n0).substr(2) + "\"", [](const Ref&) { return false; }}};
    for (auto& a : PA) for (auto& t : PT) for (auto& b : PB) {
      std::string j;
      for (auto* p : {&a, &t, &b}) if (p->j.size()) j += (j.size() ? "," : "") + p->j;
      flts.push_back({"[{" + j + "}]", [=](const Ref& r) { return a.f(r) && t.f(r) && b.f(r); }});
    }
  }
  // the logs shown: each one of the chain, none more often than it is there
  auto foreign = [&](const std::string& json, std::vector<Ref>* found) -> std::string {
    std::string js = nows(json);
    if (js.size() < 2 || js[0] != '[') return "no list: " + js.substr(0, 60);
    std::vector<bool> used(all.size());
    for (auto& e : jarr(js)) {
      size_t k = 0;
      for (; k < all.size(); k++) if (!used[k] && log_diff(e, W[all[k].b], all[k].t, logof(all[k])).empty()) break;
      if (k == all.size()) return "not a log of the chain: " + e.substr(0, 400);
      used[k] = true;
      if (found) found->push_back(all[k]);
    }
    return "";
  };
  auto askb = [&](const Bytes& rq, const Flt* f, const std::string& args, bool must, size_t count, const std::string& what, const std::string& det) {
    trust_all();
    Res r = verify(rq, "eth_getLogs", args, chain(0));
    outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60), hash64(cur_section)));
    if (must && !r.accepted) { violation(what + ":honest-rejected", args + " " + det + " " + r.error); return; }
    if (!r.accepted) return;
    std::vector<Ref> found;
    std::string e = foreign(r.json, &found);
    if (e.size()) { violation(what + ":forgery-accepted", args + " " + det + " " + e); return; }
    if (must && found.size() != count) violation(what + ":wrong-answer", args + " " + det + " " + I(found.size()) + " logs instead of " + I(count));
    if (f) for (auto& x : found) if (!f->match(x)) { violation(what + ":filter-ignored", args + " " + det); return; }
  };
  auto askl = [&](const V& data, const V& proof, const Flt* f, const std::string& args, bool must, size_t count, const std::string& what, const std::string& det) { askb(request(data, un(P_LOGS, proof)), f, args, must, count, what, det); };
  if (section("logs/honest"))
    for (auto& f : flts) {
      if (!next()) continue;
      std::vector<Ref> m;
      for (auto& r : all) if (f.match(r)) m.push_back(r);
      askl(un(D_LOGS, logs_v(m)), proof_v(m), &f, f.json, true, m.size(), "honest", "");
      sample(f.json.substr(0, 160) + " " + I(m.size()) + " logs");
    }
  if (section("logs/subsets")) // every subset of the logs, in both orders
    for (uint32_t s = 0; s < (1u << all.size()); s++)
      for (int o = 0; o < 2; o++) {
        if (!thorough && __builtin_popcount(s) > 3 && __builtin_popcount(s) < (int) all.size() - 1) continue;
        if (!next()) continue;
        std::vector<Ref> m;
        for (size_t k = 0; k < all.size(); k++) if (s >> k & 1) m.push_back(all[k]);
        if (o) std::reverse(m.begin(), m.end());
        askl(un(D_LOGS, logs_v(m)), proof_v(m), nullptr, "[{}]", true, m.size(), "subset", I(s));
      }
  if (section("logs/filter")) // every log of the chain for every filter
    for (auto& f : flts)
      for (size_t k = 0; k <= all.size(); k++) {
        if (!next()) continue;
        std::vector<Ref> m = k < all.size() ? std::vector<Ref>{all[k]} : all;
        askl(un(D_LOGS, logs_v(m)), proof_v(m), &f, f.json, k < all.size() && f.match(m[0]), m.size(), "filter", "");
      }
  if (section("logs/arguments"))
    for (std::string a : {"[]", "null", "{}", "[null]", "[1]", "[\"0x1\"]", "[[]]", "[true]", "[{\"address\":1}]", "[{\"address\":\"0x01\"}]", "[{\"address\":\"0x\"}]", "[{\"topics\":\"0x01\"}]", "[{\"topics\":{}}]", "[{\"topics\":[1]}]", "[{\"topics\":[\"0x01\"]}]", "[{\"blockHash\":\"0x12\"}]", "[{\"address\":[\"0x01\",5]}]"}) {
      if (!next()) continue;
      Flt none{a, [](const Ref&) { return false; }};
      askl(un(D_LOGS, logs_v(all)), proof_v(all), &none, a, false, 0, "arguments", "");
    }
  if (section("logs/wire"))
    for (auto& m : std::vector<std::vector<Ref>>{{all[0]}, {all[2], all[3]}, {all[1], all[6], all[7]}})
      wire_edits(request(un(D_LOGS, logs_v(m)), un(P_LOGS, proof_v(m))), [&](const Bytes& rq, const std::string& w) { askb(rq, nullptr, "[{}]", false, 0, "wire", w); });
  if (section("logs/edits")) {
    std::vector<std::vector<Ref>> sets = {{all[0]}, {all[2], all[3]}, all, {all[6], all[7]}};
    for (auto& m : sets) {
      V d = logs_v(m), p = proof_v(m);
      for (int s = 0; s < 2; s++) {
        std::vector<std::pair<std::string, V>> ls;
        leaves(s ? p : d, s ? "proof" : "data", ls);
        for (auto& l : ls) {
          if (l.first.find("header_proof") != std::string::npos) continue;
          for (size_t k = 0; k < l.second->data.size(); k++)
            for (int bit : {0, 7}) {
              if (!next()) continue;
              l.second->data[k] ^= 1 << bit;
              askl(un(D_LOGS, d), p, nullptr, "[{}]", false, 0, "edits", l.first + " byte " + I(k));
              l.second->data[k] ^= 1 << bit;
            }
        }
      }
      std::vector<V> lists = {d, p};
      for (auto& l : d->kids) lists.push_back(get(l, "topics"));
      for (auto& b : p->kids) { lists.push_back(get(b, "txs")); lists.push_back(get(b, "proof")); for (auto& t : get(b, "txs")->kids) lists.push_back(get(t, "proof")); }
      for (auto& l : lists) {
        auto old = l->kids;
        for (size_t k = 0; k <= old.size(); k++)
          for (int op = 0; op < 5; op++) {
            if (!next()) continue;
            auto n = old;
            if (op == 0 && k < n.size()) n.erase(n.begin() + k);
            if (op == 1 && n.size()) n.insert(n.begin() + k, n[k % n.size()]);
            if (op == 2) n.resize(k);
            if (op == 3 && k + 1 < n.size()) std::swap(n[k], n[k + 1]);
            if (op == 4 && n.size()) std::rotate(n.begin(), n.begin() + k % n.size(), n.end());
            l->kids = n;
            askl(un(D_LOGS, d), p, nullptr, "[{}]", false, 0, "edits", "list op " + I(op) + " at " + I(k));
            l->kids = old;
          }
      }
      // every field of one log replaced by the one of another
      for (size_t i = 0; i < d->kids.size(); i++)
        for (auto& o : all)
          for (const char* n : {"blockHash", "blockNumber", "transactionHash", "transactionIndex", "address", "topics", "data"})
            for (const char* n2 : {"", "blockHash", "blockNumber", "transactionHash", "transactionIndex", "address", "topics", "data"}) {
              if (!next()) continue;
              V d2 = copy(d), ov = logs_v({o})->kids[0];
              put(d2->kids[i], n, get(ov, n));
              if (*n2) put(d2->kids[i], n2, get(ov, n2));
              askl(un(D_LOGS, d2), p, nullptr, "[{}]", false, 0, "edits", std::string("field ") + n + " " + n2 + " of another log");
            }
    }
    for (size_t i = 0; i < all.size(); i++) // data of one set, proof of another
      for (size_t j = 0; j < all.size(); j++) for (size_t k = 0; k < all.size(); k++) { if (!next()) continue; askl(un(D_LOGS, logs_v({all[i], all[k]})), proof_v({all[j]}), nullptr, "[{}]", false, 0, "edits", "proof of another set"); }
    for (V x : {none(), un(D_HASH, bv(Bytes(32))), un(D_BYTES, bl({}, 1 << 30)), un(D_UINT256, u256({})), un(D_RECEIPT, rc_data(B1, 0))}) { if (!next()) continue; askl(x, proof_v(all), nullptr, "[{}]", false, 0, "edits", "data type"); }
  }
  // made-up transactions: index beyond the transactions
  if (section("logs/verify")) {
    auto js = [&](const Ref& r) { std::map<std::string, std::string> m = {{"blockHash", qs(hx(W[r.b].x.blk.hash))}, {"blockNumber", qs(hxu(W[r.b].x.blk.number))}, {"transactionHash", qs(hx(W[r.b].txs[r.t].hash))}, {"transactionIndex", qs(hxu(r.t))}, {"address", qs(hx(logof(r).addr))}, {"logIndex", "\"0x5\""}, {"removed", "false"}, {"topics", list_json(logof(r).topics)}, {"data", qs(hx(logof(r).data))}}; return m; };
    auto str = [&](const std::vector<std::map<std::string, std::string>>& l) { std::string s = "["; for (size_t i = 0; i < l.size(); i++) { if (i) s += ","; std::string o; for (auto& e : l[i]) o += (o.size() ? "," : "") + qs(e.first) + ":" + e.second; s += "{" + o + "}"; } return s + "]"; };
    auto run = [&](const std::string& args, const V& data, const V& proof, bool ok, bool must, const std::string& det) {
      trust_all();
      Res r = verify(request(data, un(P_LOGS, proof)), "eth_verifyLogs", args, chain(0));
      outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60), hash64(cur_section)));
      if (must && !r.accepted) violation("verify:honest-rejected", args.substr(0, 300) + " " + det + " " + r.error);
      if (r.accepted && !ok) violation("verify:forgery-accepted", args.substr(0, 700) + " " + det);
    };
    for (uint32_t s = 1; s < (1u << all.size()); s++) {
      if (!thorough && __builtin_popcount(s) > 2 && __builtin_popcount(s) < (int) all.size()) continue;
      if (!next()) continue;
      std::vector<Ref> m; std::vector<std::map<std::string, std::string>> l;
      for (size_t k = 0; k < all.size(); k++) if (s >> k & 1) { m.push_back(all[k]); l.push_back(js(all[k])); }
      run(str(l), none(), proof_v(m), true, true, "honest");
    }
    std::vector<std::vector<Ref>> sets = {{all[0]}, {all[1], all[2]}, all};
    for (auto& m : sets) {
      std::vector<std::map<std::string, std::string>> l;
      for (auto& r : m) l.push_back(js(r));
      V p = proof_v(m);
      for (size_t i = 0; i < m.size(); i++) {
        for (auto& e : l[i]) {
          for (size_t k = 0; k < e.second.size(); k++) { // every character changed
            char c0 = e.second[k];
            for (char c : {'0', '1', 'f', '"'}) {
              if (c == c0 || !next()) continue;
              auto l2 = l; l2[i][e.first][k] = c;
              bool same = e.first == "logIndex" || (e.first != "removed" && e.second.size() > 3 && e.second.find("0x") == 1 && (hxn(unhex(l2[i][e.first].substr(3, e.second.size() - 4).size() % 2 ? "0" + l2[i][e.first].substr(3, e.second.size() - 4) : l2[i][e.first].substr(3, e.second.size() - 4))) == hxn(unhex(e.second.substr(3, e.second.size() - 4).size() % 2 ? "0" + e.second.substr(3, e.second.size() - 4) : e.second.substr(3, e.second.size() - 4)))));
              run(str(l2), none(), p, same, false, e.first + " character " + I(k) + " " + std::string(1, c));
            }
          }
          for (std::string val : {"null", "\"\"", "\"0x\"", "\"0x0\"", "\"0x1\"", "[]", "{}", "true", "5", "\"0x10000000000000000\"", "\"0x100000000\""}) {
            if (!next()) continue;
            auto l2 = l; l2[i][e.first] = val;
            bool same = e.first == "logIndex" || val == e.second || (e.first == "data" && logof(m[i]).data.empty() && (val == "\"\"")) || (e.first == "data" && logof(m[i]).data == B({1}) && val == "\"0x1\"") || (e.first == "topics" && logof(m[i]).topics.empty() && val == "[]");
            run(str(l2), none(), p, same, false, e.first + " = " + val);
          }
          if (next()) { auto l2 = l; l2[i].erase(e.first); run(str(l2), none(), p, e.first == "logIndex", false, e.first + " missing"); }
        }
        for (auto& o : all)
          for (const char* n : {"blockHash", "blockNumber", "transactionHash", "transactionIndex", "address", "topics", "data"}) {
            if (!next()) continue;
            auto l2 = l; auto oj = js(o);
            bool same = l2[i][n] == oj[n];
            l2[i][n] = oj[n];
            // exchanging may give another genuine log
            bool gen = same;
            for (auto& g : all) { auto gj = js(g); if (gj == l2[i]) gen = true; }
            run(str(l2), none(), p, gen, false, std::string(n) + " of another");
          }
      }
      for (size_t j = 0; j < all.size(); j++) { // prover supplied data, proofs of other logs
        if (next()) run(str(l), un(D_LOGS, logs_v({all[j]})), proof_v({all[j]}), false, false, "supplied data");
        bool cov = true;
        for (auto& r : m) if (r.b != all[j].b || r.t != all[j].t) cov = false;
        if (next()) run(str(l), none(), proof_v({all[j]}), cov, false, "other proof");
      }
      if (next()) run(str(l), none(), list({}, 256, false, 0, false), false, false, "no proof");
    }
    for (std::string a : {"null", "{}", "[null]", "[1]", "[\"0x1\"]", "[[]]", "[{}]", "1", "\"0x\""}) { if (!next()) continue; run(a, none(), proof_v(all), false, false, "arguments"); }
  }
  finish();
}
