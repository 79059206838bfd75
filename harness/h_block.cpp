// C16: blocks and the block number
#include "tx.hpp"
#include "wire.hpp"
using namespace mc;
using namespace world;
static std::string I(uint64_t x) { return std::to_string(x); }
static const uint64_t BASE = 7000000000ull;
struct Bk { std::vector<Tx> txs; Exec x; };
static Bk bk_of(const std::vector<Tx>& txs, Block k, int ci, int kind, const std::string& salt) {
  Bk b; b.txs = txs;
  for (auto& t : txs) k.txs.push_back(t.raw);
  b.x = make_exec(chain(ci), exec_slot(chain(ci), kind) + k.number % 7, k, salt);
  return b;
}
static V payload_v(const Exec& x) { return get(x.body.v, "executionPayload"); }
static V bk_proof(const Exec& x) {
  return cont({{"executionPayload", un(x.blk.gnosis ? 1 : 0, payload_v(x))}, {"proof", proof_below(x, {{}})}, {"header", x.h.v()}, {"header_proof", x.hp}});
}
static V bn_proof(const Exec& x) {
  return cont({{"blockNumber", u(x.blk.number, 8)}, {"timestamp", u(x.blk.timestamp, 8)}, {"proof", proof_below(x, {{"blockNumber"}, {"timestamp"}})}, {"header", x.h.v()}, {"header_proof", x.hp}});
}
static Bytes trie_root(const std::vector<Bytes>& l) { Trie t; for (size_t i = 0; i < l.size(); i++) t.set(rlp_u64(i), l[i]); return l.empty() ? keccak(B({0x80})) : t.root(); }
// "" if the answer is exactly this block; soft: a difference of the withdrawals root only
static std::string bk_diff(const std::string& json, const Bk& b, int full, std::string& soft) {
  auto o = jobj(json);
  auto& k = b.x.blk;
  std::string err;
  auto is = [&](const char* n, const std::string& e) { if (err.empty() && o[n] != e) err = std::string(n) + " is " + o[n].substr(0, 100) + " instead of " + e.substr(0, 100); };
  Bytes bf = k.baseFee; std::reverse(bf.begin(), bf.end());
  is("number", qs(hxu(k.number))); is("hash", qs(hx(k.hash))); is("parentHash", qs(hx(k.parentHash))); is("logsBloom", qs(hx(k.bloom))); is("receiptsRoot", qs(hx(k.receiptsRoot))); is("stateRoot", qs(hx(k.stateRoot)));
  is("extraData", qs(hx(k.extra))); is("baseFeePerGas", qs(hxn(bf))); is("nonce", qs("0x0000000000000000")); is("miner", qs(hx(k.feeRecipient))); is("excessBlobGas", qs(hxu(k.excessBlobGas))); is("blobGasUsed", qs(hxu(k.blobGasUsed))); is("difficulty", qs("0x0"));
  is("gasLimit", qs(hxu(k.gasLimit))); is("gasUsed", qs(hxu(k.gasUsed))); is("timestamp", qs(hxu(k.timestamp))); is("mixHash", qs(hx(k.randao))); is("uncles", "[]"); is("parentBeaconBlockRoot", qs(hx(b.x.h.parent)));
  is("sha3Uncles", qs(hx(keccak(B({0xc0}))))); is("transactionsRoot", qs(hx(trie_root(k.txs))));
  auto ts = jarr(o["transactions"]);
  if (err.empty() && ts.size() != k.txs.size()) err = I(ts.size()) + " transactions instead of " + I(k.txs.size());
  for (size_t i = 0; err.empty() && i < ts.size(); i++) {
    if (full == 0 || (full < 0 && ts[i][0] == '"')) { if (ts[i] != qs(hx(keccak(k.txs[i])))) err = "transaction " + I(i) + " is " + ts[i].substr(0, 100); }
    else { err = i < b.txs.size() ? tx_diff(ts[i], b.txs[i], k.hash, k.number, i, b.txs[i].price(BASE)) : "not a transaction"; if (err.size()) err = "transaction " + I(i) + ": " + err; }
  }
  auto ws = jarr(o["withdrawals"]);
  std::vector<Bytes> wr;
  if (err.empty() && ws.size() != k.wds.size()) err = I(ws.size()) + " withdrawals instead of " + I(k.wds.size());
  for (size_t i = 0; err.empty() && i < ws.size(); i++) {
    auto w = jobj(ws[i]); auto& e = k.wds[i];
    if (w["index"] != qs(hxu(e.i)) || w["validatorIndex"] != qs(hxu(e.v)) || w["address"] != qs(hx(e.a)) || w["amount"] != qs(hxu(e.amt))) err = "withdrawal " + I(i) + " is " + ws[i];
  }
  for (auto& e : k.wds) wr.push_back(rlp_list({rlp_u64(e.i), rlp_u64(e.v), rlp_str(e.a), rlp_u64(e.amt)}));
  if (err.empty() && o["withdrawalsRoot"] != qs(hx(trie_root(wr)))) {
    if (o["withdrawalsRoot"] == qs(hx(htr(get(payload_v(b.x), "withdrawals"))))) soft = "withdrawalsRoot";
    else err = "withdrawalsRoot is " + o["withdrawalsRoot"];
  }
  return err;
}
static void ask(const Bk& b, const Bytes& rq, const char* method, const std::string& args, bool truth, bool must, int full, const std::string& what, const std::string& det) {
  trust(b.x);
  Res r = verify(rq, method, args, *b.x.ch);
  outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60), hash64(cur_section)));
  if (must && !r.accepted) { violation(what + ":honest-rejected", std::string(method) + args + " " + det + " " + r.error); return; }
  if (!r.accepted) return;
  if (!truth) { violation(what + ":forgery-accepted", std::string(method) + args + " " + det + " answer " + nows(r.json).substr(0, 200)); return; }
  std::string soft, d = bk_diff(r.json, b, full, soft);
  if (d.size()) violation(what + (must ? ":wrong-answer" : ":forgery-accepted"), std::string(method) + args + " " + det + " " + d);
  else if (soft.size()) violation("block:ssz-root-as:" + soft, args + " " + det);
}
static Bytes rq_of(const V& p, const V& d = nullptr) { return request(d, un(P_BLOCK, p)); }
static Block plain(uint64_t number, const std::string& salt, int wds) {
  Block k; k.number = number; k.baseFee = le(BASE, 32);
  k.hash = tag32("bhash" + salt); k.parentHash = tag32("bparent" + salt); k.stateRoot = tag32("bstate" + salt); k.receiptsRoot = tag32("brec" + salt); k.randao = tag32("brand" + salt); k.timestamp = 1740000000 + number % 1000;
  for (int i = 0; i < wds; i++) k.wds.push_back({1000ull + i, 77ull * i, Bytes(20, (uint8_t) (0xd0 + i)), 1000000ull * i});
  return k;
}
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store();
  std::vector<Tx> tx;
  for (int t = 0; t <= 4; t++) { Tx x = base_tx(t, 1); x.key = 1 + t % 3; tx.push_back(x.sign()); }
  { Tx x = base_tx(0, 1); x.chainId = 0; tx.push_back(x.sign()); x = base_tx(1, 1); x.access = {{Bytes(20, 7), {tag32("k")}}}; tx.push_back(x.sign()); x = base_tx(2, 1); x.input = Bytes(300, 9); tx.push_back(x.sign()); }
  for (int t = 0; t < 3; t++) { Tx x = base_tx(t, 1); x.to = {}; x.input = S("code"); tx.push_back(x.sign()); }
  auto txs_of = [&](size_t n, uint64_t cid, size_t shift) { std::vector<Tx> r; for (size_t i = 0; i < n; i++) { Tx t = tx[(i + shift) % tx.size()]; t.nonce = i; t.chainId = t.chainId ? cid : 0; r.push_back(t.sign()); } return r; };
  auto num = [](uint64_t n) { return qs(hxu(n)); };
  if (section("block/honest"))
    for (int ci = 0; ci < 4; ci++)
      for (int kind = 0; kind < 2; kind++)
        for (size_t n : {0, 1, 2, 3, 15, 16, 17, 33, 127, 128, 129, 130, 257, 300}) {
          std::optional<Bk> b;
          for (int q = 0; q < 5; q++)
            for (int full = 0; full < 3; full++) {
              if (!next()) continue;
              if (!b) b = bk_of(txs_of(n, chain(ci).id, n + ci), plain(n == 3 ? 5 : n == 0 ? 0 : 21000000 + n, "h" + I(ci) + I(kind) + I(n), (n + ci) % (ci >= 2 ? 9 : 17)), ci, kind, "bh" + I(ci) + I(kind) + I(n));
              std::string a = "[" + (q == 0 ? qs(hx(b->x.blk.hash)) : q == 1 ? num(b->x.blk.number) : q == 2 ? std::string("\"latest\"") : q == 3 ? "\"safe\"" : "\"finalized\"") + (full == 0 ? ",false" : full == 1 ? ",true" : "") + "]";
              ask(*b, rq_of(bk_proof(b->x)), q ? "eth_getBlockByNumber" : "eth_getBlockByHash", a, true, true, full == 1, "honest", I(n) + " transactions");
              sample(a + " " + I(n) + " transactions " + I(b->x.blk.wds.size()) + " withdrawals");
            }
        }
  if (section("block/values")) {
    std::vector<Block> ks;
    for (uint64_t x : {(uint64_t) 0, (uint64_t) 1, (uint64_t) 0xf, (uint64_t) 0x10, (uint64_t) 0x7f, (uint64_t) 0x80, (uint64_t) 0xff, (uint64_t) 0x100, (uint64_t) 0xffffffff, (uint64_t) 0x100000000ull, (uint64_t) 0x7fffffffffffffffull, (uint64_t) 0xffffffffffffffffull})
      for (int f = 0; f < 10; f++) {
        Block k = plain(21000000, "v" + I(x), 2);
        if (f == 0) k.number = x; if (f == 1) k.gasLimit = x; if (f == 2) k.gasUsed = x; if (f == 3) k.timestamp = x; if (f == 4) k.blobGasUsed = x; if (f == 5) k.excessBlobGas = x;
        if (f >= 6) { auto& w = k.wds[1]; if (f == 6) w.i = x; if (f == 7) w.v = x; if (f == 8) w.amt = x; if (f == 9) k.baseFee = le(x, 32); }
        ks.push_back(k);
      }
    for (int l = 0; l <= 32; l++) { Block k = plain(21000000, "e", 1); k.extra = Bytes(l, (uint8_t) (l * 7)); ks.push_back(k); }
    for (int l = 0; l <= 16; l++) ks.push_back(plain(21000001, "w", l));
    for (int f : {0, 0xff}) { Block k = plain(21000000, "x", 1); k.bloom = Bytes(256, (uint8_t) f); k.parentHash = k.stateRoot = k.receiptsRoot = k.randao = k.hash = Bytes(32, (uint8_t) f); k.feeRecipient = Bytes(20, (uint8_t) f); k.wds[0].a = Bytes(20, (uint8_t) f); k.baseFee = le(f, 32); ks.push_back(k); k.baseFee = Bytes(32, (uint8_t) f); ks.push_back(k); }
    for (auto& k : ks)
      for (int ci : {0, 2})
        for (int q = 0; q < 2; q++) {
          if (ci == 2 && k.wds.size() > 8) continue;
          if (!next()) continue;
          Bk b = bk_of({}, k, ci, 0, "val");
          ask(b, rq_of(bk_proof(b.x)), q ? "eth_getBlockByNumber" : "eth_getBlockByHash", "[" + (q ? num(k.number) : qs(hx(k.hash))) + ",true]", true, true, 1, "values", "");
        }
  }
  if (section("block/txs")) { // every kind of transaction in full
    auto fam = tx_family(1);
    size_t step_ = thorough ? 1 : 1;
    for (size_t i = 0; i < fam.size(); i += step_) {
      if (!next()) continue;
      Bk b = bk_of({fam[i], tx[2]}, plain(21000003, "t", 1), 0, 0, "tx");
      bool dec = fam[i].chainId <= 0xfffffff;
      ask(b, rq_of(bk_proof(b.x)), "eth_getBlockByNumber", "[" + num(21000003) + ",true]", true, dec, 1, "txs", "type " + I(fam[i].type));
    }
    // bytes which are no transaction: hashes are shown, but no partial list
    for (Bytes raw : std::vector<Bytes>{{}, B({0}), B({5}), B({0x7f, 0xc0}), B({0xc0}), B({2}), B({2, 0xc0}), B({2, 0xc1, 0x80}), Bytes(100, 0xff), cat(tx[2].raw, B({0})), Bytes(tx[2].raw.begin(), tx[2].raw.end() - 1), Bytes(tx[0].raw.begin(), tx[0].raw.end() - 1)})
      for (int at = 0; at < 3; at++)
        for (int full = 0; full < 2; full++) {
          if (!next()) continue;
          Block k = plain(21000004, "bad", 1);
          std::vector<Bytes> l = {tx[0].raw, tx[2].raw};
          l.insert(l.begin() + at, raw);
          k.txs = l;
          Bk b = bk_of({}, k, 0, 0, "bad");
          ask(b, rq_of(bk_proof(b.x)), "eth_getBlockByNumber", "[" + num(21000004) + (full ? ",true]" : ",false]"), !full, !full && raw.size(), full, "txs", "no transaction");
        }
  }
  std::vector<Bk> W = {bk_of(txs_of(3, 1, 0), plain(21000010, "w0", 3), 0, 0, "w0"), bk_of(txs_of(2, 1, 4), plain(21000011, "w1", 16), 0, 1, "w1"), bk_of({}, plain(0x141, "w2", 0), 0, 0, "w2"), bk_of(txs_of(1, 100, 1), plain(21000010, "w3", 8), 2, 0, "w3"), bk_of(txs_of(1, 1, 2), plain(5, "w4", 1), 0, 0, "w4")};
  if (section("block/binding"))
    for (auto& b : W) {
      V p = bk_proof(b.x);
      for (auto& q : W)
        for (int m = 0; m < 2; m++)
          for (int f = 0; f < 2; f++) {
            if (!next()) continue;
            std::string a = "[" + (m ? num(q.x.blk.number) : qs(hx(q.x.blk.hash))) + (f ? ",true]" : ",false]");
            bool same = m ? q.x.blk.number == b.x.blk.number : q.x.blk.hash == b.x.blk.hash;
            ask(b, rq_of(p), m ? "eth_getBlockByNumber" : "eth_getBlockByHash", a, same, same, f, "binding", "question");
          }
      std::string h = hx(b.x.blk.hash), n = hxu(b.x.blk.number).substr(2);
      for (int m = 0; m < 2; m++)
        for (std::string a : {std::string("null"), std::string("[]"), std::string("{}"), std::string("[null]"), std::string("[1]"), std::string("[true]"), std::string("[{}]"), std::string("[[]]"), std::string("[\"\"]"), std::string("[\"0\"]"), std::string("[\"0x\"]"), std::string("[\"x\"]"), std::string("[\"latest2\"]"), std::string("[\"Latest\"]"), std::string("[\"lates\"]"), std::string("[\"0xzz\"]"), "[\"" + h.substr(0, 64) + "\"]", "[\"" + h + "00\"]", "[\"0x00" + h.substr(2) + "\"]", "[\"" + h.substr(2) + "\"]", "[\"0x1" + std::string(16 - n.size(), '0') + n + "\"]", "[\"0x" + n + std::string(16, '0') + "\"]", "[\"0x1" + std::string(32 - n.size(), '0') + n + "\"]", "[\"" + n + "\"]", "[\"0x" + n + "g\"]", "[" + I(b.x.blk.number) + "]", "[\"0x" + n.substr(0, n.size() - 1) + "\"]", "[\"0x" + n + "0\"]", "[[\"0x" + n + "\"]]", std::string("[\"earliest\"]")}) {
          if (!next()) continue;
          bool ok = m == 1 && a == "[" + I(b.x.blk.number) + "]"; // numbers as json numbers may be read
          ask(b, rq_of(p), m ? "eth_getBlockByNumber" : "eth_getBlockByHash", a, ok, false, 0, "binding", "arguments");
        }
      for (const char* t : {"latest", "safe", "finalized"}) { if (!next()) continue; ask(b, rq_of(p), "eth_getBlockByHash", "[\"" + std::string(t) + "\",false]", false, false, 0, "binding", "tag as hash"); }
      for (auto& a : {"[" + num(b.x.blk.number) + ",false]"}) { if (next()) ask(b, rq_of(p), "eth_getBlockByHash", a, false, false, 0, "binding", "number as hash"); }
      // data given by the prover
      for (auto& q : W)
        for (int t = 0; t < 7; t++) {
          V d;
          Bytes z20(20), z32(32);
          if (t == 0) d = un(D_HASH, bv(q.x.blk.hash));
          if (t == 1) d = un(D_BYTES, bl(S("data"), 1 << 30));
          if (t == 2) d = un(D_UINT256, u256(le(5, 32)));
          if (t == 3) d = un(D_LOGS, list({}, 1024, false, 0, false));
          if (t == 4) d = un(D_BLOCK, cont({{"_optmask", u(0, 4)}, {"number", u(b.x.blk.number, 8)}, {"hash", bv(b.x.blk.hash)}, {"transactions", un(0, list({}, 4096, true, 32, false))}, {"logsBloom", bv(Bytes(256))}, {"receiptsRoot", bv(q.x.blk.receiptsRoot)}, {"extraData", bl({}, 32)}, {"withdrawalsRoot", bv(z32)}, {"baseFeePerGas", u256(le(1, 32))}, {"nonce", bv(Bytes(8))}, {"miner", bv(z20)}, {"withdrawals", list({}, 4096, true, 44, false)}, {"excessBlobGas", u(0, 8)}, {"difficulty", u(0, 8)}, {"gasLimit", u(0, 8)}, {"gasUsed", u(0, 8)}, {"timestamp", u(0, 8)}, {"mixHash", bv(z32)}, {"parentHash", bv(z32)}, {"uncles", list({}, 4096, true, 32, false)}, {"parentBeaconBlockRoot", bv(z32)}, {"sha3Uncles", bv(z32)}, {"transactionsRoot", bv(z32)}, {"stateRoot", bv(q.x.blk.stateRoot)}, {"blobGasUsed", u(0, 8)}, {"requestsHash", bv(z32)}}));
          if (t == 5) d = un(D_TX, cont({{"_optmask", u(0, 4)}, {"blockHash", bv(z32)}, {"blockNumber", u(0, 8)}, {"hash", bv(z32)}, {"transactionIndex", u(0, 4)}, {"type", u(0, 1)}, {"nonce", u(0, 8)}, {"input", bl({}, 1 << 30)}, {"r", bv(z32)}, {"s", bv(z32)}, {"chainId", u(0, 4)}, {"v", u(0, 8)}, {"gas", u(0, 8)}, {"from", bv(z20)}, {"to", bl({}, 20)}, {"value", u256({})}, {"gasPrice", u(0, 8)}, {"maxFeePerGas", u(0, 8)}, {"maxPriorityFeePerGas", u(0, 8)}, {"accessList", list({}, 256, false, 0, false)}, {"authorizationList", list({}, 256, true, 0, false)}, {"blobVersionedHashes", list({}, 16, true, 32, false)}, {"yParity", u(0, 1)}}));
          if (t == 6) d = none();
          for (int f = 0; f < 2; f++) { if (!next()) continue; ask(b, rq_of(p, d), "eth_getBlockByNumber", "[" + num(b.x.blk.number) + (f ? ",true]" : ",false]"), true, t == 6, f, "binding", "supplied data " + I(t)); }
        }
    }
  if (section("block/wire"))
    for (auto& b : W)
      for (int f = 0; f < 2; f++)
        wire_edits(rq_of(bk_proof(b.x)), [&](const Bytes& rq, const std::string& w) { ask(b, rq, "eth_getBlockByNumber", "[" + num(b.x.blk.number) + (f ? ",true]" : ",false]"), true, false, f, "wire", w); });
  if (section("block/edits"))
    for (auto& b : W)
      for (int f = 0; f < 2; f++) {
        V p = copy(bk_proof(b.x));
        std::string a = "[" + num(b.x.blk.number) + (f ? ",true]" : ",false]");
        std::vector<std::pair<std::string, V>> ls;
        leaves(p, "proof", ls);
        for (auto& l : ls) {
          if (l.first.find("header_proof") != std::string::npos) continue;
          for (size_t k = 0; k < l.second->data.size(); k++)
            for (int bit : {0, 3, 7}) {
              if (l.second->data.size() > 40 && bit == 3) continue;
              if (!next()) continue;
              l.second->data[k] ^= 1 << bit;
              ask(b, rq_of(p), "eth_getBlockByNumber", a, true, false, f, "edits", l.first + " byte " + I(k));
              l.second->data[k] ^= 1 << bit;
            }
        }
        V pl = get(p, "executionPayload")->kids[0];
        for (V l : {get(p, "proof"), get(pl, "transactions"), get(pl, "withdrawals")}) {
          auto old = l->kids;
          for (size_t k = 0; k <= old.size(); k++)
            for (int op = 0; op < 6; op++) {
              if (!next()) continue;
              auto n = old;
              if (op == 0 && k < n.size()) n.erase(n.begin() + k);
              if (op == 1 && n.size()) n.insert(n.begin() + k, n[k % n.size()]);
              if (op == 2) n.resize(k);
              if (op == 3 && k + 1 < n.size()) std::swap(n[k], n[k + 1]);
              if (op == 4 && n.size()) std::rotate(n.begin(), n.begin() + k % n.size(), n.end());
              if (op == 5 && n.size()) { V z = copy(n[0]); std::fill(z->data.begin(), z->data.end(), 0); for (auto& kk : z->kids) std::fill(kk->data.begin(), kk->data.end(), 0); n.insert(n.begin() + k, z); }
              if (n.size() > 16 && l == get(pl, "withdrawals")) continue;
              l->kids = n;
              ask(b, rq_of(p), "eth_getBlockByNumber", a, true, false, f, "edits", "list op " + I(op) + " at " + I(k));
              l->kids = old;
            }
        }
        for (auto& q : W) { // parts of another block
          for (int m = 1; m < 16; m++) {
            if (!next()) continue;
            V p2 = copy(p), o = bk_proof(q.x);
            const char* names[] = {"executionPayload", "proof", "header", "header_proof"};
            for (int i = 0; i < 4; i++) if (m >> i & 1) put(p2, names[i], get(o, names[i]));
            bool same = m == 15 && q.x.blk.number == b.x.blk.number && q.x.ch == b.x.ch;
            if (m == 15 && !same) { ask(b, rq_of(p2), "eth_getBlockByNumber", a, false, false, f, "edits", "parts of another"); continue; }
            ask(b, rq_of(p2), "eth_getBlockByNumber", a, true, false, f, "edits", "parts of another " + I(m));
          }
        }
        { // the other kind of payload
          if (next()) { V p2 = copy(p); put(p2, "executionPayload", un(b.x.blk.gnosis ? 0 : 1, pl)); ask(b, rq_of(p2), "eth_getBlockByNumber", a, true, false, f, "edits", "payload type"); }
        }
      }
  auto askn = [&](const Bk& b, const Bytes& rq, const std::string& args, bool must, const std::string& what, const std::string& det, const char* method = "eth_blockNumber", bool truth = true) {
    trust(b.x);
    Res r = verify(rq, method, args, *b.x.ch);
    outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60), hash64(cur_section)));
    if (must && !r.accepted) { violation(what + ":honest-rejected", args + " " + det + " " + r.error); return; }
    if (r.accepted && (!truth || nows(r.json) != qs(hxu(b.x.blk.number)))) violation(what + (must ? ":wrong-answer" : ":forgery-accepted"), std::string(method) + args + " " + det + " answer " + r.json);
  };
  auto rqn = [&](const V& p, const V& d = nullptr) { return request(d, un(P_BLOCKNUMBER, p)); };
  if (section("block/number")) {
    for (int ci = 0; ci < 4; ci++)
      for (int kind = 0; kind < 2; kind++)
        for (uint64_t n : {(uint64_t) 0, (uint64_t) 1, (uint64_t) 0x10, (uint64_t) 0xff, (uint64_t) 0x100, (uint64_t) 21000000, (uint64_t) 0xffffffff, (uint64_t) 0x100000000ull, (uint64_t) 0xffffffffffffffffull})
          for (uint64_t ts : {(uint64_t) 0, (uint64_t) 1740000000, (uint64_t) 0xffffffffffffffffull}) {
            if (!next()) continue;
            Block k = plain(n, "n", 1); k.timestamp = ts;
            Bk b = bk_of({}, k, ci, kind, "n" + I(n));
            askn(b, rqn(bn_proof(b.x)), "[]", true, "number", "honest");
          }
    for (auto& b : W) {
      V p = copy(bn_proof(b.x));
      std::vector<std::pair<std::string, V>> ls;
      leaves(p, "proof", ls);
      for (auto& l : ls) {
        if (l.first.find("header_proof") != std::string::npos) continue;
        for (size_t k = 0; k < l.second->data.size(); k++)
          for (int bit = 0; bit < 8; bit++) {
            if (!next()) continue;
            l.second->data[k] ^= 1 << bit;
            askn(b, rqn(p), "[]", false, "number", l.first + " byte " + I(k));
            l.second->data[k] ^= 1 << bit;
          }
      }
      V l = get(p, "proof");
      auto old = l->kids;
      for (size_t k = 0; k <= old.size(); k++)
        for (int op = 0; op < 5; op++) {
          if (!next()) continue;
          auto n = old;
          if (op == 0 && k < n.size()) n.erase(n.begin() + k);
          if (op == 1) n.insert(n.begin() + k, n[k % n.size()]);
          if (op == 2) n.resize(k);
          if (op == 3 && k + 1 < n.size()) std::swap(n[k], n[k + 1]);
          if (op == 4) std::rotate(n.begin(), n.begin() + k % n.size(), n.end());
          l->kids = n;
          askn(b, rqn(p), "[]", false, "number", "list op " + I(op) + " at " + I(k));
          l->kids = old;
        }
      if (next()) { V p2 = copy(p); put(p2, "blockNumber", get(p, "timestamp")); put(p2, "timestamp", get(p, "blockNumber")); askn(b, rqn(p2), "[]", false, "number", "exchanged"); }
      // any other value of the payload as number
      for (const char* n : {"gasLimit", "gasUsed", "timestamp", "blobGasUsed", "excessBlobGas"}) {
        if (!next()) continue;
        V p2 = copy(p); put(p2, "blockNumber", get(payload_v(b.x), n)); put(p2, "proof", proof_below(b.x, {{n}, {"timestamp"}}));
        askn(b, rqn(p2), "[]", false, "number", std::string(n) + " as number");
      }
      for (auto& q : W) {
        for (int m = 1; m < 16; m++) {
          if (!next()) continue;
          V p2 = copy(p), o = bn_proof(q.x);
          const char* names[] = {"blockNumber", "proof", "header", "header_proof"};
          for (int i = 0; i < 4; i++) if (m >> i & 1) put(p2, names[i], get(o, names[i]));
          if (m == 15 && q.x.ch == b.x.ch) continue;
          askn(b, rqn(p2), "[]", false, "number", "parts of another " + I(m));
        }
      }
      for (V d : {un(D_HASH, bv(Bytes(32, 1))), un(D_BYTES, bl(S("data"), 1 << 30)), un(D_UINT256, u256(le(5, 32))), un(D_LOGS, list({}, 1024, false, 0, false))}) { if (!next()) continue; askn(b, rqn(p, d), "[]", false, "number", "supplied data"); }
    }
  }
  finish();
}
