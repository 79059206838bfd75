// C17: decoding transactions; C13: transaction proofs
#include "tx.hpp"
#include "wire.hpp"
using namespace mc;
using namespace world;
static std::string I(uint64_t x) { return std::to_string(x); }
static const std::vector<Tx>& fam(int ci) { static std::map<int, std::vector<Tx>> m; if (!m.count(ci)) m[ci] = tx_family(chain(ci).id); return m[ci]; }
static Bytes local_req() { return request(nullptr, nullptr); }
static Res decode(const Bytes& raw, const Chain& ch) { return verify(local_req(), "colibri_decodeTransaction", "[\"" + hx(raw) + "\"]", ch); }
// ---- lenient reference decoding, for changed encodings
struct It { bool list; Bytes d; };
static bool rlp_items(const Bytes& p, std::vector<It>& out) {
  size_t i = 0;
  while (i < p.size()) {
    uint8_t c = p[i];
    size_t  l, h = 1; bool ls = c >= 0xc0;
    if (c < 0x80) { out.push_back({false, B({c})}); i++; continue; }
    uint8_t base = ls ? 0xc0 : 0x80;
    if (c - base < 56) l = c - base;
    else { int n = c - base - 55; if (i + 1 + n > p.size()) return false; l = 0; for (int k = 0; k < n; k++) { if (l >> 48) return false; l = l << 8 | p[i + 1 + k]; } h = 1 + n; }
    if (l > p.size() || i + h + l > p.size()) return false;
    out.push_back({ls, Bytes(p.begin() + i + h, p.begin() + i + h + l)});
    i += h + l;
  }
  return true;
}
// decodes the raw transaction; false if it is not one
static bool ref_decode(const Bytes& raw, Tx& t) {
  if (raw.empty()) return false;
  Bytes b = raw;
  t.type = 0;
  if (raw[0] < 0x7f) { t.type = raw[0]; if (t.type < 1 || t.type > 4) return false; b.erase(b.begin()); }
  std::vector<It> o, f;
  if (!rlp_items(b, o) || o.size() != 1 || !o[0].list || !rlp_items(o[0].d, f)) return false;
  static const size_t N[] = {9, 11, 12, 14, 13};
  if (f.size() != N[t.type]) return false;
  size_t i = 0;
  bool   ok = true;
  auto num = [&](size_t max, Bytes& d) { if (f[i].list) { ok = false; i++; return; } d = trim(f[i++].d); if (d.size() > max) ok = false; };
  auto u64 = [&](uint64_t& x) { Bytes d; num(8, d); x = 0; if (ok) for (auto c : d) x = x << 8 | c; };
  auto str = [&](Bytes& d) { if (f[i].list) ok = false; d = f[i++].d; };
  if (t.type) u64(t.chainId);
  u64(t.nonce);
  if (t.type >= 2) { u64(t.maxPrio); u64(t.maxFee); } else u64(t.gasPrice);
  u64(t.gas); str(t.to); num(32, t.value); str(t.input);
  if (t.to.size() && t.to.size() != 20) ok = false;
  if (t.type && ok) {
    std::vector<It> al;
    if (!f[i].list || !rlp_items(f[i].d, al)) return false;
    i++;
    t.access.clear();
    for (auto& a : al) { std::vector<It> e, k; if (!a.list || !rlp_items(a.d, e) || e.size() != 2 || e[0].list || e[0].d.size() != 20 || !e[1].list || !rlp_items(e[1].d, k)) return false; std::vector<Bytes> ks; for (auto& x : k) { if (x.list || x.d.size() != 32) return false; ks.push_back(x.d); } t.access.push_back({e[0].d, ks}); }
  }
  if (!ok) return false;
  if (t.type == 3) {
    u64(t.maxBlobFee);
    std::vector<It> l;
    if (!ok || !f[i].list || !rlp_items(f[i].d, l)) return false;
    i++; t.blobs.clear();
    for (auto& x : l) { if (x.list || x.d.size() != 32) return false; t.blobs.push_back(x.d); }
    if (t.blobs.size() > 16) return false;
  }
  if (t.type == 4) {
    std::vector<It> l;
    if (!f[i].list || !rlp_items(f[i].d, l)) return false;
    i++; t.auths.clear();
    for (auto& x : l) {
      std::vector<It> e;
      if (!x.list || !rlp_items(x.d, e) || e.size() != 6) return false;
      for (auto& y : e) if (y.list) return false;
      Auth a; a.chainId = trim(e[0].d); a.addr = e[1].d; Bytes n = trim(e[2].d), y = trim(e[3].d); a.r = trim(e[4].d); a.s = trim(e[5].d);
      if (a.chainId.size() > 32 || a.addr.size() != 20 || n.size() > 8 || y.size() > 1 || a.r.size() > 32 || a.s.size() > 32) return false;
      a.nonce = 0; for (auto c : n) a.nonce = a.nonce << 8 | c;
      a.yParity = y.size() ? y[0] : 0;
      t.auths.push_back(a);
    }
  }
  Bytes rr, ss;
  num(8, t.v); num(32, rr); num(32, ss);
  if (!ok) return false;
  t.sig.r = padl(rr, 32); t.sig.s = padl(ss, 32);
  uint64_t v = 0; for (auto c : t.v) v = v << 8 | c;
  if (t.type) { if (v > 1) return false; t.sig.parity = (int) v; if (t.chainId >> 32) return false; }
  else if (v == 27 || v == 28) { t.chainId = 0; t.sig.parity = (int) v - 27; }
  else if (v >= 35) { t.chainId = (v - 35) / 2; t.sig.parity = (v - 35) % 2; if (t.chainId >> 32) return false; }
  else return false;
  t.raw = raw; t.hash = keccak(raw);
  return true;
}
static void check_edit(const Bytes& raw, const Tx& orig, const std::string& what) {
  const Chain& ch = chain(0);
  Res r = decode(raw, ch);
  outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 40), hash64(cur_section)));
  Tx   t;
  bool ok = ref_decode(raw, t);
  if (!r.accepted) return; // an invalid signature may be the reason: not judged for changed transactions
  if (!ok) { violation("decode:malformed-accepted", what + " of type " + I(orig.type) + ": " + hx(raw).substr(0, 300)); return; }
  std::string d = tx_diff(r.json, t, Bytes(32), 0, 0, 0, false);
  if (d.size()) violation("decode:wrong-value", what + " of type " + I(orig.type) + ": " + d + " for " + hx(raw).substr(0, 300));
  else if (raw != orig.raw && jobj(r.json)["from"] == qs(hx(key_address(orig.key))) && trim(t.sig.r) == trim(orig.sig.r) && trim(t.sig.s) == trim(orig.sig.s) && t.sig.parity == orig.sig.parity) {
    // the same signer for something else than what was signed: only if nothing of the signed content differs
    Tx a = t, b = orig;
    if (t.type != orig.type || a.fields() != b.fields() || t.chainId != orig.chainId) violation("decode:signature-not-bound", what + " " + hx(raw).substr(0, 300));
  }
}
// ---- proofs
struct Bl { std::vector<Tx> txs; Exec x; };
static Bl block_of(const std::vector<Tx>& txs, int ci, int kind, const std::string& salt) {
  Bl b; b.txs = txs;
  Block k;
  for (auto& t : txs) k.txs.push_back(t.raw);
  k.number = 21000000 + ci * 100 + kind; k.hash = tag32("txblock" + salt); k.baseFee = le(7000000000ull, 32);
  b.x = make_exec(chain(ci), exec_slot(chain(ci), kind), k, salt);
  return b;
}
static const uint64_t BASE = 7000000000ull;
static V tx_proof(const Bl& b, uint32_t i) {
  return cont({{"transaction", bl(b.txs[i].raw, 1073741824)}, {"transactionIndex", u(i, 4)}, {"blockNumber", u(b.x.blk.number, 8)}, {"blockHash", bv(b.x.blk.hash)}, {"baseFeePerGas", u(BASE, 8)},
               {"proof", proof_below(b.x, {{"blockNumber"}, {"blockHash"}, {"baseFeePerGas"}, {"transactions", I(i)}}, 64)}, {"header", b.x.h.v()}, {"header_proof", b.x.hp}});
}
static const char* M[] = {"eth_getTransactionByHash", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionByBlockNumberAndIndex"};
static std::string targs(int m, const Bl& b, uint32_t i) {
  return m == 0 ? "[\"" + hx(b.txs[i].hash) + "\"]" : m == 1 ? "[\"" + hx(b.x.blk.hash) + "\",\"" + hxu(i) + "\"]" : "[\"" + hxu(b.x.blk.number) + "\",\"" + hxu(i) + "\"]";
}
static void ask(const Bl& b, const Bytes& rq, int m, const std::string& args, int truth /*index or -1: no answer allowed*/, bool must, const std::string& what, const std::string& det) {
  trust(b.x);
  Res r = verify(rq, M[m], args, *b.x.ch);
  outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60), hash64(cur_section)));
  if (must && !r.accepted) { violation(what + ":honest-rejected", std::string(M[m]) + args + " " + det + " " + r.error); return; }
  if (!r.accepted) return;
  if (truth < 0) { violation(what + ":forgery-accepted", std::string(M[m]) + args + " " + det + " answer " + nows(r.json).substr(0, 200)); return; }
  std::string d = tx_diff(r.json, b.txs[truth], b.x.blk.hash, b.x.blk.number, truth, b.txs[truth].price(BASE));
  if (d.size()) violation(what + (must ? ":wrong-answer" : ":forgery-accepted"), std::string(M[m]) + args + " " + det + " " + d);
}
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store();
  if (section("decode/family"))
    for (int ci = 0; ci < 4; ci++)
      for (auto& t : fam(ci)) {
        if (!next()) continue;
        Res r = decode(t.raw, chain(ci));
        outcome(hash64(nows(r.json)));
        if (!r.accepted) { violation("decode:rejected:type" + I(t.type), hx(t.raw).substr(0, 300) + " " + r.error); continue; }
        std::string d = tx_diff(r.json, t, Bytes(32), 0, 0, t.type < 2 ? t.gasPrice : 0);
        if (d.size()) violation("decode:wrong:" + d.substr(0, d.find(' ')) + ":type" + I(t.type), d + " for " + hx(t.raw).substr(0, 300));
        sample("type " + I(t.type) + " " + hx(t.raw).substr(0, 100));
      }
  // changed encodings: never misread, never out of bounds
  std::vector<Tx> small;
  for (int type = 0; type <= 4; type++) {
    Tx t = base_tx(type, 1);
    if (type) t.access = {{Bytes(20, 0xa1), {tag32("k")}}};
    small.push_back(t.sign());
  }
  { Tx t = base_tx(0, 0); small.push_back(t.sign()); t = base_tx(0, 11155111); small.push_back(t.sign()); t = base_tx(4, 1); t.auths.push_back(t.auths[0]); small.push_back(t.sign()); }
  if (section("decode/edits"))
    for (auto& t : small) {
      for (size_t i = 0; i < t.raw.size(); i++) {
        if (next()) { Bytes e(t.raw.begin(), t.raw.begin() + i); check_edit(e, t, "cut at " + I(i)); }
        for (int x : {1, 2, 4, 8, 16, 32, 64, 128, 255, 0x41}) { if (!next()) continue; Bytes e = t.raw; e[i] ^= x; check_edit(e, t, "byte " + I(i) + " xor " + I(x)); }
        for (int x : {0x00, 0x7f, 0x80, 0xa0, 0xa1, 0xb7, 0xb8, 0xb9, 0xbf, 0xc0, 0xf7, 0xf8, 0xf9, 0xff}) { if (!next()) continue; Bytes e = t.raw; e[i] = x; check_edit(e, t, "byte " + I(i) + " = " + I(x)); }
      }
      for (int n : {1, 2, 32}) { if (!next()) continue; Bytes e = t.raw; e.resize(e.size() + n, 0x80); check_edit(e, t, "appended " + I(n)); }
    }
  // fields replaced by items of every kind
  if (section("decode/fields")) {
    std::vector<Bytes> items = {B({0x80}), B({0x00}), B({0x01}), B({0x7f}), rlp_str(B({0x80})), rlp_str(Bytes(2, 0)), rlp_str(Bytes(8, 0xff)), rlp_str(Bytes(9, 1)), rlp_str(cat(Bytes(5), Bytes(8, 7))), rlp_str(Bytes(19, 2)), rlp_str(Bytes(20, 3)), rlp_str(Bytes(21, 4)), rlp_str(Bytes(31, 5)), rlp_str(Bytes(32, 6)), rlp_str(Bytes(33, 7)), rlp_str(cat(B({0}), Bytes(32, 7))), rlp_str(Bytes(64, 8)), rlp_str(Bytes(300, 9)), B({0xc0}), rlp_list({B({1})}), rlp_list({rlp_str(Bytes(20, 1)), B({0xc0})}), rlp_list({rlp_list({rlp_str(Bytes(20, 1)), B({0xc0})})}), rlp_list({rlp_list({rlp_str(Bytes(19, 1)), B({0xc0})})}), rlp_list({rlp_list({rlp_str(Bytes(20, 1)), rlp_list({rlp_str(Bytes(31, 1))})})}), rlp_list({rlp_list({rlp_str(Bytes(20, 1))})}), rlp_list({rlp_str(Bytes(32, 1))}), rlp_list({rlp_str(Bytes(31, 1))}), rlp_list({B({0xc0})}), rlp_list({rlp_list({B({1}), rlp_str(Bytes(20, 2)), B({3}), B({1}), B({4}), B({5})})}), rlp_list({rlp_list({B({1}), rlp_str(Bytes(20, 2)), B({3}), B({1}), B({4})})}), rlp_list({rlp_list({B({1}), rlp_str(Bytes(20, 2)), B({3}), rlp_str(Bytes(2, 1)), B({4}), B({5})})}), rlp_list({rlp_list({B({1}), rlp_str(Bytes(20, 2)), rlp_str(Bytes(9, 1)), B({1}), B({4}), B({5})})}), rlp_list({rlp_list({B({1}), rlp_str(Bytes(20, 2)), B({2}), B({1}), rlp_str(Bytes(33, 1)), B({5})})}), rlp_list({rlp_list({rlp_str(Bytes(33, 1)), rlp_str(Bytes(20, 2)), B({2}), B({1}), B({4}), B({5})})}), rlp_list(std::vector<Bytes>(17, rlp_str(Bytes(32, 1)))), B({0xf8}), B({0xb8}), B({0xbf, 0xff}), B({0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}), {}};
    for (auto& t : small) {
      auto f = t.fields();
      f.push_back(rlp_str(t.v)); f.push_back(rlp_str(trim(t.sig.r))); f.push_back(rlp_str(trim(t.sig.s)));
      auto put = [&](const std::vector<Bytes>& g, const std::string& w) { if (!next()) return; Bytes e = rlp_list(g); if (t.type) e.insert(e.begin(), (uint8_t) t.type); check_edit(e, t, w); };
      for (size_t i = 0; i < f.size(); i++) {
        for (size_t k = 0; k < items.size(); k++) { auto g = f; g[i] = items[k]; put(g, "field " + I(i) + " item " + I(k)); }
        auto g = f; g.erase(g.begin() + i); put(g, "field " + I(i) + " missing");
        g = f; g.insert(g.begin() + i, B({1})); put(g, "additional field " + I(i));
        g = f; g.resize(i); put(g, "fields up to " + I(i));
        for (size_t k = 0; k < items.size() && thorough; k++) for (size_t j = i + 1; j < f.size(); j++) for (size_t l = 0; l < items.size(); l++) { auto h = f; h[i] = items[k]; h[j] = items[l]; put(h, "fields " + I(i) + " " + I(j)); }
      }
      for (int ty = 0; ty < 256; ty++) { // other type bytes
        if (!next()) continue;
        Bytes e = rlp_list(f); e.insert(e.begin(), (uint8_t) ty);
        check_edit(e, t, "type byte " + I(ty));
      }
    }
    for (int vv = 0; vv < 300; vv++) { // every v of legacy transactions
      if (!next()) continue;
      Tx t = base_tx(0, 1); t.sign();
      auto f = t.fields(); f.push_back(rlp_u64(vv)); f.push_back(rlp_str(trim(t.sig.r))); f.push_back(rlp_str(trim(t.sig.s)));
      check_edit(rlp_list(f), t, "v " + I(vv));
    }
  }
  if (section("decode/arguments"))
    for (auto& t : small)
      for (const std::string& a : {std::string("[]"), std::string("null"), std::string("[null]"), std::string("[1]"), std::string("[\"\"]"), std::string("[\"0x\"]"), std::string("[{}]"), std::string("[[]]"), "[\"" + hx(t.raw).substr(2) + "\"]", "[\"" + hx(t.raw) + "0\"]", "[\"0xz" + hx(t.raw).substr(2) + "\"]"}) {
        if (!next()) continue;
        Res r = verify(local_req(), "colibri_decodeTransaction", a, chain(0));
        if (r.accepted && a.find(hx(t.raw).substr(2)) == std::string::npos) violation("decode:no-transaction-accepted", a);
        if (r.accepted && tx_diff(r.json, t, Bytes(32), 0, 0, 0).size() && a.find("0\"]") == std::string::npos) violation("decode:argument", a.substr(0, 100));
      }
  // ---- transaction proofs
  if (section("proof/honest"))
    for (int ci = 0; ci < 4; ci++)
      for (int kind = 0; kind < 2; kind++) {
        auto& f = fam(ci);
        for (size_t at = 0; at < f.size(); at += 150) {
          std::vector<Tx> l(f.begin() + at, f.begin() + std::min(at + 150, f.size()));
          std::optional<Bl> b;
          for (size_t i = 0; i < l.size(); i++)
            for (int m = 0; m < 3; m++) {
              if (!next()) continue;
              if (!b) b = block_of(l, ci, kind, "h" + I(ci) + I(kind) + I(at));
              ask(*b, request(nullptr, un(P_TX, tx_proof(*b, i))), m, targs(m, *b, i), (int) i, true, "honest", "index " + I(i));
              sample(std::string(M[m]) + targs(m, *b, i));
            }
        }
        for (int n : {1, 2, 3}) // small blocks
          for (int i = 0; i < n; i++)
            for (int m = 0; m < 3; m++) {
              if (!next()) continue;
              Bl b = block_of(std::vector<Tx>(small.begin(), small.begin() + n), ci, kind, "s" + I(n));
              ask(b, request(nullptr, un(P_TX, tx_proof(b, i))), m, targs(m, b, i), i, true, "honest", "small");
            }
      }
  const Bl B1 = block_of(small, 0, 0, "b1"), B2 = block_of({small[3], small[1], small[0]}, 0, 1, "b2");
  if (section("proof/binding"))
    for (auto* b : {&B1, &B2})
      for (size_t i = 0; i < b->txs.size(); i++) {
        Bytes rq = request(nullptr, un(P_TX, tx_proof(*b, i)));
        for (auto* q : {&B1, &B2})
          for (size_t j = 0; j < q->txs.size(); j++)
            for (int m = 0; m < 3; m++) { // the question of another transaction
              if (!next()) continue;
              bool same = m == 0 ? q->txs[j].hash == b->txs[i].hash : q == b && i == j;
              ask(*b, rq, m, targs(m, *q, j), same ? (int) i : -1, same, "binding", "proof of " + I(i));
            }
        std::string h = hx(b->txs[i].hash), bh = hx(b->x.blk.hash), n = hxu(b->x.blk.number), ix = hxu(i);
        std::vector<std::string> H = {"[]", "null", "{}", "[null]", "[1]", "[\"\"]", "[\"0x\"]", "[\"" + h.substr(0, 64) + "\"]", "[\"" + h + "00\"]", "[\"" + h.substr(2) + "\"]", "[\"0x00" + h.substr(2) + "\"]", "[[\"" + h + "\"]]", "[true]"};
        for (auto& a : H) { if (!next()) continue; ask(*b, rq, 0, a, a == "[\"" + h.substr(2) + "\"]" ? (int) i : -1, false, "binding", "arguments"); }
        std::vector<std::string> X = {"null", "\"\"", "\"0x\"", "\"0x0" + ix.substr(2) + "\"", "\"0x1" + std::string(8 - (ix.size() - 2), '0') + ix.substr(2) + "\"", "\"0x1" + std::string(16 - (ix.size() - 2), '0') + ix.substr(2) + "\"", "\"latest\"", "[]", "{}", "true", "\"" + hxu(i + 1) + "\"", "-1", "\"0x" + std::string(60, 'f') + "\""};
        std::vector<std::string> BH = {"null", "\"\"", "\"0x\"", "\"" + bh + "\"", "\"" + bh + "00\"", "\"" + bh.substr(0, 64) + "\"", "\"" + hx(tag32("zz")) + "\"", "{}", "1"};
        std::vector<std::string> BN = {"null", "\"\"", "\"0x\"", "\"" + n + "\"", "\"0x1" + std::string(16 - (n.size() - 2), '0') + n.substr(2) + "\"", "\"latest\"", "\"0x0\"", "\"0x1\"", "{}", "1", "\"" + bh + "\""};
        for (int m : {1, 2})
          for (auto& p : m == 1 ? BH : BN) {
            std::vector<std::string> XX = X;
            XX.push_back("\"" + ix + "\"");
            for (auto& q : XX) {
              if (!next()) continue;
              bool okb = p == "\"" + bh + "\"" ? m == 1 : p == "\"" + n + "\"" && m == 2;
              bool okx = q == "\"" + ix + "\"" || q == "\"0x0" + ix.substr(2) + "\"";
              ask(*b, rq, m, "[" + p + "," + q + "]", okb && okx ? (int) i : -1, false, "binding", "arguments");
            }
            if (next()) ask(*b, rq, m, "[" + p + "]", -1, false, "binding", "no index");
          }
        for (V d : {un(D_HASH, bv(Bytes(32))), un(D_BYTES, bl({}, 1 << 30)), un(D_UINT256, u256({}))}) { if (!next()) continue; ask(*b, request(d, un(P_TX, tx_proof(*b, i))), 0, targs(0, *b, i), (int) i, false, "binding", "supplied data"); }
      }
  if (section("proof/wire"))
    for (auto* b : {&B1, &B2})
      for (size_t i = 0; i < b->txs.size(); i += thorough ? 1 : 2)
        wire_edits(request(nullptr, un(P_TX, tx_proof(*b, i))), [&](const Bytes& rq, const std::string& w) { ask(*b, rq, i % 3, targs(i % 3, *b, i), (int) i, false, "wire", w); });
  if (section("proof/edits"))
    for (auto* b : {&B1, &B2})
      for (size_t i = 0; i < b->txs.size(); i++) {
        V p = tx_proof(*b, i);
        std::vector<std::pair<std::string, V>> ls;
        leaves(p, "", ls);
        for (auto& l : ls) {
          if (l.first.find("header_proof") != std::string::npos) continue;
          for (size_t k = 0; k < l.second->data.size(); k++)
            for (int bit : {0, 7}) {
              for (int m = 0; m < 3; m++) {
                if (!next()) continue;
                l.second->data[k] ^= 1 << bit;
                ask(*b, request(nullptr, un(P_TX, p)), m, targs(m, *b, i), (int) i, false, "edits", l.first + " byte " + I(k));
                l.second->data[k] ^= 1 << bit;
              }
              if (l.first == ".transaction" || l.first == ".transactionIndex") { // asking for the changed transaction
                for (int m = 0; m < 3; m++) {
                  if (!next()) continue;
                  l.second->data[k] ^= 1 << bit;
                  uint32_t ni = 0; Bytes d = get(p, "transactionIndex")->data; for (int z = 3; z >= 0; z--) ni = ni << 8 | d[z];
                  std::string a = m == 0 ? "[\"" + hx(keccak(get(p, "transaction")->data)) + "\"]" : m == 1 ? "[\"" + hx(b->x.blk.hash) + "\",\"" + hxu(ni) + "\"]" : "[\"" + hxu(b->x.blk.number) + "\",\"" + hxu(ni) + "\"]";
                  ask(*b, request(nullptr, un(P_TX, p)), m, a, l.first == ".transactionIndex" && m == 0 ? (int) i : -1, false, "edits", "asked for the changed " + l.first + " byte " + I(k));
                  l.second->data[k] ^= 1 << bit;
                }
              }
            }
        }
        for (size_t j = 0; j < b->txs.size(); j++) // another transaction or index with this proof
          for (int what = 0; what < 3; what++)
            for (int m = 0; m < 3; m++) {
              if (j == i || !next()) continue;
              V q = copy(p);
              if (what != 1) put(q, "transaction", bl(b->txs[j].raw, 1 << 30));
              if (what != 0) put(q, "transactionIndex", u(j, 4));
              int  tr = -1;
              Bytes asked = what == 1 ? b->txs[i].hash : b->txs[j].hash;
              std::string a = m == 0 ? "[\"" + hx(asked) + "\"]" : targs(m, *b, what == 0 ? i : j);
              ask(*b, request(nullptr, un(P_TX, q)), m, a, tr, false, "edits", "exchanged");
            }
        auto nodes = get(p, "proof")->kids;
        for (size_t k = 0; k <= nodes.size(); k++)
          for (int op = 0; op < 4; op++) {
            if (!next()) continue;
            V q = copy(p);
            auto& n = get(q, "proof")->kids;
            if (op == 0 && k < n.size()) n.erase(n.begin() + k);
            if (op == 1) n.insert(n.begin() + k, bv(Bytes(32)));
            if (op == 2) n.resize(k);
            if (op == 3 && k + 1 < n.size()) std::swap(n[k], n[k + 1]);
            ask(*b, request(nullptr, un(P_TX, q)), 0, targs(0, *b, i), (int) i, false, "edits", "nodes op " + I(op) + " at " + I(k));
          }
      }
  // transactions hidden below values of the block anyone can choose (graffiti, extra data, ...), reached with a huge index
  if (section("proof/hidden")) {
    Tx fake = base_tx(2, 1); fake.value = bemin(1000000000000000000ull); fake.key = 3; fake.sign();
    Bytes leaf = htr(bl(fake.raw, 1073741824));
    // places: body fields and 32-byte leaves of the payload
    for (int kind = 0; kind < 2; kind++)
      for (int place = 0; place < 20; place++)
        for (int bitsn = 31; bitsn <= 33; bitsn++)
          for (int side = 0; side < 3; side++) {
            if (!next()) continue;
            Block k;
            k.body_fields = kind ? 13 : 12;
            k.number = 21000000 + kind; k.hash = tag32("hidden"); k.baseFee = le(BASE, 32);
            k.txs = {small[0].raw};
            static const char* PL[] = {"parentHash", "stateRoot", "receiptsRoot", "prevRandao", "blockHash", "extraData", "feeRecipient"};
            if (place >= k.body_fields && place < 13) continue;
            std::string g;
            Body b0 = make_body(k);
            if (place < 13) { if (place == 9) continue; g = walk(b0.v, {"f" + I(place)}).g; }
            else { g = pg(b0, {PL[place - 13]}); if (place == 18) g += "0"; }
            int below = bitsn - (int) g.size();
            if (below <= 0) continue;
            uint64_t path = side == 0 ? 0 : side == 1 ? (1ull << below) - 1 : (1ull << below) / 3;
            std::string tg = g + bin(path, below);
            uint64_t gx = gi(tg);
            if (gx < 1704984576ull || gx - 1704984576ull > 0xffffffffull) continue;
            uint32_t idx = (uint32_t) (gx - 1704984576ull);
            // nodes below the place
            NodeMap extra;
            Bytes   n = leaf;
            std::string cur = tg;
            extra[cur] = n;
            while (cur.size() > g.size()) { std::string sb = cur; sb.back() = sb.back() == '0' ? '1' : '0'; extra[sb] = Bytes(32, 0x77); n = cur.back() == '0' ? sha2(n, extra[sb]) : sha2(extra[sb], n); cur.pop_back(); extra[cur] = n; }
            if (place < 13) k.fields[place] = n;
            else switch (place - 13) { case 0: k.parentHash = n; break; case 1: k.stateRoot = n; break; case 2: k.receiptsRoot = n; break; case 3: k.randao = n; break; case 4: k.hash = n; break; case 5: k.extra = n; break; case 6: continue; }
            Bl b; b.txs = {small[0]};
            b.x = make_exec(chain(0), exec_slot(chain(0), kind), k, "hidden" + I(kind * 10000 + place * 100 + bitsn * 3 + side));
            for (auto& e : extra) b.x.body.m[e.first] = e.second;
            std::vector<std::string> gsl = {pg(b.x.body, {"blockNumber"}), pg(b.x.body, {"blockHash"}), pg(b.x.body, {"baseFeePerGas"}), tg};
            std::vector<Bytes> nodes = mproof(b.x.body, gsl);
            V p = cont({{"transaction", bl(fake.raw, 1073741824)}, {"transactionIndex", u(idx, 4)}, {"blockNumber", u(k.number, 8)}, {"blockHash", bv(k.hash)}, {"baseFeePerGas", u(BASE, 8)}, {"proof", h32list(nodes, 64)}, {"header", b.x.h.v()}, {"header_proof", b.x.hp}});
            ask(b, request(nullptr, un(P_TX, p)), 0, "[\"" + hx(fake.hash) + "\"]", -1, false, "hidden", (place < 13 ? "body field " + I(place) : std::string(PL[place - 13])) + " index " + I(idx));
          }
  }
  finish();
}
