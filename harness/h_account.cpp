// C12: answers about accounts, storage, code and proofs are those of the state of the signed block
#include "exec.hpp"
#include "wire.hpp"
using namespace mc;
using namespace world;
static std::string I(uint64_t x) { return std::to_string(x); }
static const Bytes EMPTY_CODE = keccak(Bytes()), EMPTY_TRIE = keccak(B({0x80}));
struct Acc {
  Bytes                  addr, balance; // balance: minimal big endian
  uint64_t               nonce = 0;
  Bytes                  code;
  std::map<Bytes, Bytes> st; // 32-byte key -> minimal value
  Trie                   trie() const { Trie t; for (auto& p : st) t.set(keccak(p.first), rlp_str(p.second)); return t; }
  Bytes                  shash() const { return st.empty() ? EMPTY_TRIE : trie().root(); }
  Bytes                  chash() const { return keccak(code); }
  Bytes                  rlp() const { return rlp_list({rlp_u64(nonce), rlp_str(balance), rlp_str(shash()), rlp_str(chash())}); }
};
static Bytes adr(const std::string& s) { Bytes t = tag32(s); return Bytes(t.begin() + 12, t.end()); }
static Bytes k32(uint64_t i) { return be(i, 32); }
struct Db {
  std::vector<Acc>   a;
  Trie               t;
  std::vector<Bytes> missing;      // addresses
  Bytes              kdiv, kempty; // missing keys of account 0
  const Acc* find(const Bytes& ad) const { for (auto& x : a) if (x.addr == ad) return &x; return nullptr; }
};
static int last_items(const std::vector<Bytes>& p) { // 2: leaf/extension, 17: branch
  const Bytes& n = p.back();
  size_t pos = n[0] >= 0xf8 ? 1 + (n[0] - 0xf7) : 1, c = 0;
  while (pos < n.size()) { uint8_t x = n[pos]; size_t l = x < 0x80 ? 1 : x < 0xb8 ? 1 + (x - 0x80) : x < 0xc0 ? 1 + (x - 0xb7) + n[pos + 1] : 1 + (x - 0xc0); pos += l; c++; }
  return (int) c;
}
static Db make_db(int n) {
  Db d;
  for (int i = 0; i < n; i++) {
    Acc x;
    x.addr = adr("acc" + I(i)); x.nonce = i; x.balance = bemin(1000003ull * i);
    if (i == 0) { x.nonce = 1; x.balance = bemin(77); x.code = S("code of zero"); for (int k = 0; k < 20; k++) x.st[k32(k * k)] = k == 0 ? B({1}) : k == 1 ? Bytes(32, 0xee) : k == 2 ? B({0x7f}) : k == 3 ? B({0x80}) : bemin(1000000007ull * k); }
    if (i == 1) { x.nonce = 5; x.balance = bemin(1000000000000000000ull); }
    if (i == 2) { x.code = S("two"); x.st[k32(9)] = bemin(0x1234); }
    if (i == 3) { x.balance = {}; x.nonce = 1; x.code = Bytes(300, 0x5b); x.st[k32(1)] = B({5}); x.st[k32(2)] = Bytes(32, 0xff); }
    if (i == 4) { x.balance = Bytes(32, 0xff); x.nonce = ~0ull; }
    if (i == 5) { x.balance = {}; x.nonce = 0; } // empty but existing
    d.a.push_back(x);
    d.t.set(keccak(x.addr), x.rlp());
  }
  bool dv = false, em = n == 1;
  for (int i = 0; !dv || !em; i++) {
    Bytes m = adr("missing" + I(i));
    int   l = last_items(d.t.prove(keccak(m)));
    if (l == 2 && !dv) { dv = true; d.missing.push_back(m); }
    if (l == 17 && !em) { em = true; d.missing.push_back(m); }
  }
  Trie st = d.a[0].trie();
  for (int i = 1000; d.kdiv.empty() || d.kempty.empty(); i++) {
    int l = last_items(st.prove(keccak(k32(i))));
    if (l == 2 && d.kdiv.empty()) d.kdiv = k32(i);
    if (l == 17 && d.kempty.empty()) d.kempty = k32(i);
  }
  return d;
}
enum { BAL, NONCE, CODE, STORAGE, PROOF };
static const char* METH[] = {"eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt", "eth_getProof"};
struct Q {
  int                m;
  Bytes              addr;
  std::vector<Bytes> keys;
  int                ref = 0; // 0 latest 1 hash 2 number
  uint64_t           number = 0;
  Bytes              hash;
  std::string        args() const {
    std::string b = ref == 0 ? "\"latest\"" : ref == 1 ? "\"" + hx(hash) + "\"" : "\"" + hxu(number) + "\"";
    std::string k;
    if (m == STORAGE) k = ",\"" + hx(keys[0]) + "\"";
    if (m == PROOF) { k = ",["; for (size_t i = 0; i < keys.size(); i++) k += (i ? ",\"" : "\"") + hx(keys[i]) + "\""; k += "]"; }
    return "[\"" + hx(addr) + "\"" + k + "," + b + "]";
  }
};
static Bytes pad(const Bytes& v) { Bytes r(32 - v.size()); app(r, v); return r; }
static std::string nodes_json(const std::vector<Bytes>& l) { std::string s = "["; for (size_t i = 0; i < l.size(); i++) s += (i ? ",\"" : "\"") + hx(l[i]) + "\""; return s + "]"; }
static std::vector<Bytes> st_nodes(const Acc* a, const Bytes& key) { if (!a || a->st.empty()) return {}; return a->trie().prove(keccak(key)); }
// the answer of a full node; "" if the block is not the one of x
static std::string truth(const Db& d, const Exec& x, const Q& q) {
  if (q.ref == 1 && q.hash != x.blk.hash) return "";
  if (q.ref == 2 && q.number != x.blk.number) return "";
  const Acc* a = d.find(q.addr);
  auto value = [&](const Bytes& k) { Bytes v; if (a) { auto i = a->st.find(k); if (i != a->st.end()) v = i->second; } return pad(v); };
  switch (q.m) {
    case BAL: return "\"" + hxn(a ? a->balance : Bytes()) + "\"";
    case NONCE: return "\"" + hxu(a ? a->nonce : 0) + "\"";
    case CODE: return "\"" + hx(a ? a->code : Bytes()) + "\"";
    case STORAGE: return "\"" + hx(value(q.keys[0])) + "\"";
    case PROOF: {
      std::string s = "{\"balance\":\"" + hxn(a ? a->balance : Bytes()) + "\",\"codeHash\":\"" + hx(a ? a->chash() : EMPTY_CODE) + "\",\"nonce\":\"" + hxu(a ? a->nonce : 0) + "\",\"storageHash\":\"" + hx(a ? a->shash() : EMPTY_TRIE) + "\",\"accountProof\":" + nodes_json(d.t.prove(keccak(q.addr))) + ",\"storageProof\":[";
      for (size_t i = 0; i < q.keys.size(); i++) s += std::string(i ? "," : "") + "{\"key\":\"" + hx(q.keys[i]) + "\",\"value\":\"" + hx(value(q.keys[i])) + "\",\"proof\":" + nodes_json(st_nodes(a, q.keys[i])) + "}";
      return s + "]}";
    }
  }
  return "";
}
static std::string nows(const std::string& s) { std::string r; for (char c : s) if (c != ' ' && c != '\n') r += c; return r; }
struct P { V data, proof; };
static P honest(const Db& d, const Exec& x, const Q& q) {
  const Acc*     a = d.find(q.addr);
  std::vector<V> sp;
  for (auto& k : q.keys) sp.push_back(cont({{"key", bv(k)}, {"proof", nodelist(st_nodes(a, k), 1024)}}));
  P p;
  p.proof = cont({{"accountProof", nodelist(d.t.prove(keccak(q.addr)), 256)}, {"address", bv(q.addr)}, {"storageProof", list(sp, 256, false, 0, false)}, {"state_proof", state_proof(x, q.ref)}});
  p.data  = q.m == CODE ? un(D_BYTES, bl(a ? a->code : Bytes(), 1 << 30)) : none();
  return p;
}
static Bytes enc(const P& p) { return request(p.data, un(P_ACCOUNT, p.proof)); }
static const Db&   db(int n) { static std::map<int, Db> m; auto i = m.find(n); if (i == m.end()) i = m.emplace(n, make_db(n)).first; return i->second; }
static const Exec& ex(int ci, int kind, int n) {
  static std::map<int, Exec> m;
  int k = ci * 1000 + kind * 100 + n;
  auto i = m.find(k);
  if (i == m.end()) {
    Block b;
    b.stateRoot = db(n).t.root();
    b.number    = 21000000 + k; b.hash = tag32("blk" + I(k));
    i = m.emplace(k, make_exec(chain(ci), exec_slot(chain(ci), kind), b, I(k))).first;
  }
  return i->second;
}
// the same without the nodes: a proof for a missing key stays a proof if a node is repeated at its end
static std::string nonodes(const std::string& s) {
  std::string r;
  for (size_t i = 0; i < s.size();) {
    size_t e = s.compare(i, 8, "\"proof\":") == 0 || s.compare(i, 15, "\"accountProof\":") == 0 ? s.find(']', i) : std::string::npos;
    if (e == std::string::npos) r += s[i++]; else i = e + 1;
  }
  return r;
}
static void run(const Db& d, const Exec& x, const Q& q, const Bytes& rq, bool must, const std::string& what, const std::string& detail, const std::string* args = nullptr) {
  trust(x);
  Res         r = verify(rq, METH[q.m], args ? *args : q.args(), *x.ch);
  std::string t = truth(d, x, q);
  outcome(hash64(r.accepted ? "ok" : r.error, hash64(cur_section)));
  if (must && r.pending) violation(what + ":pending", detail);
  if (must && !r.accepted) violation(what + ":honest-rejected:" + METH[q.m], detail + " " + q.args() + " error=" + r.error);
  if (r.accepted && (t.empty() || (must ? nows(r.json) != t : nonodes(nows(r.json)) != nonodes(t)))) violation(what + (must ? ":wrong-answer:" : ":forgery-accepted:") + METH[q.m], detail + " " + (args ? *args : q.args()) + " answer " + nows(r.json).substr(0, 200) + " expected " + t.substr(0, 200));
}
static std::vector<Q> queries(const Db& d, const Exec& x, bool small = false) {
  std::vector<Q> r;
  std::vector<Bytes> as;
  for (size_t i = 0; i < d.a.size() && i < (small ? 3 : 6); i++) as.push_back(d.a[i].addr);
  for (auto& m : d.missing) as.push_back(m);
  for (auto& a : as)
    for (int m = BAL; m <= PROOF; m++) {
      std::vector<std::vector<Bytes>> ks = {{}};
      if (m == STORAGE) ks = small ? std::vector<std::vector<Bytes>>{{k32(0)}, {k32(1)}} : std::vector<std::vector<Bytes>>{{k32(0)}, {k32(1)}, {k32(4)}, {k32(9)}, {d.kdiv}, {d.kempty}};
      if (m == PROOF) ks = small ? std::vector<std::vector<Bytes>>{{}, {k32(0), k32(1)}} : std::vector<std::vector<Bytes>>{{}, {k32(0)}, {k32(1), k32(0)}, {d.kdiv}, {k32(9), d.kempty, k32(4)}, {k32(0), k32(0)}};
      for (auto& k : ks)
        for (int ref = 0; ref < 3; ref++) {
          if (small && ref == 1 && m != BAL) continue;
          Q q{m, a, k, ref, x.blk.number, x.blk.hash};
          r.push_back(q);
        }
    }
  return r;
}
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store();
  if (section("account/honest"))
    for (int n : {1, 7, 40})
      for (int ci : {0, 2})
        for (int kind = 0; kind < 2; kind++) {
          const Db& d = db(n); const Exec& x = ex(ci, kind, n);
          for (auto& q : queries(d, x)) {
            if (!next()) continue;
            run(d, x, q, enc(honest(d, x, q)), true, "honest", "accounts " + I(n) + " chain " + I(x.ch->id) + " kind " + I(kind));
            sample(std::string(METH[q.m]) + " " + q.args().substr(0, 120));
          }
        }
  // a proof made for one question given as the answer of another
  if (section("account/binding")) {
    const Db& d = db(40); const Exec &x = ex(0, 0, 40), &y = ex(0, 0, 7);
    auto qs = queries(d, x, true);
    std::vector<Q> extra;
    for (auto q : qs) if (q.ref) { // other blocks
      q.number = q.ref == 2 ? q.number + 1 : q.number; q.hash = tag32("other"); extra.push_back(q);
      q.number = y.blk.number; q.hash = y.blk.hash; extra.push_back(q);
    }
    for (auto q : qs) if (q.m == STORAGE || q.m == PROOF) { if (q.keys.size() == 2) { std::swap(q.keys[0], q.keys[1]); extra.push_back(q); q.keys.pop_back(); extra.push_back(q); } }
    auto all = qs; all.insert(all.end(), extra.begin(), extra.end());
    for (size_t i = 0; i < qs.size(); i++) {
      Bytes rq;
      for (size_t j = 0; j < all.size(); j++) {
        if (!next()) continue;
        if (rq.empty()) rq = enc(honest(d, x, qs[i]));
        run(d, x, all[j], rq, false, "binding", std::string("proof for ") + METH[qs[i].m] + qs[i].args());
      }
    }
  }
  // every byte of every part of the proof changed
  if (section("account/edits")) {
    const Db& d = db(40);
    for (int ci : {0})
      for (int kind = 0; kind < 2; kind++) {
        const Exec& x = ex(ci, kind, 40);
        int qi = 0;
        for (auto& q : queries(d, x, true)) {
          if (qi++ % (thorough ? 1 : 4) && q.m != STORAGE) continue;
          P p = honest(d, x, q);
          std::vector<std::pair<std::string, V>> ls;
          leaves(p.proof, "", ls);
          if (p.data->kids.size()) leaves(p.data, "data", ls);
          for (auto& l : ls) {
            if (l.first.find("header_proof") != std::string::npos) continue;
            size_t step_by = l.second->data.size() > 200 ? 7 : 1;
            for (size_t i = 0; i < l.second->data.size(); i += step_by)
              for (int bit : {0, 7}) {
                if (!next()) continue;
                l.second->data[i] ^= 1 << bit;
                run(d, x, q, enc(p), false, "edits", l.first + " byte " + I(i) + " bit " + I(bit));
                l.second->data[i] ^= 1 << bit;
              }
            if (l.second->k == BLIST) // cut or extended
              for (int e = 0; e < 3; e++) {
                if (!next()) continue;
                Bytes o = l.second->data;
                if (e == 0 && o.size()) l.second->data.pop_back();
                if (e == 1) l.second->data.push_back(0);
                if (e == 2) l.second->data.clear();
                if (l.second->data != o) run(d, x, q, enc(p), false, "edits", l.first + " length edit " + I(e));
                l.second->data = o;
              }
          }
        }
      }
  }
  // every bit of the encoded answer: offsets, selectors and lengths included, cut at every byte and extended
  if (section("account/wire")) {
    const Db& d = db(7);
    const Exec& x = ex(0, 0, 7);
    std::set<int> seen;
    for (auto& q : queries(d, x, true)) {
      if (!seen.insert(q.m * 3 + q.ref).second) continue;
      if (q.m != BAL && q.ref == 0 && !thorough) continue;
      wire_edits(enc(honest(d, x, q)), [&](const Bytes& rq, const std::string& w) { run(d, x, q, rq, false, "wire", w); });
    }
  }
  // nodes and storage proofs dropped, repeated, exchanged, mixed
  if (section("account/lists")) {
    const Db& d = db(40); const Exec& x = ex(0, 1, 40);
    for (auto& q : queries(d, x)) {
      if (q.ref == 1) continue;
      P p0 = honest(d, x, q);
      auto with = [&](const std::string& what, const std::function<void(V)>& f) {
        if (!next()) return;
        P p{p0.data, copy(p0.proof)};
        f(p.proof);
        run(d, x, q, enc(p), false, "lists", what);
      };
      auto node_ops = [&](const std::string& nm, std::function<V(V)> sel) {
        size_t n = sel(p0.proof)->kids.size();
        for (size_t i = 0; i < n; i++) {
          with(nm + " drop " + I(i), [&](V pr) { V l = sel(pr); l->kids.erase(l->kids.begin() + i); });
          with(nm + " cut at " + I(i), [&](V pr) { V l = sel(pr); l->kids.resize(i); });
          with(nm + " repeat " + I(i), [&](V pr) { V l = sel(pr); l->kids.insert(l->kids.begin() + i, l->kids[i]); });
          for (size_t j = i + 1; j < n; j++) with(nm + " swap " + I(i) + "," + I(j), [&](V pr) { V l = sel(pr); std::swap(l->kids[i], l->kids[j]); });
        }
        with(nm + " additional", [&](V pr) { V l = sel(pr); l->kids.push_back(bl(d.a[0].rlp(), 1 << 30)); });
        with(nm + " empty node", [&](V pr) { V l = sel(pr); l->kids.push_back(bl({}, 1 << 30)); });
      };
      node_ops("account", [](V pr) { return get(pr, "accountProof"); });
      for (size_t s = 0; s < q.keys.size(); s++) node_ops("storage" + I(s), [s](V pr) { return get(get(pr, "storageProof")->kids[s], "proof"); });
      node_ops("state", [](V pr) { return get(get(pr, "state_proof"), "proof"); });
      node_ops("storageProofs", [](V pr) { return get(pr, "storageProof"); });
      // parts of the proofs of other accounts and keys
      for (size_t o = 0; o < d.a.size() && o < 6; o++) {
        with("account proof of " + I(o), [&](V pr) { put(pr, "accountProof", nodelist(d.t.prove(keccak(d.a[o].addr)), 256)); });
        with("address of " + I(o), [&](V pr) { put(pr, "address", bv(d.a[o].addr)); });
        with("account and address of " + I(o), [&](V pr) { put(pr, "accountProof", nodelist(d.t.prove(keccak(d.a[o].addr)), 256)); put(pr, "address", bv(d.a[o].addr)); });
      }
      for (auto& k : std::vector<Bytes>{k32(0), k32(1), k32(4), k32(9), d.kdiv, d.kempty})
        for (int o : {0, 2, 3}) {
          with("storage proof of " + hx(k) + " account " + I(o), [&](V pr) { put(pr, "storageProof", list({cont({{"key", bv(k)}, {"proof", nodelist(st_nodes(&d.a[o], k), 1024)}})}, 256, false, 0, false)); });
          for (size_t s = 0; s < q.keys.size(); s++) {
            with("nodes of " + hx(k) + " account " + I(o) + " for " + I(s), [&](V pr) { put(get(pr, "storageProof")->kids[s], "proof", nodelist(st_nodes(&d.a[o], k), 1024)); });
            with("key of " + I(s), [&](V pr) { put(get(pr, "storageProof")->kids[s], "key", bv(k)); });
            with("insert before " + I(s), [&](V pr) { V l = get(pr, "storageProof"); l->kids.insert(l->kids.begin() + s, cont({{"key", bv(k)}, {"proof", nodelist(st_nodes(&d.a[o], k), 1024)}})); });
          }
          with("append", [&](V pr) { V l = get(pr, "storageProof"); l->kids.push_back(cont({{"key", bv(k)}, {"proof", nodelist(st_nodes(&d.a[o], k), 1024)}})); });
        }
      // the reference to the block
      for (int sel = 0; sel < 3; sel++)
        for (int val = 0; val < 3; val++) {
          with("block reference " + I(sel) + " value " + I(val), [&](V pr) { V sp = get(pr, "state_proof"); Bytes hh = val == 0 ? x.blk.hash : val == 1 ? Bytes(32) : tag32("q"); uint64_t nn = val == 0 ? x.blk.number : val == 1 ? 0 : 1; put(sp, "block", sel == 0 ? none() : sel == 1 ? un(1, bv(hh)) : un(2, u(nn, 8))); });
          with("block reference and proof " + I(sel) + " value " + I(val), [&](V pr) { V sp = get(pr, "state_proof"); V full = state_proof(x, sel); put(sp, "proof", get(full, "proof")); Bytes hh = val == 0 ? x.blk.hash : val == 1 ? Bytes(32) : tag32("q"); uint64_t nn = val == 0 ? x.blk.number : val == 1 ? 0 : 1; put(sp, "block", sel == 0 ? none() : sel == 1 ? un(1, bv(hh)) : un(2, u(nn, 8))); });
        }
    }
  }
  // data supplied by the prover
  if (section("account/data")) {
    const Db& d = db(40); const Exec& x = ex(0, 0, 40);
    std::vector<V> ds = {none(), un(D_HASH, bv(Bytes(32))), un(D_HASH, bv(tag32("x"))), un(D_HASH, bv(EMPTY_CODE)), un(D_BYTES, bl({}, 1 << 30)), un(D_BYTES, bl(S("code"), 1 << 30)), un(D_BYTES, bl(d.a[0].code, 1 << 30)), un(D_BYTES, bl(d.a[2].code, 1 << 30)), un(D_BYTES, bl(Bytes(32), 1 << 30)), un(D_UINT256, u256({})), un(D_UINT256, u256(B({77})))};
    for (auto& q : queries(d, x)) {
      P p = honest(d, x, q);
      for (size_t i = 0; i < ds.size(); i++) {
        if (!next()) continue;
        P e{ds[i], p.proof};
        bool same = ser(ds[i]) == ser(p.data);
        run(d, x, q, enc(e), same, "data", "data " + I(i));
      }
    }
  }
  // arguments which do not ask a valid question
  if (section("account/arguments")) {
    const Db& d = db(40); const Exec& x = ex(0, 0, 40);
    std::string ad = hx(d.a[0].addr);
    std::vector<std::string> A = {"null", "\"\"", "\"0x\"", "1", "{}", "[]", "\"" + ad.substr(0, 40) + "\"", "\"" + ad + "00\"", "\"" + ad.substr(2) + "\"", "\"0x000000000000000000000000" + ad.substr(2) + "\"", "\"" + ad + "\"", "\"0xzz" + ad.substr(4) + "\"", "true"};
    std::vector<std::string> K = {"null", "\"\"", "\"0x\"", "\"0x0\"", "\"0x00\"", "[]", "0", "{}", "\"" + hx(k32(0)) + "\"", "\"" + hx(k32(0)) + "00\"", "[\"" + hx(k32(0)) + "\"]", "[\"" + hx(k32(0)) + "\",null]", "[[]]", "[\"" + hx(k32(1)) + "\"]"};
    std::vector<std::string> Bk = {"null", "{}", "{\"blockNumber\":\"0x1\"}", "{\"blockHash\":\"" + hx(tag32("zz")) + "\"}", "[]", "1", "\"\"", "\"0x\"", "\"0x1\"", "\"latest\"", "\"" + hxu(x.blk.number) + "\"", "\"0xffffffffffffffffff\"", "\"0x1" + std::string(16 - (hxu(x.blk.number).size() - 2), '0') + hxu(x.blk.number).substr(2) + "\"", "\"" + hx(x.blk.hash) + "\"", "true"};
    for (int m = BAL; m <= PROOF; m++)
      for (int ref = 0; ref < 3; ref++)
        for (int nk = 0; nk <= (m == PROOF ? 2 : m == STORAGE ? 1 : 0); nk++) {
          std::vector<Bytes> ks;
          for (int i = 0; i < nk; i++) ks.push_back(k32(i));
          Q q{m, d.a[0].addr, ks, ref, x.blk.number, x.blk.hash};
          if (m == STORAGE && !nk) { ks = {}; }
          P p = honest(d, x, q);
          Bytes rq = enc(p);
          auto one = [&](const std::string& args, bool valid, const Q& qq) {
            if (!next()) return;
            trust(x);
            Res r = verify(rq, METH[m], args, *x.ch);
            outcome(hash64(r.accepted ? "ok" : r.error, hash64(cur_section)));
            if (r.accepted && (!valid || nows(r.json) != truth(d, x, qq))) violation(std::string("arguments:answered:") + METH[m], args + " answer " + nows(r.json).substr(0, 100));
          };
          for (auto& a : A)
            for (auto& k : K) {
              bool needk = m == STORAGE || m == PROOF;
              if (!needk && &k != &K[0]) continue;
              for (auto& b : Bk) {
                bool va = a == "\"" + ad + "\"";
                Q    qq = q;
                bool vk = !needk;
                if (m == STORAGE && k == K[8]) { vk = true; qq.keys = {k32(0)}; }
                if (m == PROOF && (k == K[5] || k == K[10] || k == K[13])) { vk = true; qq.keys.clear(); if (k == K[10]) qq.keys = {k32(0)}; if (k == K[13]) qq.keys = {k32(1)}; }
                int  bi = (int) (&b - &Bk[0]);
                bool vb = bi == 9 || bi == 10 || bi == 13;
                qq.ref = bi == 9 ? 0 : bi == 10 ? 2 : 1;
                one("[" + a + (needk ? "," + k : "") + "," + b + "]", va && vk && vb, qq);
              }
            }
          one("[]", false, q);
          one("[\"" + ad + "\"]", false, q);
          one("{}", false, q);
          one("null", false, q);
          one("", false, q);
        }
  }
  // tries an attacker made up: never accepted, never read out of bounds
  if (section("account/foreign")) {
    const Exec& x = ex(0, 0, 40);
    std::vector<Bytes> items = {B({0x80}), B({0x01}), rlp_str(Bytes(31, 1)), rlp_str(Bytes(32, 2)), rlp_str(Bytes(33, 3)), rlp_str(Bytes(64, 4)), rlp_str(Bytes(200, 4)), B({0xc0}), rlp_list({B({1}), B({2})})};
    auto go = [&](const Bytes& arlp, const Bytes* srlp, const std::string& d0) {
      Trie t, s;
      Bytes a = adr("foreign"), key = k32(3);
      t.set(keccak(a), arlp);
      std::vector<Bytes> sn;
      if (srlp) { s.set(keccak(key), *srlp); sn = s.prove(keccak(key)); }
      for (int m = BAL; m <= PROOF; m++)
        for (int signed_root = 0; signed_root < 2; signed_root++) {
          if (!next()) continue;
          Exec y = x;
          Block b = x.blk; b.stateRoot = signed_root ? t.root() : b.stateRoot;
          if (signed_root) { y.blk = b; y.body = make_body(b); y.h.body = y.body.root; } // consistent, but the signature is for another header
          Q q{m, a, m == STORAGE || m == PROOF ? std::vector<Bytes>{key} : std::vector<Bytes>{}, 0, 0, {}};
          std::vector<V> sp;
          if (q.keys.size() || srlp) sp.push_back(cont({{"key", bv(key)}, {"proof", nodelist(sn, 1024)}}));
          V pr = cont({{"accountProof", nodelist(t.prove(keccak(a)), 256)}, {"address", bv(a)}, {"storageProof", list(sp, 256, false, 0, false)}, {"state_proof", state_proof(y, 0)}});
          trust(x);
          Res r = verify(request(m == CODE ? un(D_BYTES, bl(S("foreign"), 1 << 30)) : nullptr, un(P_ACCOUNT, pr)), METH[m], q.args(), *x.ch);
          outcome(hash64(r.accepted ? "ok" : r.error, hash64(cur_section)));
          if (r.accepted) violation("foreign:forgery-accepted", d0);
        }
    };
    for (int n = 0; n <= 5; n++)
      for (size_t i = 0; i < items.size(); i++)
        for (int pos = 0; pos < std::max(n, 1); pos++) {
          std::vector<Bytes> l(n, B({0x05}));
          if (n > 2) l[2] = rlp_str(EMPTY_TRIE);
          if (n) l[pos] = items[i];
          go(rlp_list(l), nullptr, "account list of " + I(n) + " item " + I(pos) + " = " + hx(items[i]));
        }
    for (auto& it : items) go(it, nullptr, "account value " + hx(it));
    for (int len = 0; len <= 70; len++)
      for (int form = 0; form < 3; form++) {
        Bytes raw(len, 0x5a), s = form == 0 ? rlp_str(raw) : form == 1 ? raw : rlp_list({rlp_str(raw)});
        Trie  st; st.set(keccak(k32(3)), s);
        Bytes sv = s;
        go(rlp_list({rlp_u64(1), rlp_u64(2), rlp_str(st.root()), rlp_str(EMPTY_CODE)}), &sv, "storage leaf form " + I(form) + " length " + I(len));
      }
  }
  finish();
}
