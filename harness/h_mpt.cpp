// Merkle-Patricia: root, proofs and verification against the reference trie.
#include "ref.hpp"
#include "repo.hpp"
extern "C" {
#include "patricia.h"
}
using namespace mc;
using ref::Trie;
static const ssz_def_t BYTES_DEF = SSZ_BYTES("bytes", 1024 * 1024 * 16);
static const ssz_def_t LIST_DEF  = SSZ_LIST("nodes", BYTES_DEF, 1024);
// ssz encoding of a list of byte strings, exact heap allocation
struct Proof {
  uint8_t* p; uint32_t n;
  Proof(const std::vector<Bytes>& nodes) {
    std::vector<ref::V> k;
    for (auto& x : nodes) k.push_back(ref::bl(x, 1 << 24));
    Bytes s = ref::ser(ref::list(k, 1024, false, 0, false));
    n = s.size(); p = (uint8_t*) malloc(n ? n : 1); memcpy(p, s.data(), n);
  }
  ~Proof() { free(p); }
  ssz_ob_t ob() { return (ssz_ob_t){.def = &LIST_DEF, .bytes = bytes(p, n)}; }
};
static bytes_t by(const Bytes& b) { return bytes((uint8_t*) b.data(), (uint32_t) b.size()); }
static std::vector<Bytes> from_ob(ssz_ob_t o, bool& ok) {
  std::vector<Bytes> r;
  ok = true;
  if (o.bytes.len == 0) return r;
  uint32_t n = o.bytes.data[0] | o.bytes.data[1] << 8 | o.bytes.data[2] << 16 | (uint32_t) o.bytes.data[3] << 24;
  if (n % 4 || n > o.bytes.len) { ok = false; return r; }
  n /= 4;
  for (uint32_t i = 0; i < n; i++) {
    auto off = [&](uint32_t k) { uint32_t x; if (k == n) return o.bytes.len; memcpy(&x, o.bytes.data + 4 * k, 4); return x; };
    uint32_t a = off(i), b = off(i + 1);
    if (a > b || b > o.bytes.len) { ok = false; return r; }
    r.push_back(Bytes(o.bytes.data + a, o.bytes.data + b));
  }
  return r;
}
static std::string show(const Trie& t) { std::string s; for (auto& p : t.kv) s += hex(p.first) + "=" + std::to_string(p.second.size()) + ":" + hex(p.second).substr(0, 6) + " "; return s; }

// verify a given proof; returns result; root out
static int verify(const std::vector<Bytes>& nodes, const Bytes& key, Bytes& root, Bytes& val) {
  Proof     pr(nodes);
  bytes32_t r = {0};
  bytes_t   v = NULL_BYTES;
  Bytes     k = key;
  uint8_t*  kp = (uint8_t*) malloc(k.size() ? k.size() : 1);
  memcpy(kp, k.data(), k.size());
  int res = patricia_verify(r, bytes(kp, (uint32_t) k.size()), pr.ob(), &v);
  step();
  root.assign(r, r + 32);
  val.clear();
  if (res == PATRICIA_FOUND && v.data) val.assign(v.data, v.data + v.len);
  free(kp);
  return res;
}
static void check_honest(const Trie& t, const Bytes& root, const Bytes& key) {
  auto  pr = t.prove(key);
  Bytes r, v;
  int   res = verify(pr, key, r, v);
  auto  e   = t.get(key);
  std::string d = "trie{" + show(t) + "} key=" + hex(key) + " result=" + std::to_string(res);
  if (r != root) violation("honest-proof-wrong-root", d);
  if (e && res != PATRICIA_FOUND) violation("honest-inclusion-proof-rejected", d);
  else if (e && v != *e) violation("honest-inclusion-proof-wrong-value", d + " value=" + hex(v));
  else if (!e && res != PATRICIA_NOT_EXISTING) violation("honest-exclusion-proof-rejected", d);
  outcome(hash64(v, hash64(root, res)));
}
// a proof that the verifier accepts for `root` must tell the truth
static void check_sound(const Trie& t, const Bytes& root, const Bytes& key, const std::vector<Bytes>& nodes, const char* what) {
  Bytes r, v;
  int   res = verify(nodes, key, r, v);
  if (res == PATRICIA_INVALID || r != root) return;
  auto        e = t.get(key);
  std::string d = std::string(what) + " trie{" + show(t) + "} key=" + hex(key) + " result=" + std::to_string(res) + " value=" + hex(v);
  if (res == PATRICIA_FOUND && !e) violation("accepts-inclusion-of-absent-key", d);
  else if (res == PATRICIA_FOUND && v != *e) violation("accepts-wrong-value", d);
  else if (res == PATRICIA_NOT_EXISTING && e) violation("accepts-exclusion-of-present-key", d);
  else if (res != PATRICIA_FOUND && res != PATRICIA_NOT_EXISTING) violation("unknown-result", d);
}
static void check_trie(const std::vector<std::pair<Bytes, Bytes>>& ins, const std::vector<Bytes>& probes) {
  Trie    t;
  node_t* n = nullptr;
  node_t* cl = nullptr; Bytes clroot;
  size_t  i = 0;
  for (auto& p : ins) {
    t.set(p.first, p.second);
    patricia_set_value(&n, by(p.first), by(p.second));
    step();
    bytes_t r = patricia_get_root(n);
    Bytes   e = t.root();
    if (r.len != 32 || memcmp(r.data, e.data(), 32)) { violation("trie-root-wrong", "after " + std::to_string(i + 1) + " inserts; trie{" + show(t) + "} got=" + hex(r.data, 32) + " expected=" + hex(e)); patricia_node_free(n); if (cl) patricia_node_free(cl); return; }
    if (++i == (ins.size() + 1) / 2) { cl = patricia_clone_tree(n); clroot = e; step(); }
  }
  for (auto& k : probes) {
    ssz_ob_t o = patricia_create_merkle_proof(n, by(k));
    step();
    bool ok;
    auto got = from_ob(o, ok);
    auto exp = t.prove(k);
    if (!ok || got != exp) violation("created-proof-wrong", "trie{" + show(t) + "} key=" + hex(k) + " nodes=" + std::to_string(got.size()) + " expected=" + std::to_string(exp.size()) + (ok ? "" : " (malformed list)"));
    else if (memcmp(patricia_get_root(n).data, t.root().data(), 32)) violation("proof-creation-changes-root", "trie{" + show(t) + "}");
    // the returned object itself (with its type) is what callers hand on to the verifier
    { Bytes kk = k; bytes32_t r = {0}; bytes_t v = NULL_BYTES; auto e = t.get(k);
      int res = patricia_verify(r, by(kk), o, &v); step();
      if (res != (e ? PATRICIA_FOUND : PATRICIA_NOT_EXISTING) || (e && (v.len != e->size() || memcmp(v.data, e->data(), v.len))) || memcmp(r, t.root().data(), 32)) violation("created-proof-not-verifiable", "trie{" + show(t) + "} key=" + hex(k) + " result=" + std::to_string(res)); }
    free(o.bytes.data);
    check_honest(t, t.root(), k);
  }
  if (cl) {
    if (memcmp(patricia_get_root(cl).data, clroot.data(), 32)) violation("clone-changed-by-original", show(t));
    // the clone evolves on its own
    Trie t2;
    for (size_t k = 0; k < (ins.size() + 1) / 2; k++) t2.set(ins[k].first, ins[k].second);
    for (size_t k = ins.size(); k-- > (ins.size() + 1) / 2;) { t2.set(ins[k].first, ins[k].second); patricia_set_value(&cl, by(ins[k].first), by(ins[k].second)); step(); }
    if (memcmp(patricia_get_root(cl).data, t2.root().data(), 32)) violation("clone-root-wrong", show(t));
    patricia_node_free(cl);
  }
  patricia_node_free(n);
}
static Bytes val(int k, int len) { Bytes v(len, (uint8_t) (0x11 * (k + 1))); if (len > 1) v[1] = k; return v; }

int main(int argc, char** argv) {
  init(argc, argv);
  using ref::B;
  // families of keys: dense nibbles, long shared prefixes, rlp indices as used for receipts, prefix keys (value in a branch), repeating keys
  std::vector<std::vector<Bytes>> fam = {
      {B({0x00}), B({0x01}), B({0x02}), B({0x10}), B({0x11}), B({0x20}), B({0xf0}), B({0xff})},
      {B({0x12, 0x34, 0x56}), B({0x12, 0x34, 0x57}), B({0x12, 0x34, 0x66}), B({0x12, 0x35, 0x56}), B({0x13, 0x34, 0x56}), B({0x12, 0x3f, 0x00}), B({0x02, 0x34, 0x56}), B({0x12, 0x00, 0x00})},
      {B({0x80}), B({0x01}), B({0x02}), B({0x7f}), B({0x81, 0x80}), B({0x81, 0x81}), B({0x81, 0xff}), B({0x82, 0x01, 0x00})},
      {B({0x00, 0x00, 0x00, 0x00}), B({0x00, 0x00, 0x00, 0x01}), B({0x00, 0x00, 0x00, 0x10}), B({0x00, 0x00, 0x01, 0x00}), B({0x00, 0x10, 0x00, 0x00}), B({0x10, 0x00, 0x00, 0x00}), B({0x00, 0x00, 0x11, 0x11}), B({0xff, 0xff, 0xff, 0xff})},
      {B({0x12}), B({0x12, 0x34}), B({0x12, 0x34, 0x56}), B({0x12, 0x35}), B({0x10}), B({0x12, 0x04}), B({0x12, 0x34, 0x50}), B({0x22})},
      {B({0x11}), B({0x11, 0x11}), B({0x12}), B({0x12, 0x12}), B({0x11, 0x12, 0x11}), B({0x11, 0x11, 0x11}), B({0x21}), B({0x11, 0x12})}}; // keys that repeat parts of themselves
  std::vector<std::vector<int>> lens = {{40, 40, 40, 40}, {1, 1, 1, 1}, {3, 33, 3, 33}, {31, 32, 1, 60}, {28, 2, 29, 300}};
  if (section("insert-orders")) { // all ordered selections of up to 4 (5) keys, incl. repeated keys = overwrites
    int D = thorough ? 5 : 4;
    for (size_t f = 0; f < fam.size(); f++)
      for (size_t l = 0; l < lens.size(); l++)
        for (int d = 1; d <= D; d++) {
          if (d == 5 && l > 1) continue;
          std::vector<int> ix(d, 0);
          int n = d >= 4 ? (thorough ? 8 : 6) : 8;
          while (true) {
            if (next()) {
              std::vector<std::pair<Bytes, Bytes>> ins;
              for (int i = 0; i < d; i++) ins.push_back({fam[f][ix[i]], val(i, lens[l][i % 4])});
              check_trie(ins, fam[f]);
              if (cur_case % 4000 == 0) { std::string s; for (auto& p : ins) s += hex(p.first) + ":" + std::to_string(p.second.size()) + "B "; sample("insert " + s); }
            }
            int p = d - 1;
            while (p >= 0 && ++ix[p] == n) ix[p--] = 0;
            if (p < 0) break;
          }
        }
  }
  if (section("receipt-indices")) { // tries keyed by rlp(index) as the receipt tries are, every size up to the bound, every index proven
    int N = thorough ? 300 : 140;
    for (int size = 1; size <= N; size++)
      for (int l : {260, 20}) {
        if (!next()) continue;
        std::vector<std::pair<Bytes, Bytes>> ins;
        std::vector<Bytes>                   pr;
        for (int i = 0; i < size; i++) ins.push_back({ref::rlp_u64(i), val(i, l)});
        for (int i = 0; i <= size; i += (size > 20 ? 1 + size / 20 : 1)) pr.push_back(ref::rlp_u64(i));
        pr.push_back(ref::rlp_u64(size)); pr.push_back(ref::rlp_u64(255)); pr.push_back(ref::rlp_u64(256));
        // order given by the map is exercised by insert-orders; here forward, and backward for odd sizes
        if (size & 1) std::reverse(ins.begin(), ins.end());
        Trie t; node_t* n = nullptr;
        for (auto& p : ins) { t.set(p.first, p.second); patricia_set_value(&n, by(p.first), by(p.second)); step(); }
        Bytes e = t.root();
        if (memcmp(patricia_get_root(n).data, e.data(), 32)) violation("trie-root-wrong", "indices 0.." + std::to_string(size - 1) + " len=" + std::to_string(l));
        for (auto& k : pr) {
          ssz_ob_t o = patricia_create_merkle_proof(n, by(k)); step();
          bool ok; auto got = from_ob(o, ok);
          if (!ok || got != t.prove(k)) violation("created-proof-wrong", "indices 0.." + std::to_string(size - 1) + " len=" + std::to_string(l) + " key=" + hex(k));
          free(o.bytes.data);
          check_honest(t, e, k);
        }
        patricia_node_free(n);
      }
  }
  if (section("deep-paths")) { // a branch at every nibble down to depth d of a 32-byte key, the longest path a state trie can have
    for (int d = 0; d <= 64; d++)
      for (int l : {40, 2}) {
        if (!next()) continue;
        Bytes base(32, 0);
        for (int i = 0; i < 32; i++) base[i] = (uint8_t) (0x12 + 0x21 * (i % 7));
        std::vector<std::pair<Bytes, Bytes>> ins = {{base, val(0, l)}};
        for (int i = 0; i < d; i++) { Bytes k = base; k[i / 2] ^= (i & 1) ? 0x01 : 0x10; ins.push_back({k, val(i, l)}); }
        std::vector<Bytes> pr;
        for (auto& p : ins) pr.push_back(p.first);
        Bytes miss = base; miss[31] ^= 0x0e; pr.push_back(miss); miss = base; miss[15] ^= 0x0c; pr.push_back(miss);
        check_trie(ins, pr);
      }
  }
  // forged proofs: every structural and bit-level change of honest proofs, and honest nodes recombined
  std::vector<Trie> tries;
  {
    for (size_t f = 0; f < fam.size(); f++)
      for (size_t l = 0; l < lens.size(); l++)
        for (int m : {0x01, 0x03, 0x07, 0x1f, 0x2d, 0x7f}) {
          Trie t;
          for (int i = 0; i < 8; i++) if (m >> i & 1) t.set(fam[f][i], val(i, lens[l][i % 4]));
          tries.push_back(t);
        }
    // hashed 32-byte keys as in state and storage tries
    for (int n : {1, 2, 5, 17, 40}) {
      Trie t;
      for (int i = 0; i < n; i++) t.set(ref::keccak(ref::be(i, 32)), ref::rlp_str(val(i, 1 + (i * 7) % 32)));
      tries.push_back(t);
    }
  }
  auto probes_of = [&](size_t ti) {
    std::vector<Bytes> r;
    if (ti < fam.size() * lens.size() * 6) return fam[ti / (lens.size() * 6)];
    for (int i : {0, 1, 3, 16, 39, 77, 78}) r.push_back(ref::keccak(ref::be(i, 32)));
    return r;
  };
  if (section("forged-structure")) {
    for (size_t ti = 0; ti < tries.size(); ti++) {
      Trie& t = tries[ti];
      Bytes root = t.root();
      auto  pk   = probes_of(ti);
      std::vector<Bytes> pool;
      for (auto& k : pk) for (auto& x : t.prove(k)) if (std::find(pool.begin(), pool.end(), x) == pool.end()) pool.push_back(x);
      for (auto& k : pk) {
        auto pr = t.prove(k);
        if (next()) { check_honest(t, root, k); }
        for (size_t n = 0; n < pr.size(); n++) if (next()) check_sound(t, root, k, {pr.begin(), pr.begin() + n}, "truncated");
        for (size_t n = 0; n < pr.size(); n++) if (next()) { auto q = pr; q.erase(q.begin() + n); check_sound(t, root, k, q, "node dropped"); }
        for (size_t n = 0; n < pr.size(); n++) if (next()) { auto q = pr; q.insert(q.begin() + n, pr[n]); check_sound(t, root, k, q, "node doubled"); }
        for (auto& x : pool) if (next()) { auto q = pr; q.push_back(x); check_sound(t, root, k, q, "node appended"); }
        if (next()) { auto q = pr; q.push_back({}); check_sound(t, root, k, q, "empty node appended"); }
        for (size_t n = 0; n < pr.size(); n++) for (auto& x : pool) if (next()) { auto q = pr; q[n] = x; check_sound(t, root, k, q, "node replaced"); }
        for (auto& k2 : pk) if (k2 != k && next()) check_sound(t, root, k, t.prove(k2), "proof of other key");
        // every list of up to 3 genuine nodes
        size_t P = std::min(pool.size(), (size_t) 8);
        for (size_t a = 0; a < P; a++) for (size_t b = 0; b < P; b++) for (size_t c = 0; c <= P; c++) if (next()) { std::vector<Bytes> q = {pool[a], pool[b]}; if (c < P) q.push_back(pool[c]); check_sound(t, root, k, q, "recombined nodes"); }
      }
    }
  }
  if (section("forged-bits")) {
    for (size_t ti = 0; ti < tries.size(); ti++) {
      if (!thorough && ti % 3) continue;
      Trie& t    = tries[ti];
      Bytes root = t.root();
      for (auto& k : probes_of(ti)) {
        auto pr = t.prove(k);
        for (size_t n = 0; n < pr.size(); n++)
          for (size_t i = 0; i < pr[n].size(); i++)
            if (i < 40 || i % 16 == 0 || thorough)
            for (int b = 0; b < 8; b++) if (next()) { auto q = pr; q[n][i] ^= 1 << b; check_sound(t, root, k, q, "bit flipped"); }
      }
    }
  }
  if (section("arbitrary-nodes")) { // memory safety and termination: arbitrary bytes as nodes
    static const uint8_t al[] = {0x00, 0x20, 0x3f, 0x80, 0x81, 0xa0, 0xb8, 0xbb, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xf8, 0xfb, 0xff};
    int D = thorough ? 5 : 4;
    for (int d = 0; d <= D; d++) {
      std::vector<int> ix(d, 0);
      while (true) {
        if (next()) {
          Bytes b; for (int i : ix) b.push_back(al[i]);
          Bytes r, v;
          for (auto& k : {B({}), B({0x00}), B({0x12})}) { verify({b}, k, r, v); verify({ref::cat(ref::rlp_len(b.size(), 0xc0), b)}, k, r, v); 
            std::vector<Bytes> br(17, B({0x80})); br[0] = b; br[1] = b; if (b.empty()) br[0] = br[1] = B({0xc0}); verify({ref::rlp_list(br)}, k, r, v); }
          outcome(hash64(b));
        }
        int p = d - 1;
        while (p >= 0 && ++ix[p] == (int) sizeof(al)) ix[p--] = 0;
        if (p < 0) break;
      }
    }
    // chains of embedded/extension nodes that keep the cursor in place
    for (int n = 1; n <= 80; n++) if (next()) {
      Bytes e = B({0xc0}), r, v;
      for (int i = 0; i < n; i++) e = ref::rlp_list({B({0x00}), e});
      verify({e}, B({0x12}), r, v);
      Bytes f = B({0xc0});
      for (int i = 0; i < n; i++) { std::vector<Bytes> br(17, B({0x80})); br[1] = f; br[2] = f; if (f.size() > 2000000) break; f = ref::rlp_list(br); if (f.size() > 200000) break; }
      verify({f}, B({0x12, 0x12, 0x12, 0x12, 0x12}), r, v);
    }
  }
  finish();
}
