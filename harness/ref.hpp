// Reference semantics, written from the specifications (Keccak/SHA-2, RLP, Merkle-Patricia trie, SSZ),
// sharing no code with the repository.
#pragma once
#include "mc.hpp"
#include <memory>
#include <array>
namespace ref {
using mc::Bytes;
typedef std::array<uint8_t, 32> H32;
inline Bytes cat(const Bytes& a, const Bytes& b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
inline void  app(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
inline Bytes B(std::initializer_list<int> l) { Bytes r; for (int i : l) r.push_back((uint8_t) i); return r; }
inline Bytes S(const std::string& s) { return Bytes(s.begin(), s.end()); }
inline Bytes S(const char* s) { return Bytes((const uint8_t*) s, (const uint8_t*) s + strlen(s)); }
inline Bytes fill(size_t n, uint8_t v) { return Bytes(n, v); }
inline Bytes unhex(std::string s) {
  if (s.rfind("0x", 0) == 0) s = s.substr(2);
  Bytes r;
  auto  d = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(d(s[i]) * 16 + d(s[i + 1]));
  return r;
}
inline Bytes be(uint64_t v, int n) { Bytes r(n); for (int i = n - 1; i >= 0; i--) { r[i] = (uint8_t) v; v >>= 8; } return r; }
inline Bytes le(uint64_t v, int n) { Bytes r(n); for (int i = 0; i < n; i++) { r[i] = (uint8_t) v; v >>= 8; } return r; }
inline Bytes bemin(uint64_t v) { Bytes r; while (v) { r.insert(r.begin(), (uint8_t) v); v >>= 8; } return r; }
inline Bytes b(const H32& h) { return Bytes(h.begin(), h.end()); }
inline Bytes trim(const Bytes& v) { size_t i = 0; while (i < v.size() && !v[i]) i++; return Bytes(v.begin() + i, v.end()); }
inline Bytes padl(const Bytes& v, size_t n) { Bytes r(n > v.size() ? n - v.size() : 0); app(r, v); return r; }

// ---- keccak-256
inline Bytes keccak(const Bytes& in) {
  static const uint64_t RC[24] = {0x0000000000000001ull, 0x0000000000008082ull, 0x800000000000808aull, 0x8000000080008000ull, 0x000000000000808bull, 0x0000000080000001ull, 0x8000000080008081ull, 0x8000000000008009ull, 0x000000000000008aull, 0x0000000000000088ull, 0x0000000080008009ull, 0x000000008000000aull, 0x000000008000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 0x8000000000008002ull, 0x8000000000000080ull, 0x000000000000800aull, 0x800000008000000aull, 0x8000000080008081ull, 0x8000000000008080ull, 0x0000000080000001ull, 0x8000000080008008ull};
  static const int      R[25]  = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};
  uint64_t              A[25]  = {0};
  Bytes                 p      = in;
  p.push_back(1);
  while (p.size() % 136) p.push_back(0);
  p[p.size() - 1] |= 0x80;
  auto rol = [](uint64_t x, int n) { return n ? (x << n) | (x >> (64 - n)) : x; };
  for (size_t o = 0; o < p.size(); o += 136) {
    for (int i = 0; i < 17; i++) { uint64_t w; memcpy(&w, &p[o + 8 * i], 8); A[i] ^= w; }
    for (int r = 0; r < 24; r++) {
      uint64_t C[5], D[5], Bm[25];
      for (int x = 0; x < 5; x++) C[x] = A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20];
      for (int x = 0; x < 5; x++) D[x] = C[(x + 4) % 5] ^ rol(C[(x + 1) % 5], 1);
      for (int i = 0; i < 25; i++) A[i] ^= D[i % 5];
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++) Bm[y + 5 * ((2 * x + 3 * y) % 5)] = rol(A[x + 5 * y], R[x + 5 * y]);
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++) A[x + 5 * y] = Bm[x + 5 * y] ^ (~Bm[(x + 1) % 5 + 5 * y] & Bm[(x + 2) % 5 + 5 * y]);
      A[0] ^= RC[r];
    }
  }
  Bytes out(32);
  memcpy(out.data(), A, 32);
  return out;
}
// ---- sha-256
inline void sha256_block(uint32_t* h, const uint8_t* p) {
  static const uint32_t K[64] = {0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1, 0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3, 0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786, 0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da, 0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147, 0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13, 0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b, 0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070, 0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a, 0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208, 0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
  uint32_t w[64];
  auto     rr = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
  for (int i = 0; i < 16; i++) w[i] = p[4 * i] << 24 | p[4 * i + 1] << 16 | p[4 * i + 2] << 8 | p[4 * i + 3];
  for (int i = 16; i < 64; i++) w[i] = w[i - 16] + (rr(w[i - 15], 7) ^ rr(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (rr(w[i - 2], 17) ^ rr(w[i - 2], 19) ^ (w[i - 2] >> 10));
  uint32_t s[8];
  memcpy(s, h, 32);
  for (int i = 0; i < 64; i++) {
    uint32_t t1 = s[7] + (rr(s[4], 6) ^ rr(s[4], 11) ^ rr(s[4], 25)) + ((s[4] & s[5]) ^ (~s[4] & s[6])) + K[i] + w[i];
    uint32_t t2 = (rr(s[0], 2) ^ rr(s[0], 13) ^ rr(s[0], 22)) + ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
    s[7] = s[6]; s[6] = s[5]; s[5] = s[4]; s[4] = s[3] + t1; s[3] = s[2]; s[2] = s[1]; s[1] = s[0]; s[0] = t1 + t2;
  }
  for (int i = 0; i < 8; i++) h[i] += s[i];
}
inline Bytes sha256(const Bytes& in) {
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  Bytes    p    = in;
  p.push_back(0x80);
  while (p.size() % 64 != 56) p.push_back(0);
  app(p, be((uint64_t) in.size() * 8, 8));
  for (size_t o = 0; o < p.size(); o += 64) sha256_block(h, &p[o]);
  Bytes r;
  for (int i = 0; i < 8; i++) app(r, be(h[i], 4));
  return r;
}
inline Bytes sha2(const Bytes& a, const Bytes& c) { return sha256(cat(a, c)); }

// ---- RLP
inline Bytes rlp_len(size_t n, int off) {
  if (n < 56) return B({(int) (off + n)});
  Bytes l = bemin(n), r = B({(int) (off + 55 + l.size())});
  app(r, l);
  return r;
}
inline Bytes rlp_str(const Bytes& v) {
  if (v.size() == 1 && v[0] < 0x80) return v;
  return cat(rlp_len(v.size(), 0x80), v);
}
inline Bytes rlp_list(const std::vector<Bytes>& items) { // items already encoded
  Bytes p;
  for (auto& i : items) app(p, i);
  return cat(rlp_len(p.size(), 0xc0), p);
}
inline Bytes rlp_u64(uint64_t v) { return rlp_str(bemin(v)); }

// ---- Merkle Patricia trie
inline Bytes nibbles(const Bytes& k) { Bytes r; for (uint8_t c : k) { r.push_back(c >> 4); r.push_back(c & 15); } return r; }
inline Bytes hexprefix(const Bytes& n, bool leaf) {
  Bytes r; bool odd = n.size() & 1;
  r.push_back((leaf ? 0x20 : 0) | (odd ? 0x10 | n[0] : 0));
  for (size_t i = odd; i < n.size(); i += 2) r.push_back(n[i] << 4 | n[i + 1]);
  return r;
}
struct Trie {
  std::map<Bytes, Bytes> kv; // nibble key -> value
  void  set(const Bytes& key, const Bytes& val) { kv[nibbles(key)] = val; }
  // RLP of the node covering entries [it..) with common prefix depth d; path: nodes on the way to `target` get appended
  Bytes node(const std::vector<std::pair<Bytes, Bytes>>& e, size_t d, const Bytes* target, std::vector<Bytes>* path, bool ontarget, bool isroot, size_t slot) const {
    Bytes enc;
    size_t myslot = 0;
    bool   record = path && ontarget;
    if (e.empty()) return B({0x80});
    if (record) { myslot = path->size(); path->push_back({}); }
    if (e.size() == 1) {
      Bytes rest(e[0].first.begin() + d, e[0].first.end());
      enc = rlp_list({rlp_str(hexprefix(rest, true)), rlp_str(e[0].second)});
    }
    else {
      size_t cp = 0;
      while (true) {
        bool ok = true;
        for (auto& x : e) if (x.first.size() <= d + cp || x.first[d + cp] != e[0].first[d + cp]) { ok = false; break; }
        if (!ok) break;
        cp++;
      }
      if (cp) {
        Bytes pre(e[0].first.begin() + d, e[0].first.begin() + d + cp);
        bool  ct = ontarget && target && target->size() >= d + cp && std::equal(pre.begin(), pre.end(), target->begin() + d);
        Bytes child = node(e, d + cp, target, path, ct, false, 0);
        enc         = rlp_list({rlp_str(hexprefix(pre, false)), refnode(child)});
      }
      else {
        std::vector<Bytes> items(17, B({0x80}));
        for (int n = 0; n < 16; n++) {
          std::vector<std::pair<Bytes, Bytes>> sub;
          for (auto& x : e) if (x.first.size() > d && x.first[d] == n) sub.push_back(x);
          if (sub.empty()) continue;
          bool ct  = ontarget && target && target->size() > d && (*target)[d] == n;
          items[n] = refnode(node(sub, d + 1, target, path, ct, false, 0));
        }
        for (auto& x : e) if (x.first.size() == d) items[16] = rlp_str(x.second);
        enc = rlp_list(items);
      }
    }
    if (record) (*path)[myslot] = enc;
    return enc;
  }
  static Bytes refnode(const Bytes& enc) { return enc.size() < 32 ? enc : rlp_str(keccak(enc)); }
  std::vector<std::pair<Bytes, Bytes>> all() const { return {kv.begin(), kv.end()}; }
  Bytes root() const { return keccak(node(all(), 0, nullptr, nullptr, false, true, 0)); }
  // full list of nodes on the path (root first); embedded (<32 byte) nodes other than the root are omitted, as eth_getProof does
  std::vector<Bytes> prove(const Bytes& key) const {
    Bytes t = nibbles(key);
    std::vector<Bytes> p, r;
    node(all(), 0, &t, &p, true, true, 0);
    for (size_t i = 0; i < p.size(); i++) if (i == 0 || p[i].size() >= 32) r.push_back(p[i]);
    return r;
  }
  const Bytes* get(const Bytes& key) const { auto i = kv.find(nibbles(key)); return i == kv.end() ? nullptr : &i->second; }
};

// ---- SSZ: a dynamic value tree
enum Kind { UINT, BVEC, BLIST, VEC, LIST, CONT, BITV, BITL, UNION };
struct Val; typedef std::shared_ptr<Val> V;
struct Val {
  Kind             k;
  Bytes            data;            // UINT (le bytes), BVEC, BLIST
  uint64_t         limit = 0;       // BLIST/LIST/BITL max
  std::vector<V>   kids;            // VEC/LIST/CONT, UNION (0 or 1)
  std::vector<std::string> names;   // CONT
  std::vector<bool> bits;
  int              sel   = 0;
  bool             elem_fixed = true; size_t elem_size = 0; bool elem_basic = false; // VEC/LIST
};
inline V mk(Kind k) { auto v = std::make_shared<Val>(); v->k = k; return v; }
inline V u(uint64_t x, int n) { auto v = mk(UINT); v->data = le(x, n); return v; }
inline V u256(const Bytes& lebytes) { auto v = mk(UINT); v->data = lebytes; v->data.resize(32); return v; }
inline V bv(const Bytes& d) { auto v = mk(BVEC); v->data = d; return v; }
inline V bl(const Bytes& d, uint64_t limit) { auto v = mk(BLIST); v->data = d; v->limit = limit; return v; }
inline V bitv(const std::vector<bool>& bits) { auto v = mk(BITV); v->bits = bits; return v; }
inline V bitl(const std::vector<bool>& bits, uint64_t limit) { auto v = mk(BITL); v->bits = bits; v->limit = limit; return v; }
bool  fixed(const V& v);
size_t fsize(const V& v);
inline V vec(const std::vector<V>& kids) { auto v = mk(VEC); v->kids = kids; if (kids.size()) { v->elem_fixed = fixed(kids[0]); v->elem_size = v->elem_fixed ? fsize(kids[0]) : 0; v->elem_basic = kids[0]->k == UINT; } return v; }
inline V list(const std::vector<V>& kids, uint64_t limit, bool elem_fixed, size_t elem_size, bool elem_basic) { auto v = mk(LIST); v->kids = kids; v->limit = limit; v->elem_fixed = elem_fixed; v->elem_size = elem_size; v->elem_basic = elem_basic; return v; }
inline V cont(const std::vector<std::pair<std::string, V>>& f) { auto v = mk(CONT); for (auto& p : f) { v->names.push_back(p.first); v->kids.push_back(p.second); } return v; }
inline V un(int sel, V k) { auto v = mk(UNION); v->sel = sel; if (k) v->kids.push_back(k); return v; }
inline V get(const V& v, const std::string& n) { for (size_t i = 0; i < v->names.size(); i++) if (v->names[i] == n) return v->kids[i]; abort(); }
inline void put(const V& v, const std::string& n, V x) { for (size_t i = 0; i < v->names.size(); i++) if (v->names[i] == n) { v->kids[i] = x; return; } abort(); }
inline bool fixed(const V& v) {
  switch (v->k) {
    case UINT: case BVEC: case BITV: return true;
    case BLIST: case LIST: case BITL: case UNION: return false;
    case VEC: return v->kids.empty() ? v->elem_fixed : fixed(v->kids[0]);
    case CONT: for (auto& c : v->kids) if (!fixed(c)) return false; return true;
  }
  return false;
}
Bytes ser(const V& v);
inline size_t fsize(const V& v) { return ser(v).size(); }
inline Bytes ser(const V& v) {
  Bytes r;
  switch (v->k) {
    case UINT: case BVEC: case BLIST: return v->data;
    case BITV: r.resize((v->bits.size() + 7) / 8); for (size_t i = 0; i < v->bits.size(); i++) if (v->bits[i]) r[i / 8] |= 1 << (i % 8); return r;
    case BITL: r.resize(v->bits.size() / 8 + 1); for (size_t i = 0; i < v->bits.size(); i++) if (v->bits[i]) r[i / 8] |= 1 << (i % 8); r[v->bits.size() / 8] |= 1 << (v->bits.size() % 8); return r;
    case UNION: r.push_back(v->sel); if (v->kids.size()) app(r, ser(v->kids[0])); return r;
    case VEC: case LIST: case CONT: {
      Bytes var; std::vector<Bytes> parts; size_t fix = 0;
      for (auto& c : v->kids) { parts.push_back(ser(c)); fix += fixed(c) ? parts.back().size() : 4; }
      for (size_t i = 0; i < v->kids.size(); i++)
        if (fixed(v->kids[i])) app(r, parts[i]); else { app(r, le(fix + var.size(), 4)); app(var, parts[i]); }
      app(r, var);
      return r;
    }
  }
  return r;
}
// A merkle tree as a sparse node map (gindex -> hash) so that any proof can be read off it.
inline Bytes zh(int d) { static std::vector<Bytes> z = {Bytes(32)}; while ((int) z.size() <= d) z.push_back(sha2(z.back(), z.back())); return z[d]; }
typedef std::map<std::string, Bytes> NodeMap; // gindex as bit string (unlimited depth) -> hash
Bytes htr(const V& v, NodeMap* m, const std::string& g);
inline int depth_for(uint64_t n) { int d = 0; while ((d < 63) && ((1ull << d) < n)) d++; return d; }
// merkleize chunks (sub[i] computes the chunk i and records its inner nodes)
inline Bytes merk(size_t n, int depth, const std::function<Bytes(size_t, const std::string&)>& leaf, NodeMap* m, const std::string& g, size_t first = 0) {
  Bytes r;
  if (first >= n) r = zh(depth);
  else if (depth == 0) r = leaf(first, g);
  else {
    size_t half = depth - 1 >= 62 ? SIZE_MAX : ((size_t) 1 << (depth - 1));
    Bytes  l = merk(n, depth - 1, leaf, m, g + "0", first), rr;
    if (half == SIZE_MAX || first + half >= n) { rr = zh(depth - 1); if (m) (*m)[g + "1"] = rr; }
    else rr = merk(n, depth - 1, leaf, m, g + "1", first + half);
    r = sha2(l, rr);
  }
  if (m) (*m)[g] = r;
  return r;
}
inline std::vector<Bytes> chunks(const Bytes& d) { std::vector<Bytes> c; for (size_t i = 0; i < d.size(); i += 32) { Bytes x(d.begin() + i, d.begin() + std::min(i + 32, d.size())); x.resize(32); c.push_back(x); } return c; }
inline Bytes mixin(const Bytes& root, uint64_t n, NodeMap* m, const std::string& g) {
  Bytes l = le(n, 32), r = sha2(root, l);
  if (m) { (*m)[g + "1"] = l; (*m)[g] = r; }
  return r;
}
inline Bytes htr(const V& v, NodeMap* m = nullptr, const std::string& g = "1") {
  auto pack = [&](const Bytes& d, int depth, const std::string& gg) { auto c = chunks(d); return merk(c.size(), depth, [&](size_t i, const std::string& x) { if (m) (*m)[x] = c[i]; return c[i]; }, m, gg); };
  auto bitbytes = [&]() { Bytes r((v->bits.size() + 7) / 8); for (size_t i = 0; i < v->bits.size(); i++) if (v->bits[i]) r[i / 8] |= 1 << (i % 8); return r; };
  Bytes r;
  switch (v->k) {
    case UINT: r = v->data; r.resize(32); if (m) (*m)[g] = r; return r;
    case BVEC: return pack(v->data, depth_for((v->data.size() + 31) / 32), g);
    case BLIST: return mixin(pack(v->data, depth_for((v->limit + 31) / 32), g + "0"), v->data.size(), m, g);
    case BITV: return pack(bitbytes(), depth_for((v->bits.size() + 255) / 256), g);
    case BITL: return mixin(pack(bitbytes(), depth_for((v->limit + 255) / 256), g + "0"), v->bits.size(), m, g);
    case UNION: {
      Bytes root = v->kids.size() ? htr(v->kids[0], m, g + "0") : Bytes(32);
      if (m) (*m)[g + "0"] = root;
      return mixin(root, v->sel, m, g);
    }
    case CONT: return merk(v->kids.size(), depth_for(v->kids.size()), [&](size_t i, const std::string& x) { return htr(v->kids[i], m, x); }, m, g);
    case VEC: case LIST: {
      bool     lst = v->k == LIST;
      uint64_t lim = lst ? v->limit : v->kids.size();
      Bytes    root;
      std::string gg = lst ? g + "0" : g;
      if (v->elem_basic) root = pack(ser(v), depth_for((lim * v->elem_size + 31) / 32), gg);
      else root = merk(v->kids.size(), depth_for(lim), [&](size_t i, const std::string& x) { return htr(v->kids[i], m, x); }, m, gg);
      return lst ? mixin(root, v->kids.size(), m, g) : root;
    }
  }
  return r;
}
// gindex of a path of field names / element numbers
struct Path { std::string g; V v; };
inline std::string bin(uint64_t x, int d) { std::string s; for (int i = d - 1; i >= 0; i--) s += (x >> i & 1) ? '1' : '0'; return s; }
inline Path walk(V v, const std::vector<std::string>& names, std::string g = "1") {
  for (auto& n : names) {
    if (v->k == CONT) { size_t i = 0; while (v->names[i] != n) i++; g += bin(i, depth_for(v->kids.size())); v = v->kids[i]; }
    else if (v->k == LIST || v->k == VEC) {
      uint64_t i = strtoull(n.c_str(), 0, 10);
      if (v->k == LIST) g += "0";
      uint64_t lim = v->k == LIST ? v->limit : v->kids.size();
      g += bin(i, depth_for(lim));
      v = i < v->kids.size() ? v->kids[i] : nullptr;
    }
    else if (v->k == UNION) { g += "0"; v = v->kids[0]; }
  }
  return {g, v};
}
inline uint64_t gi(const std::string& g) { return strtoull(g.c_str(), 0, 2); }
inline std::string gs(uint64_t g) { std::string s; while (g) { s.insert(s.begin(), (char) ('0' + (g & 1))); g >>= 1; } return s; }
inline Bytes node_at(const NodeMap& m, const std::string& g) {
  auto it = m.find(g);
  if (it != m.end()) return it->second;
  fprintf(stderr, "ref: no node at gindex %s\n", g.c_str());
  abort();
}
// branch from a node up to the root, lowest sibling first
inline std::vector<Bytes> branch(const NodeMap& m, std::string g) {
  std::vector<Bytes> r;
  while (g.size() > 1) { std::string s = g; s.back() = s.back() == '0' ? '1' : '0'; r.push_back(node_at(m, s)); g.pop_back(); }
  return r;
}
inline Bytes concat(const std::vector<Bytes>& l) { Bytes r; for (auto& x : l) app(r, x); return r; }
// canonical multiproof witness indices (consensus-specs get_helper_indices: descending)
inline std::vector<std::string> helper_indices(const std::vector<std::string>& gs) {
  auto cmp = [](const std::string& a, const std::string& c) { return a.size() != c.size() ? a.size() > c.size() : a > c; };
  std::set<std::string> hs, paths;
  for (auto g : gs) while (g.size() > 1) { std::string s = g; s.back() = s.back() == '0' ? '1' : '0'; hs.insert(s); paths.insert(g); g.pop_back(); }
  std::vector<std::string> r;
  for (auto& h : hs) if (!paths.count(h)) r.push_back(h);
  std::sort(r.begin(), r.end(), cmp);
  return r;
}
} // namespace ref
