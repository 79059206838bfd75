// Transactions of every type, built and signed from the specifications, with the answer a full node gives for them.
#pragma once
#include "exec.hpp"
extern "C" {
#include "crypto.h"
}
namespace world {
// ---- a minimal JSON object reader: property -> raw text of the value
inline std::string nows(const std::string& s) { std::string r; for (char c : s) if (c != ' ' && c != '\n') r += c; return r; }
inline std::map<std::string, std::string> jobj(const std::string& s0) {
  std::map<std::string, std::string> r;
  std::string s = nows(s0);
  if (s.size() < 2 || s[0] != '{') return r;
  size_t i = 1;
  while (i < s.size() && s[i] == '"') {
    size_t e = s.find('"', i + 1);
    std::string k = s.substr(i + 1, e - i - 1);
    size_t j = e + 2;
    int    d = 0; bool q = false;
    for (; j < s.size(); j++) {
      char c = s[j];
      if (c == '"') q = !q;
      if (q) continue;
      if (c == '[' || c == '{') d++;
      if (c == ']' || c == '}') { if (!d) break; d--; }
      if (c == ',' && !d) break;
    }
    r[k] = s.substr(e + 2, j - e - 2);
    i = j + 1;
  }
  return r;
}
inline std::vector<std::string> jarr(const std::string& s0) {
  std::vector<std::string> r;
  std::string s = nows(s0);
  if (s.size() < 2 || s[0] != '[' || s == "[]") return r;
  size_t i = 1;
  while (i < s.size()) {
    size_t j = i; int d = 0; bool q = false;
    for (; j < s.size(); j++) {
      char c = s[j];
      if (c == '"') q = !q;
      if (q) continue;
      if (c == '[' || c == '{') d++;
      if (c == ']' || c == '}') { if (!d) break; d--; }
      if (c == ',' && !d) break;
    }
    r.push_back(s.substr(i, j - i));
    i = j + 1;
  }
  return r;
}
inline std::string qs(const std::string& s) { return "\"" + s + "\""; }
// ---- keys: private key 1..3 and the well known addresses
inline Bytes key_address(int k) {
  static const char* a[] = {"", "7e5f4552091a69125d5dfcb7b8c2659029395bdf", "2b5ad5c4795c026514f8317c7a215e218dccd6cf", "6813eb9362372eef6200f3b1dbc3f819671cba69"};
  return unhex(a[k]);
}
struct Sig { Bytes r, s; int parity; };
inline Sig ecdsa(int k, const Bytes& digest) {
  uint8_t sk[32] = {0}, sg[65] = {0};
  sk[31] = (uint8_t) k;
  if (!secp256k1_sign(sk, digest.data(), sg)) { fprintf(stderr, "sign failed\n"); abort(); }
  return {Bytes(sg, sg + 32), Bytes(sg + 32, sg + 64), sg[64] - 27};
}
struct Auth { Bytes chainId, addr; uint64_t nonce; int yParity; Bytes r, s; };
struct Tx {
  int      type = 0;
  uint64_t chainId = 1; // 0 for legacy: before EIP-155
  uint64_t nonce = 0, gas = 21000, gasPrice = 9000000000ull, maxPrio = 1000000000ull, maxFee = 20000000000ull, maxBlobFee = 1;
  Bytes    to = Bytes(20, 0x22), value, input; // value: minimal big endian
  std::vector<std::pair<Bytes, std::vector<Bytes>>> access;
  std::vector<Bytes> blobs;
  std::vector<Auth>  auths;
  int      key = 1;
  // after signing
  Sig      sig;
  Bytes    v; // minimal big endian
  Bytes    raw, hash;
  Bytes    access_rlp() const { std::vector<Bytes> l; for (auto& a : access) { std::vector<Bytes> k; for (auto& x : a.second) k.push_back(rlp_str(x)); l.push_back(rlp_list({rlp_str(a.first), rlp_list(k)})); } return rlp_list(l); }
  std::vector<Bytes> fields() const {
    std::vector<Bytes> f;
    if (type) f.push_back(rlp_u64(chainId));
    f.push_back(rlp_u64(nonce));
    if (type >= 2) { f.push_back(rlp_u64(maxPrio)); f.push_back(rlp_u64(maxFee)); }
    else f.push_back(rlp_u64(gasPrice));
    f.push_back(rlp_u64(gas)); f.push_back(rlp_str(to)); f.push_back(rlp_str(value)); f.push_back(rlp_str(input));
    if (type) f.push_back(access_rlp());
    if (type == 3) { f.push_back(rlp_u64(maxBlobFee)); std::vector<Bytes> l; for (auto& x : blobs) l.push_back(rlp_str(x)); f.push_back(rlp_list(l)); }
    if (type == 4) { std::vector<Bytes> l; for (auto& a : auths) l.push_back(rlp_list({rlp_str(a.chainId), rlp_str(a.addr), rlp_u64(a.nonce), rlp_u64(a.yParity), rlp_str(a.r), rlp_str(a.s)})); f.push_back(rlp_list(l)); }
    return f;
  }
  Tx& sign() {
    auto f = fields(), g = f;
    if (!type && chainId) { g.push_back(rlp_u64(chainId)); g.push_back(rlp_u64(0)); g.push_back(rlp_u64(0)); }
    Bytes pre = type ? cat(B({type}), rlp_list(g)) : rlp_list(g);
    sig = ecdsa(key, keccak(pre));
    v   = type ? bemin(sig.parity) : chainId ? bemin(chainId * 2 + 35 + sig.parity) : bemin(27 + sig.parity);
    f.push_back(rlp_str(v)); f.push_back(rlp_str(trim(sig.r))); f.push_back(rlp_str(trim(sig.s)));
    raw  = type ? cat(B({type}), rlp_list(f)) : rlp_list(f);
    hash = keccak(raw);
    return *this;
  }
  uint64_t price(uint64_t base) const { return type >= 2 ? base + std::min(maxPrio, maxFee - base) : gasPrice; }
};
inline std::string access_json(const Tx& t) {
  std::string s = "[";
  for (size_t i = 0; i < t.access.size(); i++) {
    s += std::string(i ? "," : "") + "{\"address\":\"" + hx(t.access[i].first) + "\",\"storageKeys\":[";
    for (size_t k = 0; k < t.access[i].second.size(); k++) s += std::string(k ? "," : "") + qs(hx(t.access[i].second[k]));
    s += "]}";
  }
  return s + "]";
}
inline std::string list_json(const std::vector<Bytes>& l) { std::string s = "["; for (size_t i = 0; i < l.size(); i++) s += std::string(i ? "," : "") + qs(hx(l[i])); return s + "]"; }
// compares an answer with the transaction; "" or the first difference. price: expected gasPrice (0: not compared)
inline std::string tx_diff(const std::string& json, const Tx& t, const Bytes& bhash, uint64_t number, uint32_t index, uint64_t price, bool from = true) {
  auto o = jobj(json);
  std::string err;
  auto is = [&](const char* n, const std::string& exp) { if (err.empty() && o[n] != exp) err = std::string(n) + " is " + o[n].substr(0, 140) + " instead of " + exp.substr(0, 140); };
  auto na = [&](const char* n, std::initializer_list<std::string> ok) { if (err.empty() && o.count(n) && std::find(ok.begin(), ok.end(), o[n]) == ok.end()) err = std::string(n) + " should not apply but is " + o[n].substr(0, 140); };
  is("blockHash", qs(hx(bhash))); is("blockNumber", qs(hxu(number))); is("hash", qs(hx(t.hash))); is("transactionIndex", qs(hxu(index)));
  is("type", qs(hxu(t.type))); is("nonce", qs(hxu(t.nonce))); is("input", qs(hx(t.input)));
  is("r", qs(hx(t.sig.r))); is("s", qs(hx(t.sig.s))); is("v", qs(hxn(t.v)));
  if (t.chainId) is("chainId", qs(hxu(t.chainId))); else na("chainId", {"\"0x0\"", "\"0x1\"", "null"});
  is("gas", qs(hxu(t.gas)));
  if (from) is("from", qs(hx(key_address(t.key))));
  if (t.to.size()) is("to", qs(hx(t.to))); else na("to", {"\"0x\"", "null"});
  is("value", qs(hxn(t.value)));
  if (price) is("gasPrice", qs(hxu(price)));
  if (t.type >= 2) { is("maxFeePerGas", qs(hxu(t.maxFee))); is("maxPriorityFeePerGas", qs(hxu(t.maxPrio))); }
  else { na("maxFeePerGas", {"\"0x0\"", "null"}); na("maxPriorityFeePerGas", {"\"0x0\"", "null"}); }
  if (t.type) { is("accessList", access_json(t)); is("yParity", qs(hxu(t.sig.parity))); }
  else { na("accessList", {"[]", "null"}); na("yParity", {"\"0x0\"", "null", qs(hxu(t.sig.parity))}); }
  if (t.type == 3) is("blobVersionedHashes", list_json(t.blobs)); else na("blobVersionedHashes", {"[]", "null"});
  if (t.type == 4) {
    auto l = jarr(o["authorizationList"]);
    if (err.empty() && l.size() != t.auths.size()) err = "authorizationList has " + std::to_string(l.size()) + " entries";
    for (size_t i = 0; err.empty() && i < l.size(); i++) {
      auto& a = t.auths[i];
      o = jobj(l[i]);
      is("address", qs(hx(a.addr))); is("chainId", qs(hxn(a.chainId))); is("nonce", qs(hxu(a.nonce))); is("r", qs(hx(padl(a.r, 32)))); is("s", qs(hx(padl(a.s, 32)))); is("yParity", qs(hxu(a.yParity)));
      if (err.size()) err = "authorization " + std::to_string(i) + ": " + err;
    }
  }
  else na("authorizationList", {"[]", "null"});
  return err;
}
// ---- the family of transactions
inline Tx base_tx(int type, uint64_t chain) {
  Tx t;
  t.type = type; t.chainId = chain; t.value = bemin(12345);
  if (type == 3) t.blobs = {tag32("blob0")};
  if (type == 4) t.auths = {{bemin(chain), Bytes(20, 0x44), 3, 1, Bytes(32, 0x55), Bytes(31, 0x66)}};
  return t;
}
inline std::vector<Tx> tx_family(uint64_t chain) {
  std::vector<Tx> r;
  for (int type = 0; type <= 4; type++) {
    const Tx b = base_tx(type, chain);
    auto add = [&](Tx t) { r.push_back(t.sign()); };
    add(b);
    for (uint64_t x : {(uint64_t) 1, (uint64_t) 0x7f, (uint64_t) 0x80, (uint64_t) 0xff, (uint64_t) 0x100, (uint64_t) 0xffffffff, (uint64_t) 0x100000000ull, (uint64_t) 0xfffffffffffffffeull}) {
      Tx t = b; t.nonce = x; add(t);
      t = b; t.gas = x; add(t);
      t = b; t.value = bemin(x); add(t);
      if (type < 2) { t = b; t.gasPrice = x; add(t); }
      else { t = b; t.maxFee = std::max<uint64_t>(x, 7000000000ull); t.maxPrio = x; add(t); t = b; t.maxFee = 0xffffffffffffffffull; t.maxPrio = x; add(t); t = b; t.maxFee = 7000000000ull; t.maxPrio = std::min<uint64_t>(x, t.maxFee); add(t); }
      if (type == 3) { t = b; t.maxBlobFee = x; add(t); }
    }
    { Tx t = b; t.value = Bytes(32, 0xff); add(t); t.value = {}; add(t); t.value = Bytes(9, 1); add(t); t.value = cat(B({1}), Bytes(31)); add(t); }
    if (type < 3) { Tx t = b; t.to = {}; t.input = S("init code"); add(t); }
    { Tx t = b; t.to = Bytes(20); add(t); t.to = Bytes(20, 0xff); add(t); }
    for (int l : {0, 1, 2, 31, 32, 33, 54, 55, 56, 57, 100, 200, 255, 256, 257, 1000, 65535, 65536, 70000})
      for (int f : {0x00, 0x7f, 0x80}) { if (l > 1 && f != 0x80) continue; Tx t = b; t.input = Bytes(l, (uint8_t) f); add(t); }
    if (type)
      for (int n = 0; n <= 3; n++)
        for (int k = 0; k <= 3; k++) { if (!n && k) continue; Tx t = b; for (int i = 0; i < n; i++) { std::vector<Bytes> ks; for (int j = 0; j < (i == 1 ? 0 : k); j++) ks.push_back(tag32("k" + std::to_string(i * 10 + j))); t.access.push_back({Bytes(20, (uint8_t) (0xa0 + i)), ks}); } add(t); }
    if (type == 1) { Tx t = b; std::vector<Bytes> ks; for (int j = 0; j < 300; j++) ks.push_back(tag32("kk" + std::to_string(j))); t.access = {{Bytes(20, 1), ks}}; add(t); }
    if (type == 3) for (int n : {2, 3, 6, 9, 16}) { Tx t = b; t.blobs.clear(); for (int i = 0; i < n; i++) t.blobs.push_back(tag32("blob" + std::to_string(i))); add(t); }
    if (type == 4) {
      std::vector<Auth> as;
      for (Bytes c : std::vector<Bytes>{{}, bemin(1), bemin(chain), bemin(0xffffffff), bemin(0x100000000ull), bemin(0xffffffffffffffffull), Bytes(9, 1), Bytes(32, 0xff)}) as.push_back({c, Bytes(20, 0x45), 0, 0, Bytes(32, 0x11), Bytes(32, 0x12)});
      for (uint64_t n : {(uint64_t) 1, (uint64_t) 0x80, (uint64_t) 0xffffffffffffffffull}) as.push_back({bemin(chain), tag32("x").size() ? Bytes(20, 0x46) : Bytes(), n, 1, Bytes(1, 1), Bytes(1, 0x7f)});
      as.push_back({bemin(chain), Bytes(20), 1, 1, {}, {}});
      as.push_back({bemin(chain), Bytes(20), 1, 255, B({0x80}), Bytes(30, 0xff)});
      for (auto& a : as) { Tx t = b; t.auths = {a}; add(t); }
      for (size_t n : {0, 2, 3, 12}) { Tx t = b; t.auths.assign(as.begin(), as.begin() + n); add(t); }
    }
    for (int k = 1; k <= 3; k++) { // both parities, short r and s
      int par = 0, sr = 0, ss = 0;
      for (uint64_t n = 1000; n < 40000 && (par != 3 || !sr || !ss); n++) {
        Tx t = b; t.key = k; t.nonce = n; t.sign();
        bool want = false;
        if (!(par & (1 << t.sig.parity))) { par |= 1 << t.sig.parity; want = true; }
        if (!t.sig.r[0] && !sr) { sr = 1; want = true; }
        if (!t.sig.s[0] && !ss) { ss = 1; want = true; }
        if (want) r.push_back(t);
      }
    }
    if (type == 0) for (int k = 1; k <= 3; k++) for (uint64_t n = 0; n < 4; n++) { Tx t = b; t.chainId = 0; t.key = k; t.nonce = n; add(t); }
    if (type == 0) for (uint64_t c : {1ull, 46ull, 47ull, 100ull, 109ull, 110ull, 111ull, 10200ull, 32749ull, 11155111ull, 0xfffffffull}) for (uint64_t n = 0; n < 3; n++) { Tx t = b; t.chainId = c; t.nonce = n; add(t); }
  }
  return r;
}
} // namespace world
