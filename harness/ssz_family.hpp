// A family of SSZ types covering every type constructor, with enumerated values.
#pragma once
#include "ref.hpp"
#include "repo.hpp"
struct T {
  std::string          name;
  const ssz_def_t*     def;
  std::vector<ref::V>  vals;
  bool                 has_union = false, has_bits = false;
};
static const ssz_def_t* keep(ssz_def_t d) { auto* p = new ssz_def_t; memcpy(p, &d, sizeof d); return p; }
static ssz_def_t mkdef(const char* n, int type) { ssz_def_t d; memset(&d, 0, sizeof d); d.name = n; d.type = type; return d; }
static char* nm(const std::string& s) { return strdup(s.c_str()); }
static T t_uint(int n) {
  ssz_def_t d = mkdef("u", SSZ_TYPE_UINT); d.def.uint.len = n;
  T t{"uint" + std::to_string(n * 8), keep(d), {}};
  for (int k = 0; k < 4; k++) {
    auto v = ref::mk(ref::UINT);
    v->data = ref::Bytes(n, 0);
    if (k == 1) v->data.assign(n, 0xff);
    if (k == 2) for (int i = 0; i < n; i++) v->data[i] = i + 1;
    if (k == 3) v->data[0] = 0x80;
    t.vals.push_back(v);
  }
  return t;
}
static T t_bool() { ssz_def_t d = mkdef("b", SSZ_TYPE_BOOLEAN); d.def.uint.len = 1; return T{"bool", keep(d), {ref::u(0, 1), ref::u(1, 1)}}; }
static ref::Bytes pat(size_t n, int s) { ref::Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t) (i * 7 + s); return b; }
static T t_bvec(int n) {
  ssz_def_t d = mkdef("bv", SSZ_TYPE_VECTOR); d.def.vector.len = n; d.def.vector.type = &ssz_uint8;
  return T{"bytes" + std::to_string(n), keep(d), {ref::bv(ref::Bytes(n)), ref::bv(pat(n, 1)), ref::bv(ref::Bytes(n, 0xff))}};
}
static T t_blist(uint32_t lim) {
  ssz_def_t d = mkdef("bl", SSZ_TYPE_LIST); d.def.vector.len = lim; d.def.vector.type = &ssz_uint8;
  T t{"byteslist" + std::to_string(lim), keep(d), {}};
  for (uint32_t l : {0u, 1u, 2u, 31u, 32u, 33u, 63u, 64u, 65u, 100u, lim}) if (l <= lim && (l != lim || lim > 100 || (l != 1 && l != 2)) && l < 2000) { t.vals.push_back(ref::bl(pat(l, 3), lim)); }
  return t;
}
static T t_bitv(int n) {
  ssz_def_t d = mkdef("bitv", SSZ_TYPE_BIT_VECTOR); d.def.vector.len = n;
  T t{"bitvector" + std::to_string(n), keep(d), {}}; t.has_bits = true;
  for (int k = 0; k < 3; k++) { std::vector<bool> b(n); for (int i = 0; i < n; i++) b[i] = k == 1 || (k == 2 && i % 3 == 0); t.vals.push_back(ref::bitv(b)); }
  return t;
}
static T t_bitl(int lim) {
  ssz_def_t d = mkdef("bitl", SSZ_TYPE_BIT_LIST); d.def.vector.len = lim;
  T t{"bitlist" + std::to_string(lim), keep(d), {}}; t.has_bits = true;
  for (int l : {0, 1, 3, 7, 8, 9, 15, 16, 255, 256, 257, lim - 1, lim}) if (l >= 0 && l <= lim)
    for (int k = 0; k < 2; k++) { std::vector<bool> b(l); for (int i = 0; i < l; i++) b[i] = k == 1 || i % 3 == 1; t.vals.push_back(ref::bitl(b, lim)); }
  return t;
}
static ref::V pick(const T& t, int i) { return t.vals[i % t.vals.size()]; }
static bool is_basic(const T& t) { return t.def->type == SSZ_TYPE_UINT || t.def->type == SSZ_TYPE_BOOLEAN; }
static T t_vec(const T& e, int n) {
  ssz_def_t d = mkdef("vec", SSZ_TYPE_VECTOR); d.def.vector.len = n; d.def.vector.type = e.def;
  T t{"vector(" + e.name + "," + std::to_string(n) + ")", keep(d), {}, e.has_union, e.has_bits};
  for (size_t s = 0; s < e.vals.size(); s++) { std::vector<ref::V> k; for (int i = 0; i < n; i++) k.push_back(pick(e, s + i)); t.vals.push_back(ref::vec(k)); }
  return t;
}
static T t_list(const T& e, uint32_t lim, int maxn = 6) {
  ssz_def_t d = mkdef("list", SSZ_TYPE_LIST); d.def.vector.len = lim; d.def.vector.type = e.def;
  T t{"list(" + e.name + "," + std::to_string(lim) + ")", keep(d), {}, e.has_union, e.has_bits};
  bool fx = ref::fixed(e.vals[0]);
  for (uint32_t n = 0; n <= std::min<uint32_t>(lim, maxn); n++)
    for (size_t s = 0; s < (n ? std::min<size_t>(e.vals.size(), 4) : 1); s++) {
      std::vector<ref::V> k; for (uint32_t i = 0; i < n; i++) k.push_back(pick(e, s + i));
      t.vals.push_back(ref::list(k, lim, fx, fx ? ref::fsize(e.vals[0]) : 0, is_basic(e)));
    }
  return t;
}
static T t_cont(const std::string& name, const std::vector<T>& f, size_t cap = 400) {
  auto* el = (ssz_def_t*) calloc(f.size(), sizeof(ssz_def_t));
  T t; t.name = name + "{";
  for (size_t i = 0; i < f.size(); i++) {
    memcpy(el + i, f[i].def, sizeof(ssz_def_t));
    el[i].name = nm("f" + std::to_string(i) + (i % 2 ? "Camel" : ""));
    t.name += f[i].name + ";";
    t.has_union |= f[i].has_union; t.has_bits |= f[i].has_bits;
  }
  t.name += "}";
  ssz_def_t d = mkdef(nm(name), SSZ_TYPE_CONTAINER); d.def.container.elements = el; d.def.container.len = f.size();
  t.def = keep(d);
  std::vector<size_t> ix(f.size(), 0);
  size_t total = 1; for (auto& x : f) { total *= x.vals.size(); if (total > 1000000) break; }
  auto emit = [&]() { std::vector<std::pair<std::string, ref::V>> k; for (size_t i = 0; i < f.size(); i++) k.push_back({el[i].name, f[i].vals[ix[i]]}); t.vals.push_back(ref::cont(k)); };
  if (total <= cap) {
    while (true) {
      emit();
      int p = (int) f.size() - 1;
      while (p >= 0 && ++ix[p] == f[p].vals.size()) ix[p--] = 0;
      if (p < 0) break;
    }
  }
  else { // each value of each field, the others rotating; and all pairs of neighbouring fields
    for (size_t i = 0; i < f.size(); i++) for (size_t v = 0; v < f[i].vals.size(); v++) for (size_t v2 = 0; v2 < std::min<size_t>(4, f[(i + 1) % f.size()].vals.size()); v2++) {
      for (size_t j = 0; j < f.size(); j++) ix[j] = (v + j) % f[j].vals.size();
      ix[(i + 1) % f.size()] = v2; ix[i] = v;
      emit();
    }
  }
  return t;
}
static T t_union(const std::vector<T>& f) { // alternative 0 is none
  auto* el = (ssz_def_t*) calloc(f.size() + 1, sizeof(ssz_def_t));
  memcpy(el, &ssz_none, sizeof(ssz_def_t));
  T t; t.name = "union{none;"; t.has_union = true;
  t.vals.push_back(ref::un(0, nullptr));
  for (size_t i = 0; i < f.size(); i++) {
    memcpy(el + i + 1, f[i].def, sizeof(ssz_def_t));
    el[i + 1].name = nm("alt" + std::to_string(i + 1));
    t.name += f[i].name + ";"; t.has_bits |= f[i].has_bits;
    for (size_t k = 0; k < std::min<size_t>(3, f[i].vals.size()); k++) t.vals.push_back(ref::un(i + 1, f[i].vals[k]));
  }
  t.name += "}";
  ssz_def_t d = mkdef("union", SSZ_TYPE_UNION); d.def.container.elements = el; d.def.container.len = f.size() + 1;
  t.def = keep(d);
  return t;
}
static std::vector<T> family() {
  std::vector<T> r;
  for (int n : {1, 2, 4, 8, 32}) r.push_back(t_uint(n));
  r.push_back(t_bool());
  for (int n : {4, 20, 31, 32, 33, 48, 64, 65, 96}) r.push_back(t_bvec(n));
  for (uint32_t l : {3u, 31u, 32u, 33u, 64u, 65u, 100u, 1u << 20, 1u << 30}) r.push_back(t_blist(l));
  for (int n : {4, 8, 12, 256, 257, 512}) r.push_back(t_bitv(n));
  for (int n : {4, 8, 9, 256, 300, 2048}) r.push_back(t_bitl(n));
  T u8 = t_uint(1), u16 = t_uint(2), u64 = t_uint(8), u256 = t_uint(32), b32 = t_bvec(32), b48 = t_bvec(48), bl = t_blist(100), b4 = t_bvec(4), bl3 = t_blist(3), bo = t_bool();
  for (int n : {1, 3, 4, 5, 8}) { r.push_back(t_vec(u64, n)); r.push_back(t_vec(b32, n)); }
  r.push_back(t_vec(b48, 2)); r.push_back(t_vec(u256, 3)); r.push_back(t_vec(bo, 5));
  for (uint32_t l : {1u, 2u, 4u, 5u, 100u, 1u << 24}) { r.push_back(t_list(u64, l)); r.push_back(t_list(b32, l)); r.push_back(t_list(bl, l)); r.push_back(t_list(b48, l)); }
  r.push_back(t_list(u16, 40, 40)); r.push_back(t_list(u256, 7, 7)); r.push_back(t_list(bo, 70, 40));
  T small = t_cont("Small", {u64, b32}), dynk = t_cont("Dyn", {u64, bl, b4, bl3}, 200), one = t_cont("One", {b48}), oned = t_cont("OneDyn", {bl}), three = t_cont("Three", {u8, small, u16}), nine = t_cont("Nine", {u8, u64, b32, u16, u256, b4, u8, u8, u64}, 1);
  T five = t_cont("Five", {bl, small, t_list(b32, 4, 4), u64, t_list(bl3, 5, 3)}, 1);
  r.push_back(small); r.push_back(dynk); r.push_back(one); r.push_back(oned); r.push_back(three); r.push_back(nine); r.push_back(five);
  r.push_back(t_vec(small, 2)); r.push_back(t_vec(small, 3)); r.push_back(t_list(small, 3)); r.push_back(t_list(dynk, 4)); r.push_back(t_list(one, 16)); r.push_back(t_list(oned, 3)); r.push_back(t_list(t_list(u64, 4, 4), 3)); r.push_back(t_list(five, 2));
  r.push_back(t_cont("Bits", {t_bitv(12), t_bitl(20), u8, t_bitl(300)}, 200));
  r.push_back(t_cont("Deep", {five, three, dynk}, 1));
  r.push_back(t_cont("Body", {b48, small, b32, t_list(small, 16), t_list(five, 2), t_list(bl, 16), small, t_bitv(512), five}, 1));
  T un = t_union({u64, bl, dynk, b32});
  r.push_back(un); r.push_back(t_cont("WithUnion", {u8, un, bl3, un})); r.push_back(t_list(un, 5));
  return r;
}
