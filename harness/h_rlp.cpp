// RLP: every byte string up to a length over the boundary alphabet, decoded at every index; every encoder length class.
#include "ref.hpp"
#include "repo.hpp"
extern "C" {
#include "rlp.h"
}
using namespace mc;
struct Item { int type; size_t off, len; };
// reference decoder: 0 ok (items complete), -1 malformed at items.size()
static int ref_items(const Bytes& d, std::vector<Item>& items) {
  size_t i = 0;
  while (i < d.size()) {
    uint8_t c = d[i];
    size_t  hl = 1, l = 0;
    int     t = 1;
    if (c < 0x80) { hl = 0; l = 1; }
    else if (c < 0xb8) l = c - 0x80;
    else if (c < 0xc0 || c >= 0xf8) {
      int n = c < 0xc0 ? c - 0xb7 : c - 0xf7;
      t     = c < 0xc0 ? 1 : 2;
      if (i + 1 + n > d.size()) return -1;
      unsigned __int128 big = 0;
      for (int k = 0; k < n; k++) big = big << 8 | d[i + 1 + k];
      if (big > d.size()) return -1;
      l  = (size_t) big;
      hl = 1 + n;
    }
    else { l = c - 0xc0; t = 2; }
    if (i + hl + l > d.size()) return -1;
    items.push_back({t, i + hl, l});
    i += hl + l;
  }
  return 0;
}
static void check_decode(const Bytes& in, int maxidx) {
  uint8_t* p = (uint8_t*) malloc(in.size() ? in.size() : 1);
  memcpy(p, in.data(), in.size());
  if (in.empty()) { free(p); p = (uint8_t*) malloc(1); }
  std::vector<Item> items;
  int               rc = ref_items(in, items);
  std::string       obs;
  for (int idx = -1; idx <= maxidx; idx++) {
    bytes_t src = bytes(p, (uint32_t) in.size());
    bytes_t tgt = bytes(nullptr, 0);
    int     r   = (int) rlp_decode(&src, idx, idx < 0 ? nullptr : &tgt);
    step();
    int expect;
    if (idx < 0) expect = rc ? RLP_OUT_OF_RANGE : (int) items.size();
    else if (idx < (int) items.size()) expect = items[idx].type;
    else expect = rc ? RLP_OUT_OF_RANGE : RLP_NOT_FOUND;
    std::string where = "bytes=" + hex(in) + " index=" + std::to_string(idx) + " got=" + std::to_string(r) + " expected=" + std::to_string(expect);
    if (r != expect) violation(idx < 0 ? "item-count-wrong" : "decode-result-wrong", where);
    else if (idx >= 0 && r > 0 && (tgt.data != p + items[idx].off || tgt.len != items[idx].len)) violation("decoded-range-wrong", where);
    obs += std::to_string(r) + "/" + std::to_string(tgt.len) + ";";
    if (idx >= 0) {
      uint64_t v = rlp_get_uint64(bytes(p, (uint32_t) in.size()), idx);
      step();
      uint64_t e = 0;
      if (idx < (int) items.size() && items[idx].len <= 8) for (size_t k = 0; k < items[idx].len; k++) e = e << 8 | in[items[idx].off + k];
      if (v != e) violation("uint64-decode-wrong", where + " value=" + std::to_string(v) + " expected value=" + std::to_string(e));
    }
  }
  outcome(hash64(obs));
  free(p);
}
static void check_enc(const Bytes& v) {
  buffer_t b = {0};
  Bytes    c = v;
  rlp_add_item(&b, bytes(c.data(), (uint32_t) c.size()));
  step();
  Bytes got(b.data.data, b.data.data + b.data.len), exp = ref::rlp_str(v);
  if (got != exp) violation("encode-item-wrong", "len=" + std::to_string(v.size()) + " got=" + hex(got).substr(0, 40) + " expected=" + hex(exp).substr(0, 40));
  buffer_free(&b);
  b = (buffer_t){0};
  rlp_add_list(&b, bytes(c.data(), (uint32_t) c.size()));
  step();
  Bytes expl = ref::cat(ref::rlp_len(v.size(), 0xc0), v);
  got.assign(b.data.data, b.data.data + b.data.len);
  if (got != expl) violation("encode-list-wrong", "len=" + std::to_string(v.size()) + " got=" + hex(got).substr(0, 40));
  // decode back
  std::vector<Item> it;
  ref_items(got, it);
  bytes_t src = b.data, t;
  int     r   = rlp_decode(&src, 0, &t);
  step();
  if (r != RLP_LIST || t.len != v.size() || (v.size() && memcmp(t.data, v.data(), v.size()))) violation("list-roundtrip", "len=" + std::to_string(v.size()));
  buffer_free(&b);
  b = (buffer_t){0};
  buffer_append(&b, bytes(c.data(), (uint32_t) c.size()));
  rlp_to_list(&b);
  step(2);
  got.assign(b.data.data, b.data.data + b.data.len);
  if (got != expl) violation("wrap-list-wrong", "len=" + std::to_string(v.size()) + " got=" + hex(got).substr(0, 40));
  buffer_free(&b);
  b = (buffer_t){0};
  rlp_add_uint(&b, bytes(c.data(), (uint32_t) c.size()));
  step();
  got.assign(b.data.data, b.data.data + b.data.len);
  if (got != ref::rlp_str(ref::trim(v))) violation("encode-uint-wrong", "len=" + std::to_string(v.size()) + " in=" + hex(v).substr(0, 40) + " got=" + hex(got).substr(0, 40));
  outcome(hash64(exp));
  buffer_free(&b);
}
int main(int argc, char** argv) {
  init(argc, argv);
  if (section("all-short-strings")) { // every byte string of length <=2 (3 in the deep tier), all 256 byte values
    int D = thorough ? 3 : 2;
    for (int d = 0; d <= D; d++) {
      uint64_t n = 1ull << (8 * d);
      for (uint64_t x = 0; x < n; x++) if (next()) check_decode(ref::be(x, d), 4);
    }
  }
  if (section("boundary-strings")) {
    static const uint8_t al[] = {0x00, 0x01, 0x02, 0x7f, 0x80, 0x81, 0x82, 0xb7, 0xb8, 0xb9, 0xbb, 0xbf, 0xc0, 0xc1, 0xc2, 0xf7, 0xf8, 0xf9, 0xfb, 0xff};
    int D = thorough ? 6 : 5;
    for (int d = 3; d <= D; d++) {
      std::vector<int> ix(d, 0);
      int n = (d == 6) ? 16 : (int) sizeof(al);
      while (true) {
        if (next()) { Bytes b; for (int i : ix) b.push_back(al[i]); check_decode(b, 3); if (cur_case % 100000 == 0) sample("decode " + hex(b)); }
        int p = d - 1;
        while (p >= 0 && ++ix[p] == n) ix[p--] = 0;
        if (p < 0) break;
      }
    }
  }
  if (section("long-headers")) { // every long-form prefix with every length pattern at the limits, item in front and behind, cut at every point
    static const uint64_t L[] = {0, 1, 55, 56, 57, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fffffff, 0x80000000ull, 0xfffffffaull, 0xfffffffbull, 0xfffffffcull, 0xfffffffdull, 0xfffffffeull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xfffffffffffffff0ull, 0xfffffffffffffff7ull, 0xfffffffffffffff8ull, 0xfffffffffffffffaull, 0xfffffffffffffffbull, 0xffffffffffffffffull};
    for (int pre = 0; pre < 3; pre++)
      for (int form = 0; form < 16; form++)
        for (uint64_t l : L)
          for (int body : {0, 1, 55, 56, 57, 128, 256, 300}) {
            int   n = (form & 7) + 1;
            Bytes b;
            if (pre == 1) b = ref::B({0x01}); else if (pre == 2) b = ref::B({0xc1, 0x01});
            b.push_back((form < 8 ? 0xb7 : 0xf7) + n);
            if (n < 8 && (l >> (8 * n))) { continue; }
            ref::app(b, ref::be(l, n));
            ref::app(b, Bytes(body, 0x05));
            if (next()) check_decode(b, 3);
          }
  }
  if (section("encoders")) {
    std::vector<size_t> lens;
    for (size_t i = 0; i <= 130; i++) lens.push_back(i);
    for (size_t i : {254, 255, 256, 257, 258, 511, 512, 65533, 65534, 65535, 65536, 65537, 70000, 0xfffffe, 0xffffff, 0x1000000, 0x1000001}) lens.push_back(i);
    for (size_t l : lens)
      for (int first : {0x00, 0x01, 0x7f, 0x80, 0xff}) {
        if (!l && first) continue;
        if (l > 100000 && first > 0) continue;
        if (!next()) continue;
        Bytes v(l, 0x33);
        if (l) v[0] = first;
        check_enc(v);
        if (l > 1) { v[1] = 0; v[0] = 0; check_enc(v); }
      }
    for (int s = 0; s < 64; s++)
      for (int dlt = -1; dlt <= 1; dlt++) {
        if (!next()) continue;
        uint64_t v = (1ull << s) + dlt;
        buffer_t b = {0};
        rlp_add_uint64(&b, v);
        Bytes got(b.data.data, b.data.data + b.data.len);
        if (got != ref::rlp_u64(v)) violation("encode-uint64-wrong", std::to_string(v) + " got=" + hex(got));
        if (rlp_get_uint64(b.data, 0) != v) violation("uint64-roundtrip", std::to_string(v));
        step(2);
        outcome(hash64(got));
        buffer_free(&b);
      }
  }
  if (section("nested-lists")) { // all lists of up to 3 items over an item alphabet, decoded item by item
    std::vector<Bytes> al = {ref::rlp_str({}), ref::rlp_str(ref::B({0})), ref::rlp_str(ref::B({0x7f})), ref::rlp_str(ref::B({0x80})), ref::rlp_str(Bytes(55, 1)), ref::rlp_str(Bytes(56, 2)), ref::rlp_str(Bytes(300, 3)), ref::rlp_list({}), ref::rlp_list({ref::rlp_str(ref::B({1})), ref::rlp_list({})}), ref::rlp_list({ref::rlp_str(Bytes(60, 9))})};
    int n = al.size();
    for (int d = 0; d <= 4; d++) {
      std::vector<int> ix(d, 0);
      while (true) {
        if (next()) {
          Bytes p;
          for (int i : ix) ref::app(p, al[i]);
          check_decode(p, 5);
          check_decode(ref::cat(ref::rlp_len(p.size(), 0xc0), p), 2);
        }
        int p = d - 1;
        while (p >= 0 && ++ix[p] == n) ix[p--] = 0;
        if (p < 0) break;
      }
    }
  }
  finish();
}
