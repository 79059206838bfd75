// SSZ: validation, accessors, hashing, proofs, JSON round trips - against the reference.
#include "ssz_family.hpp"
using namespace mc;
using ref::V;
struct Ob { // exact heap copy
  uint8_t* p; uint32_t n;
  Ob(const Bytes& b) { n = b.size(); p = (uint8_t*) malloc(n ? n : 1); memcpy(p, b.data(), n); }
  ~Ob() { free(p); }
};
static bool inside(bytes_t c, bytes_t parent) { return !c.len || (c.data >= parent.data && c.data + c.len <= parent.data + parent.len); }
// the reference reading of a byte string: is it a valid encoding (strict: spec; lenient: only sizes, bounds and limits)?
static bool ref_valid(const ssz_def_t* d, const uint8_t* p, size_t n, bool strict) {
  auto fixlen = [&](const ssz_def_t* x) { return ssz_fixed_length(x); };
  auto dyn    = [&](const ssz_def_t* x) { return ssz_is_dynamic(x); };
  switch (d->type) {
    case SSZ_TYPE_UINT: return n == d->def.uint.len;
    case SSZ_TYPE_BOOLEAN: return n == 1 && p[0] < 2;
    case SSZ_TYPE_NONE: return n == 0;
    case SSZ_TYPE_BIT_VECTOR: return n == (d->def.vector.len + 7) / 8 && (!strict || d->def.vector.len % 8 == 0 || !(p[n - 1] >> (d->def.vector.len % 8)));
    case SSZ_TYPE_BIT_LIST: {
      if (!n || !p[n - 1]) return false;
      int top = 7; while (!(p[n - 1] >> top & 1)) top--;
      return (n - 1) * 8 + top <= d->def.vector.len;
    }
    case SSZ_TYPE_UNION: return n > 0 && p[0] < d->def.container.len && (ref_valid(d->def.container.elements + p[0], p + 1, n - 1, strict));
    case SSZ_TYPE_VECTOR: {
      size_t e = fixlen(d->def.vector.type);
      if (n != e * d->def.vector.len) return false;
      for (size_t i = 0; i < n; i += e) if (!ref_valid(d->def.vector.type, p + i, e, strict)) return false;
      return true;
    }
    case SSZ_TYPE_LIST: {
      if (!dyn(d->def.vector.type)) {
        size_t e = fixlen(d->def.vector.type);
        if (n % e || n / e > d->def.vector.len) return false;
        for (size_t i = 0; i < n; i += e) if (!ref_valid(d->def.vector.type, p + i, e, strict)) return false;
        return true;
      }
      if (!n) return true;
      if (n < 4) return false;
      uint32_t f; memcpy(&f, p, 4);
      if (f % 4 || f < 4 || f > n || f / 4 > d->def.vector.len) return false;
      uint32_t off = f;
      for (uint32_t i = 1; i <= f / 4; i++) {
        uint32_t nx; if (i == f / 4) nx = n; else memcpy(&nx, p + 4 * i, 4);
        if (nx < off || nx > n || !ref_valid(d->def.vector.type, p + off, nx - off, strict)) return false;
        off = nx;
      }
      return true;
    }
    case SSZ_TYPE_CONTAINER: {
      size_t fix = 0;
      for (uint32_t i = 0; i < d->def.container.len; i++) fix += fixlen(d->def.container.elements + i);
      if (n < fix || (!dyn(d) && n != fix)) return false;
      size_t pos = 0; const ssz_def_t* last = nullptr; uint32_t lo = 0;
      for (uint32_t i = 0; i < d->def.container.len; i++) {
        const ssz_def_t* e = d->def.container.elements + i;
        if (dyn(e)) {
          uint32_t o; memcpy(&o, p + pos, 4);
          if (o > n || (last && o < lo) || (strict && !last && o != fix)) return false;
          if (!last && o < pos + 4) return false;
          if (last && !ref_valid(last, p + lo, o - lo, strict)) return false;
          last = e; lo = o; pos += 4;
        }
        else { if (!ref_valid(e, p + pos, fixlen(e), strict)) return false; pos += fixlen(e); }
      }
      return !last || ref_valid(last, p + lo, n - lo, strict);
    }
  }
  return false;
}
// touch everything that can be reached from a validated object
static void walk_all(ssz_ob_t ob, bytes_t root, const std::string& what, int depth = 0) {
  if (!ob.def) return;
  if (!inside(ob.bytes, root)) { violation("accessor-leaves-object", what); return; }
  volatile uint64_t sum = 0;
  for (uint32_t i = 0; i < ob.bytes.len; i++) sum += ob.bytes.data[i];
  switch (ob.def->type) {
    case SSZ_TYPE_VECTOR: case SSZ_TYPE_LIST: {
      uint32_t n = ssz_len(ob);
      step();
      if (ob.def->type == SSZ_TYPE_LIST && n > ob.def->def.vector.len) violation("list-longer-than-limit-accepted", what + " len=" + std::to_string(n));
      for (uint32_t i = 0; i < n + 2 && i < 200; i++) {
        ssz_ob_t c = ssz_at(ob, i);
        step();
        if (i >= n && c.def) violation("element-beyond-length", what);
        if (i < n && !c.def && ob.bytes.len) violation("element-missing", what + " index=" + std::to_string(i));
        if (c.def) walk_all(c, ob.bytes, what, depth + 1);
      }
      break;
    }
    case SSZ_TYPE_BIT_LIST: case SSZ_TYPE_BIT_VECTOR: { uint32_t n = ssz_len(ob); step(); if (n > ob.bytes.len * 8) violation("bit-length-wrong", what); break; }
    case SSZ_TYPE_CONTAINER:
      for (uint32_t i = 0; i < ob.def->def.container.len; i++) { ssz_ob_t c = ssz_get(&ob, ob.def->def.container.elements[i].name); step(); if (c.def) walk_all(c, ob.bytes, what, depth + 1); else violation("field-missing", what + " field " + ob.def->def.container.elements[i].name); }
      break;
    case SSZ_TYPE_UNION: { ssz_ob_t c = ssz_union(ob); step(); if (c.def) walk_all(c, ob.bytes, what, depth + 1); break; }
  }
}
static void check_bytes(const T& t, const Bytes& b) {
  Ob       o(b);
  ssz_ob_t ob{};
  ob.def = t.def; ob.bytes = bytes(o.p, o.n);
  c4_state_t st{};
  bool ok = ssz_is_valid(ob, true, &st);
  step();
  if (!ok && !st.error) violation("rejected-without-error", t.name);
  if (st.error) free(st.error);
  std::string what = t.name + " bytes=" + hex(b).substr(0, 200);
  if (ok && !ref_valid(t.def, o.p, o.n, false)) violation("invalid-encoding-accepted", what);
  if (!ok && ref_valid(t.def, o.p, o.n, true)) violation("valid-encoding-rejected", what);
  outcome(hash64(b, hash64(t.name, ok)));
  if (!ok) return;
  walk_all(ob, ob.bytes, what);
  uint8_t h[32];
  ssz_hash_tree_root(ob, h);
  char* s = ssz_dump_to_str(ob, false, false); free(s);
  s = ssz_dump_to_str(ob, true, true); free(s);
  step(3);
}
static std::vector<T> FAM;

// does the real object read back as the value?
static bool same(ssz_ob_t ob, const V& v) {
  if (!ob.def) return false;
  switch (v->k) {
    case ref::UNION: { ssz_ob_t c = ob.def->type == SSZ_TYPE_UNION ? ssz_union(ob) : ob; if (v->sel == 0) return !c.def || c.def->type == SSZ_TYPE_NONE; return same(c, v->kids[0]); }
    case ref::VEC: case ref::LIST: if (ssz_len(ob) != v->kids.size()) return false; for (size_t i = 0; i < v->kids.size(); i++) if (!same(ssz_at(ob, i), v->kids[i])) return false; return true;
    case ref::CONT: for (size_t i = 0; i < v->kids.size(); i++) if (!same(ssz_get(&ob, v->names[i].c_str()), v->kids[i])) return false; return true;
    case ref::BITL: if (ssz_len(ob) != v->bits.size()) return false;
    default: { Bytes e = ref::ser(v); return ob.bytes.len == e.size() && (!e.size() || !memcmp(ob.bytes.data, e.data(), e.size())); }
  }
}
// every leaf path of a value (gindex strings), only through containers, vectors and lists
static void paths(const V& v, const std::string& g, std::vector<std::pair<std::string, V>>& out, int depth = 0) {
  out.push_back({g, v});
  if (depth > 4) return;
  if (v->k == ref::CONT) for (size_t i = 0; i < v->kids.size(); i++) paths(v->kids[i], g + ref::bin(i, ref::depth_for(v->kids.size())), out, depth + 1);
  if ((v->k == ref::LIST || v->k == ref::VEC) && !v->elem_basic) {
    std::string gg = v->k == ref::LIST ? g + "0" : g;
    uint64_t lim = v->k == ref::LIST ? v->limit : v->kids.size();
    for (size_t i = 0; i < v->kids.size(); i++) paths(v->kids[i], gg + ref::bin(i, ref::depth_for(lim)), out, depth + 1);
  }
}
static Bytes vproof(const Bytes& proof, const std::vector<Bytes>& leaves, const std::vector<uint64_t>& gi, bool& ok) {
  Bytes l = ref::concat(leaves); Ob po(proof), lo(l);
  std::vector<gindex_t> g(gi.begin(), gi.end());
  bytes32_t out = {0};
  ok = ssz_verify_multi_merkle_proof(bytes(po.p, po.n), bytes(lo.p, lo.n), g.data(), out);
  step();
  return Bytes(out, out + 32);
}
static bool related(const std::string& a, const std::string& b) { return a.compare(0, b.size(), b) == 0 || b.compare(0, a.size(), a) == 0; }

int main(int argc, char** argv) {
  init(argc, argv);
  FAM = family();
  quiet_stderr();
  // --- validation / memory safety
  if (section("valid/values")) // every enumerated value of every type is accepted and reads back
    for (auto& t : FAM) for (auto& v : t.vals) if (next()) {
      Bytes b = ref::ser(v);
      check_bytes(t, b);
      Ob o(b); ssz_ob_t ob{}; ob.def = t.def; ob.bytes = bytes(o.p, o.n);
      if (b.size() && !same(ob, v)) violation("value-reads-back-differently", t.name + " bytes=" + hex(b).substr(0, 300));
      if (cur_case % 500 == 0) sample(t.name + " " + hex(b).substr(0, 120));
    }
  if (section("valid/edits")) // truncations, extensions, every byte set to boundary values, of every value
    for (auto& t : FAM) {
      size_t cnt = 0;
      for (auto& v : t.vals) {
        Bytes b = ref::ser(v);
        if (b.size() > 400) continue;
        if (!thorough && ++cnt > 60) break;
        for (size_t n = 0; n < b.size(); n++) if (next()) check_bytes(t, Bytes(b.begin(), b.begin() + n));
        for (int e : {0, 1, 0xff}) if (next()) { Bytes c = b; c.push_back(e); check_bytes(t, c); }
        for (size_t i = 0; i < b.size(); i++) for (int d : {-4, -1, 1, 4, 0x80, 0x100}) {
          if (!next()) continue;
          Bytes c = b; c[i] = d == 0x100 ? 0xff : d == 0x80 ? 0 : (uint8_t) (c[i] + d);
          check_bytes(t, c);
        }
      }
    }
  if (section("valid/short-strings")) { // all byte strings up to length 5 (6) over small offsets for the dynamic types
    static const uint8_t al[] = {0, 1, 2, 3, 4, 5, 8, 0x80, 0xff};
    for (auto& t : FAM) {
      if (!ssz_is_dynamic(t.def) && ssz_fixed_length(t.def) > 6) continue;
      int D = thorough ? 6 : 5;
      if (t.def->type == SSZ_TYPE_CONTAINER && ssz_fixed_length(t.def) == 4 && false) D++;
      for (int d = 0; d <= D; d++) {
        int n = d >= 6 ? 7 : (int) sizeof(al);
        std::vector<int> ix(d, 0);
        while (true) {
          if (next()) { Bytes b; for (int i : ix) b.push_back(al[i]); check_bytes(t, b); }
          int p = d - 1;
          while (p >= 0 && ++ix[p] == n) ix[p--] = 0;
          if (p < 0) break;
        }
      }
    }
  }
  if (section("valid/offset-tables")) { // all offset tables (up to 4 offsets) over a data area of up to 4 bytes, for list/container of dynamic fields
    for (auto& t : FAM) {
      if (t.def->type != SSZ_TYPE_LIST || !ssz_is_dynamic(t.def->def.vector.type)) continue;
      for (int n = 1; n <= 3; n++)
        for (int tail = 0; tail <= 3; tail++) {
          std::vector<uint32_t> vals; for (uint32_t v = 0; v <= (uint32_t) (4 * n + tail + 1); v++) vals.push_back(v); vals.push_back(0xffffffff); vals.push_back(0x80000000); vals.push_back(0x100);
          if (n == 3 && !thorough) { vals = {0, 3, 4, 8, 11, 12, 13, 14, 15, 16, 0xffffffff}; }
          std::vector<size_t> ix(n, 0);
          while (true) {
            if (next()) { Bytes b; for (size_t i : ix) ref::app(b, ref::le(vals[i], 4)); ref::app(b, Bytes(tail, 1)); check_bytes(t, b); }
            int p = n - 1;
            while (p >= 0 && ++ix[p] == vals.size()) ix[p--] = 0;
            if (p < 0) break;
          }
        }
    }
  }
  if (section("valid/limits")) // one element too many
    for (auto& t : FAM) {
      if (t.def->type != SSZ_TYPE_LIST || t.def->def.vector.len > 200) continue;
      for (auto& v : t.vals) {
        if (v->k == ref::BLIST ? v->data.size() != 1 : v->kids.size() != 1) continue;
        for (uint32_t k = t.def->def.vector.len; k <= t.def->def.vector.len + 3; k++) if (next()) {
          V w = ref::mk(v->k); *w = *v;
          if (v->k == ref::BLIST) w->data = pat(k, 1); else w->kids.assign(k, v->kids[0]);
          check_bytes(t, ref::ser(w));
        }
      }
    }
  // --- hashing and proofs
  if (section("merkle/root"))
    for (auto& t : FAM) {
      if (t.has_union) continue;
      for (auto& v : t.vals) if (next()) {
        Bytes b = ref::ser(v); Ob o(b);
        ssz_ob_t ob{}; ob.def = t.def; ob.bytes = bytes(o.p, o.n);
        uint8_t h[32];
        ssz_hash_tree_root(ob, h); step();
        Bytes e = ref::htr(v);
        if (memcmp(h, e.data(), 32)) violation("hash-tree-root-wrong:" + t.name.substr(0, t.name.find_first_of("0123456789({")), t.name + " value=" + hex(b).substr(0, 200) + " got=" + hex(h, 32) + " expected=" + hex(e));
        outcome(hash64(h, 32));
      }
    }
  if (section("merkle/proofs"))
    for (auto& t : FAM) {
      if (t.has_union || t.def->type == SSZ_TYPE_BIT_LIST) continue;
      size_t cnt = 0;
      for (auto& v : t.vals) {
        if (v->k != ref::CONT && v->k != ref::LIST && v->k != ref::VEC) continue;
        if (++cnt > (thorough ? 120u : 40u)) break;
        ref::NodeMap m; std::vector<std::pair<std::string, V>> ps;
        Bytes root, ser;
        bool prepared = false;
        auto prep = [&]() { if (!prepared) { root = ref::htr(v, &m); ser = ref::ser(v); prepared = true; } };
        paths(v, "1", ps);
        // single proofs
        for (size_t i = 1; i < ps.size(); i++) {
          if (ps[i].first.size() > 60) continue;
          if (!next()) continue;
          prep();
          Ob o(ser); ssz_ob_t ob{}; ob.def = t.def; ob.bytes = bytes(o.p, o.n);
          bytes32_t rh;
          uint64_t  g  = ref::gi(ps[i].first);
          bytes_t   pr = ssz_create_proof(ob, rh, g); step();
          Bytes     got(pr.data, pr.data + pr.len), exp = ref::concat(ref::branch(m, ps[i].first));
          std::string what = t.name + " gindex=" + std::to_string(g) + " value=" + hex(ser).substr(0, 160);
          if (memcmp(rh, root.data(), 32)) violation("proof-creation-root-wrong", what);
          if (got != exp) violation("created-single-proof-wrong", what + " got " + hex(got) + " expected " + hex(exp));
          free(pr.data);
          Bytes leaf = ref::node_at(m, ps[i].first);
          bool  ok; Bytes r = vproof(exp, {leaf}, {g}, ok);
          if (!ok || r != root) violation("honest-merkle-proof-rejected", what);
          // soundness: every single-bit change of leaf or witness, wrong index, missing/extra witness
          auto expect_bad = [&](const Bytes& p, const Bytes& l, uint64_t gg, const char* kind) { bool k; Bytes q = vproof(p, {l}, {gg}, k); if (k && q == root) violation(std::string("forged-merkle-proof-accepted:") + kind, what); };
          for (size_t bit = 0; bit < 256; bit += (thorough ? 1 : 5)) { Bytes l = leaf; l[bit / 8] ^= 1 << (bit % 8); expect_bad(exp, l, g, "leaf"); }
          for (size_t by = 0; by < exp.size(); by += (thorough ? 1 : 3)) { Bytes p = exp; p[by] ^= 1; expect_bad(p, leaf, g, "witness"); }
          if (exp.size()) { expect_bad(Bytes(exp.begin() + 32, exp.end()), leaf, g, "short"); expect_bad(Bytes(exp.begin(), exp.end() - 32), leaf, g, "short"); }
          expect_bad(ref::cat(exp, Bytes(32)), leaf, g, "long");
          for (int d = 0; d < (int) ps[i].first.size() - 1; d++) { std::string g2 = ps[i].first; char& c = g2[g2.size() - 1 - d]; c = c == '0' ? '1' : '0'; Bytes w(exp.begin() + 32 * d, exp.begin() + 32 * d + 32); 
            std::string anc = ps[i].first.substr(0, ps[i].first.size() - d); if (ref::node_at(m, anc) != w) expect_bad(exp, leaf, ref::gi(g2), "index"); }
          outcome(hash64(got));
        }
        // multi proofs: all pairs (and triples) of unrelated paths
        std::vector<size_t> sel;
        for (size_t i = 1; i < ps.size() && sel.size() < (thorough ? 14u : 9u); i++) if (ps[i].first.size() < 60) sel.push_back(i);
        for (size_t a = 0; a < sel.size(); a++) for (size_t b = 0; b < sel.size(); b++) for (size_t c = b; c <= sel.size(); c++) {
          if (a == b || related(ps[sel[a]].first, ps[sel[b]].first)) continue;
          bool three = c < sel.size();
          if (c == b) continue;
          if (three && (c == a || related(ps[sel[a]].first, ps[sel[c]].first) || related(ps[sel[b]].first, ps[sel[c]].first))) continue;
          if (three && !thorough && (a + b + c) % 3) continue;
          if (!next()) continue;
          prep();
          std::vector<std::string> gs = {ps[sel[a]].first, ps[sel[b]].first};
          if (three) gs.push_back(ps[sel[c]].first);
          std::vector<uint64_t> gi; std::vector<Bytes> leaves, wit;
          std::string what = t.name + " gindices=";
          for (auto& x : gs) { gi.push_back(ref::gi(x)); leaves.push_back(ref::node_at(m, x)); what += std::to_string(gi.back()) + ","; }
          for (auto& h : ref::helper_indices(gs)) wit.push_back(ref::node_at(m, h));
          Bytes exp = ref::concat(wit);
          Ob o(ser); ssz_ob_t ob{}; ob.def = t.def; ob.bytes = bytes(o.p, o.n);
          bytes32_t rh; std::vector<gindex_t> gg(gi.begin(), gi.end());
          bytes_t pr = ssz_create_multi_proof_for_gindexes(ob, rh, gg.data(), gg.size()); step();
          Bytes got(pr.data, pr.data + pr.len); free(pr.data);
          if (got != exp || memcmp(rh, root.data(), 32)) violation("created-multi-proof-wrong", what + " got " + hex(got).substr(0, 400) + " expected " + hex(exp).substr(0, 400));
          bool ok; Bytes r = vproof(exp, leaves, gi, ok);
          if (!ok || r != root) violation("honest-multi-proof-rejected", what);
          for (size_t l = 0; l < leaves.size(); l++) for (int bit : {0, 100, 255}) { auto ll = leaves; ll[l][bit / 8] ^= 1 << (bit % 8); Bytes q = vproof(exp, ll, gi, ok); if (ok && q == root) violation("forged-multi-proof-accepted:leaf", what + " leaf " + std::to_string(l)); }
          for (size_t w = 0; w < wit.size(); w++) { Bytes p = exp; p[32 * w + 7] ^= 4; Bytes q = vproof(p, leaves, gi, ok); if (ok && q == root) violation("forged-multi-proof-accepted:witness", what); }
          if (exp.size()) { Bytes q = vproof(Bytes(exp.begin(), exp.end() - 32), leaves, gi, ok); if (ok && q == root) violation("forged-multi-proof-accepted:short", what); }
          { Bytes q = vproof(ref::cat(exp, Bytes(32)), leaves, gi, ok); if (ok && q == root) violation("forged-multi-proof-accepted:long", what); }
          if (leaves[0] != leaves[1]) { auto ll = leaves; std::swap(ll[0], ll[1]); Bytes q = vproof(exp, ll, gi, ok); if (ok && q == root) violation("forged-multi-proof-accepted:swapped", what); }
          // the same position given twice with different contents must not pass
          { auto ll = leaves; auto g2 = gi; ll.push_back(leaves[0]); ll.back()[3] ^= 1; g2.push_back(gi[0]); Bytes q = vproof(exp, ll, g2, ok); if (ok && q == root) violation("conflicting-leaves-accepted", what); }
        }
      }
    }
  if (section("merkle/gindex")) // generalized indices from type definitions
    for (auto& t : FAM) {
      const ssz_def_t* d = t.def;
      if (d->type == SSZ_TYPE_CONTAINER)
        for (uint32_t i = 0; i < d->def.container.len; i++) {
          const ssz_def_t* e = d->def.container.elements + i;
          std::string g = "1" + ref::bin(i, ref::depth_for(d->def.container.len));
          if (next()) { uint64_t got = ssz_gindex(d, 1, e->name); step(); if (got != ref::gi(g)) violation("gindex-wrong", t.name + " field " + e->name + " got " + std::to_string(got)); }
          if (e->type == SSZ_TYPE_CONTAINER) for (uint32_t j = 0; j < e->def.container.len; j++) if (next()) { std::string g2 = g + ref::bin(j, ref::depth_for(e->def.container.len)); uint64_t got = ssz_gindex(d, 2, e->name, e->def.container.elements[j].name); step(); if (got != ref::gi(g2)) violation("gindex-wrong", t.name + " nested " + std::to_string(got)); }
          if (e->type == SSZ_TYPE_LIST && e->def.vector.type->type != SSZ_TYPE_UINT && e->def.vector.len >= 1) for (int j = 0; j < (int) std::min<uint32_t>(4, e->def.vector.len); j++) if (next()) { std::string g2 = g + "0" + ref::bin(j, ref::depth_for(e->def.vector.len)); uint64_t got = ssz_gindex(d, 2, e->name, j); step(); if (got != ref::gi(g2)) violation("gindex-wrong", t.name + " list element " + std::to_string(j) + " got " + std::to_string(got) + " expected " + std::to_string(ref::gi(g2))); }
        }
      for (uint64_t g1 : {1, 2, 3, 5, 41, 1023}) for (uint64_t g2 : {1, 2, 3, 9, 22, 511, 512, 1 << 20}) if (next()) {
        std::string s = ref::gs(g1) + ref::gs(g2).substr(1);
        uint64_t got = ssz_add_gindex(g1, g2); step();
        if (got != ref::gi(s)) violation("gindex-concat-wrong", std::to_string(g1) + "+" + std::to_string(g2) + "=" + std::to_string(got));
      }
    }
  // --- builders and JSON
  if (section("build/json-roundtrip"))
    for (auto& t : FAM) {
      if (t.has_union) continue;
      for (auto& v : t.vals) for (int hexmode = 0; hexmode < 2; hexmode++) if (next()) {
        Bytes b = ref::ser(v); Ob o(b);
        ssz_ob_t ob{}; ob.def = t.def; ob.bytes = bytes(o.p, o.n);
        char* s = ssz_dump_to_str(ob, false, hexmode); step();
        json_t j = json_parse(s);
        c4_state_t st{};
        ssz_ob_t back = ssz_from_json(j, t.def, &st); step(2);
        if (st.error) violation("json-roundtrip-error", t.name + " " + st.error + " json=" + std::string(s).substr(0, 200));
        if (back.bytes.len != b.size() || (b.size() && memcmp(back.bytes.data, b.data(), b.size()))) violation("json-roundtrip-differs:" + t.name.substr(0, t.name.find_first_of("0123456789({")), t.name + " hex=" + std::to_string(hexmode) + " value=" + hex(b).substr(0, 100) + " json=" + std::string(s).substr(0, 200) + " got=" + hex(back.bytes.data, back.bytes.len).substr(0, 100));
        outcome(hash64(std::string(s)));
        if (st.error) free(st.error);
        free(s); free(back.bytes.data);
      }
    }
  if (section("build/builders")) // containers rebuilt field by field
    for (auto& t : FAM) {
      if (t.def->type != SSZ_TYPE_CONTAINER && t.def->type != SSZ_TYPE_LIST) continue;
      for (auto& v : t.vals) if (next()) {
        Bytes b = ref::ser(v);
        ssz_builder_t bd{}; bd.def = t.def;
        if (v->k == ref::CONT) {
          for (size_t i = 0; i < v->kids.size(); i++) {
            const ssz_def_t* e = t.def->def.container.elements + i;
            Bytes kb = ref::ser(v->kids[i]); Ob ko(kb);
            step();
            if (v->kids[i]->k == ref::UNION && v->kids[i]->sel) { ssz_ob_t x{}; x.def = e->def.container.elements + v->kids[i]->sel; x.bytes = bytes(ko.p + 1, ko.n - 1); 
               if (i % 2) ssz_add_ob(&bd, e->name, x); else { ssz_builder_t kb2{}; kb2.def = x.def; buffer_append(&kb2.fixed, x.bytes); ssz_add_builders(&bd, e->name, kb2); } }
            else if (v->kids[i]->k == ref::UINT && v->kids[i]->data.size() <= 8) { uint64_t x = 0; for (int k = (int) kb.size() - 1; k >= 0; k--) x = x << 8 | kb[k]; if (kb.size() == 1) ssz_add_uint8(&bd, x); else if (kb.size() == 2) ssz_add_uint16(&bd, x); else if (kb.size() == 4) ssz_add_uint32(&bd, x); else ssz_add_uint64(&bd, x); }
            else if (v->kids[i]->k == ref::UINT) { Bytes bebytes(kb.rbegin(), kb.rend()); bebytes = ref::trim(bebytes); Ob bo(bebytes); ssz_add_uint256(&bd, bytes(bo.p, bo.n)); }
            else if (i % 2 && v->kids[i]->k != ref::UNION) { ssz_builder_t kb2{}; kb2.def = e; buffer_append(&kb2.fixed, bytes(ko.p, ko.n)); ssz_add_builders(&bd, e->name, kb2); }
            else ssz_add_bytes(&bd, e->name, bytes(ko.p, ko.n));
          }
        }
        else if (v->k == ref::LIST) for (size_t i = 0; i < v->kids.size(); i++) {
          Bytes kb = ref::ser(v->kids[i]); Ob ko(kb); step();
          if (i % 2) { ssz_builder_t kb2{}; kb2.def = t.def->def.vector.type; buffer_append(&kb2.fixed, bytes(ko.p, ko.n)); ssz_add_dynamic_list_builders(&bd, v->kids.size(), kb2); }
          else ssz_add_dynamic_list_bytes(&bd, v->kids.size(), bytes(ko.p, ko.n));
        }
        else { ssz_builder_free(&bd); continue; }
        ssz_ob_t r = ssz_builder_to_bytes(&bd); step();
        if (r.bytes.len != b.size() || (b.size() && memcmp(r.bytes.data, b.data(), b.size()))) violation("builder-output-wrong", t.name + " got=" + hex(r.bytes.data, r.bytes.len).substr(0, 200) + " expected=" + hex(b).substr(0, 200));
        outcome(hash64(b));
        free(r.bytes.data);
      }
    }
  finish();
}
