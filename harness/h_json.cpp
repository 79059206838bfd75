// JSON text: totality on all short texts, exact reading of all generated documents, conversions into bounded buffers, schema validation.
#include "repo.hpp"
#include "mc.hpp"
#include "ref.hpp"
using namespace mc;
static std::string esc_detail(const std::string& s) { return jstr(s); }
struct Text { char* p; size_t n; Text(const std::string& s) { n = s.size(); p = (char*) malloc(n + 1); memcpy(p, s.data(), n); p[n] = 0; } ~Text() { free(p); } };

// ---------- totality
static const char* g_lo; static const char* g_hi; static std::string g_txt;
static bool in_text(json_t j) { return j.type == JSON_TYPE_INVALID || j.type == JSON_TYPE_NOT_FOUND || (j.start >= g_lo && j.start + j.len <= g_hi); }
static int g_budget;
static void use_value(json_t j, int depth) {
  if (!in_text(j)) { violation("value-outside-text", esc_detail(g_txt)); return; }
  if (j.type == JSON_TYPE_INVALID || j.type == JSON_TYPE_NOT_FOUND || --g_budget < 0) return;
  step();
  (void) json_as_uint64(j); (void) json_as_bool(j); (void) json_as_null(j);
  buffer_t b = {0};
  char* s = json_as_string(j, &b);
  if (strlen(s) > j.len) violation("string-longer-than-text", esc_detail(g_txt));
  buffer_free(&b);
  b = buffer_t{}; json_as_bytes(j, &b); buffer_free(&b);
  uint8_t* small = (uint8_t*) malloc(3);
  buffer_t fb = {.data = bytes(small, 0), .allocated = -3};
  bytes_t r = json_as_bytes(j, &fb);
  if (r.len > 3) violation("fixed-buffer-overrun", esc_detail(g_txt));
  fb.data.len = 0; json_as_string(j, &fb);
  free(small);
  (void) json_equal_string(j, "a");
  if (j.type == JSON_TYPE_ARRAY) {
    size_t n = json_len(j);
    if (n > j.len) violation("more-elements-than-text", esc_detail(g_txt));
    for (size_t i = 0; i <= n; i++) { json_t e = json_at(j, i); if ((i < n) == (e.type == JSON_TYPE_INVALID || e.type == JSON_TYPE_NOT_FOUND)) violation("length-and-elements-disagree", esc_detail(g_txt)); use_value(e, depth + 1); }
  }
  if (j.type == JSON_TYPE_OBJECT) {
    bytes_t name = {0};
    json_for_each_property(j, v, name) { if (name.data && ((char*) name.data < g_lo || (char*) name.data + name.len > g_hi)) violation("name-outside-text", esc_detail(g_txt)); use_value(v, depth + 1); }
    json_get(j, "a"); json_get(j, ""); json_get(j, "ab");
  }
  for (const char* def : {"[bytes]", "{a:bytes,e?:uint}", "{*:hexuint}", "block", "hex32", "suint"}) { const char* e = json_validate(j, def, "x"); free((void*) e); }
}
static void total(const std::string& s) {
  Text t(s);
  g_lo = t.p; g_hi = t.p + t.n; g_txt = s; g_budget = 200;
  json_t j = json_parse(t.p); step();
  use_value(j, 0);
  outcome(hash64(s, j.type + 10 + 31 * (j.type > 0 ? j.len : 0)));
}
// ---------- documents with a reference tree
struct N { char k; std::string text, str; uint64_t num = 0; std::vector<std::pair<std::string, std::shared_ptr<N>>> kids; };
typedef std::shared_ptr<N> P;
static P leaf(char k, const std::string& text, const std::string& str = "", uint64_t num = 0) { P p = std::make_shared<N>(); p->k = k; p->text = text; p->str = str; p->num = num; return p; }
static std::vector<P> LEAVES = {leaf('n', "null"), leaf('t', "true"), leaf('f', "false"), leaf('0', "0", "", 0), leaf('0', "18446744073709551615", "", ~0ull), leaf('1', "-1.5e+3"), leaf('s', "\"\"", ""), leaf('s', "\"a}]\"", "a}]"), leaf('s', "\"\\\"{[\"", "\"{["), leaf('s', "\"x\\\\\"", "x\\"), leaf('s', "\"0x0A\"", "0x0A", 10)};
static std::string render(const P& p, int ws) {
  static const char* W[] = {"", " ", "\n\t "};
  std::string w = W[ws];
  if (p->k == '[' || p->k == '{') {
    std::string r(1, p->k); r += w;
    for (size_t i = 0; i < p->kids.size(); i++) { if (i) r += w + "," + w; if (p->k == '{') r += "\"" + p->kids[i].first + "\"" + w + ":" + w; r += render(p->kids[i].second, ws); }
    return r + w + (p->k == '[' ? "]" : "}");
  }
  return p->text;
}
static void gen(int nodes, int depth, std::vector<P>& out) { // all trees with exactly this many nodes below/including
  if (nodes == 1) { for (auto& l : LEAVES) out.push_back(l); P a = leaf('[', ""), o = leaf('{', ""); out.push_back(a); out.push_back(o); return; }
  if (depth == 0) return;
  // container with children: compositions of nodes-1
  std::function<void(int, std::vector<std::vector<P>>&)> comp = [&](int left, std::vector<std::vector<P>>& parts) {
    if (left == 0) {
      std::vector<size_t> ix(parts.size(), 0);
      while (true) {
        for (char k : {'[', '{'}) {
          static const char* names[] = {"a", "b", "", "ab"};
          for (int rot = 0; rot < (k == '{' ? 2 : 1); rot++) {
            P p = leaf(k, "");
            for (size_t i = 0; i < ix.size(); i++) p->kids.push_back({k == '{' ? names[(i + rot) % 4] : "", parts[i][ix[i]]});
            out.push_back(p);
          }
        }
        int q = (int) ix.size() - 1;
        while (q >= 0 && ++ix[q] == parts[q].size()) ix[q--] = 0;
        if (q < 0) break;
      }
      return;
    }
    for (int n = 1; n <= left; n++) { std::vector<P> sub; gen(n, depth - 1, sub); if (sub.empty()) continue; parts.push_back(sub); comp(left - n, parts); parts.pop_back(); }
  };
  std::vector<std::vector<P>> parts;
  comp(nodes - 1, parts);
}
static void compare(json_t j, const P& p, const std::string& txt) {
  step();
  std::string what = esc_detail(txt);
  switch (p->k) {
    case 'n': if (!json_as_null(j)) violation("null-misread", what); break;
    case 't': case 'f': if (j.type != JSON_TYPE_BOOLEAN || json_as_bool(j) != (p->k == 't')) violation("bool-misread", what); break;
    case '0': if (j.type != JSON_TYPE_NUMBER || json_as_uint64(j) != p->num) violation("number-misread", what); break;
    case '1': if (j.type != JSON_TYPE_NUMBER || j.len != p->text.size()) violation("number-misread", what); break;
    case 's': { if (j.type != JSON_TYPE_STRING) { violation("string-misread", what); break; } char* s = json_new_string(j); if (p->str != s) violation("string-misread", what + " got " + jstr(s)); free(s); break; }
    case '[': {
      if (j.type != JSON_TYPE_ARRAY || json_len(j) != p->kids.size()) { violation("array-length-misread", what); break; }
      for (size_t i = 0; i < p->kids.size(); i++) compare(json_at(j, i), p->kids[i].second, txt);
      if (json_at(j, p->kids.size()).type != JSON_TYPE_NOT_FOUND) violation("array-overread", what);
      break;
    }
    case '{': {
      if (j.type != JSON_TYPE_OBJECT) { violation("object-misread", what); break; }
      size_t i = 0; bytes_t name = {0};
      json_for_each_property(j, v, name) { if (i >= p->kids.size() || std::string((char*) name.data, name.len) != p->kids[i].first) { violation("property-misread", what); return; } compare(v, p->kids[i].second, txt); i++; }
      if (i != p->kids.size()) violation("property-missing", what);
      for (auto& k : p->kids) compare(json_get(j, k.first.c_str()), k.second, txt);
      if (json_get(j, "zz").type != JSON_TYPE_NOT_FOUND) violation("property-invented", what);
      break;
    }
  }
}
// ---------- reference schema validator over reference trees
struct Sch { char k; std::string name; std::vector<std::pair<std::string, std::shared_ptr<Sch>>> kids; std::vector<bool> opt; };
typedef std::shared_ptr<Sch> S;
static std::string sch_text(const S& s) {
  if (s->k == 'p') return s->name;
  if (s->k == '*') return "{*:" + sch_text(s->kids[0].second) + "}";
  std::string r(1, s->k);
  for (size_t i = 0; i < s->kids.size(); i++) { if (i) r += ","; if (s->k == '{') r += s->kids[i].first + (s->opt[i] ? "?" : "") + ":"; r += sch_text(s->kids[i].second); }
  return r + (s->k == '[' ? "]" : "}");
}
static S prim(const char* n) { S s = std::make_shared<Sch>(); s->k = 'p'; s->name = n; return s; }
static S comp(char k, std::vector<std::pair<std::string, S>> kids, std::vector<bool> opt = {}) { S s = std::make_shared<Sch>(); s->k = k; s->kids = kids; s->opt = opt; s->opt.resize(kids.size()); return s; }
static bool ref_ok(const P& v, const S& s) {
  if (s->k == 'p') {
    bool str = v->k == 's';
    const std::string& t = v->str;
    bool hexs = str && t.size() >= 2 && t[0] == '0' && t[1] == 'x';
    for (size_t i = 2; hexs && i < t.size(); i++) if (!isxdigit((unsigned char) t[i])) hexs = false;
    size_t d = hexs ? t.size() - 2 : 0;
    bool hu = hexs && d >= 1 && !(d > 1 && t[2] == '0') && d <= 64;
    if (s->name == "bytes32") return hexs && d == 64;
    if (s->name == "address") return hexs && d == 40;
    if (s->name == "bytes") return hexs;
    if (s->name == "hexuint") return hu;
    if (s->name == "hex32") return hexs && (d + 1) / 2 <= 32;
    if (s->name == "uint") { if (v->k != '0' && v->k != '1') return false; for (char c : v->text) if (!isdigit((unsigned char) c)) return false; return true; }
    if (s->name == "suint") { if (!str || t.empty()) return false; for (char c : t) if (!isdigit((unsigned char) c)) return false; return true; }
    if (s->name == "bool") return v->k == 't' || v->k == 'f';
    if (s->name == "block") return hu || (hexs && d == 64) || (str && (t == "latest" || t == "safe" || t == "finalized"));
    return false;
  }
  if (s->k == '[') { if (v->k != '[') return false; for (size_t i = 0; i < v->kids.size(); i++) if (!ref_ok(v->kids[i].second, s->kids[std::min(i, s->kids.size() - 1)].second)) return false; return true; }
  if (v->k != '{') return false;
  if (s->k == '*') { for (auto& k : v->kids) if (!ref_ok(k.second, s->kids[0].second)) return false; return true; }
  for (size_t i = 0; i < s->kids.size(); i++) {
    P f; for (auto& k : v->kids) if (k.first == s->kids[i].first) { f = k.second; break; }
    if (!f) { if (!s->opt[i]) return false; continue; }
    if (s->opt[i] && f->k == 'n') continue;
    if (!ref_ok(f, s->kids[i].second)) return false;
  }
  return true;
}
static P pstr(const std::string& s) { return leaf('s', "\"" + s + "\"", s); }
static P pcont(char k, std::vector<std::pair<std::string, P>> kids) { P p = leaf(k, ""); p->kids = kids; return p; }

int main(int argc, char** argv) {
  init(argc, argv);
  quiet_stderr();
  if (section("json/all-texts")) {
    static const char al[] = "{}[]\":,\\0-tnu a";
    int D = thorough ? 6 : 5;
    for (int d = 0; d <= D; d++) {
      std::vector<int> ix(d, 0); int n = (int) sizeof(al) - 1;
      while (true) {
        if (next()) { std::string s; for (int i : ix) s += al[i]; total(s); }
        int p = d - 1; while (p >= 0 && ++ix[p] == n) ix[p--] = 0; if (p < 0) break;
      }
    }
  }
  if (section("json/token-texts")) { // all sequences of tokens: deeper structure than single characters reach
    static const char* tk[] = {"{", "}", "[", "]", "\"a\"", ":", ",", "\"\\u00e9\"", "\"0x123456789012345678901\"", "12345678901234567890123", "true", "fals", "null", " ", "\"e\":", "\"\\", "-"};
    int D = thorough ? 6 : 5, n = sizeof(tk) / sizeof(*tk);
    for (int d = 0; d <= D; d++) {
      std::vector<int> ix(d, 0);
      while (true) {
        if (next()) { std::string s; for (int i : ix) s += tk[i]; total(s); }
        int p = d - 1; while (p >= 0 && ++ix[p] == n) ix[p--] = 0; if (p < 0) break;
      }
    }
  }
  if (section("json/documents")) {
    for (int nodes = 1; nodes <= (thorough ? 5 : 4); nodes++) {
      std::vector<P> docs; gen(nodes, 3, docs);
      for (auto& d : docs) for (int ws = 0; ws < (nodes > 4 ? 1 : 3); ws++) if (next()) {
        std::string s = render(d, ws); Text t(s);
        json_t j = json_parse(t.p);
        if (j.len != s.size()) violation("document-length-misread", esc_detail(s));
        compare(j, d, s);
        outcome(hash64(s));
        if (cur_case % 20000 == 100) sample(s);
      }
    }
  }
  if (section("json/escapes")) {
    static const std::pair<const char*, const char*> tk[] = {{"a", "a"}, {"\\\"", "\""}, {"\\\\", "\\"}, {"\\/", "/"}, {"\\b", "\b"}, {"\\f", "\f"}, {"\\n", "\n"}, {"\\r", "\r"}, {"\\t", "\t"}, {"\\u0041", "A"}, {"\\u00e9", "\xc3\xa9"}, {"\\u20AC", "\xe2\x82\xac"}, {"\\u07ff", "\xdf\xbf"}, {"\\u0800", "\xe0\xa0\x80"}, {"u", "u"}, {"n", "n"}, {"}", "}"}, {"\xc3\xa9", "\xc3\xa9"}};
    int n = sizeof(tk) / sizeof(*tk);
    for (int d = 0; d <= (thorough ? 5 : 4); d++) {
      std::vector<int> ix(d, 0);
      while (true) {
        if (next()) {
          std::string s = "\"", e; for (int i : ix) { s += tk[i].first; e += tk[i].second; } s += "\"";
          Text t(s); json_t j = json_parse(t.p); step();
          if (j.type != JSON_TYPE_STRING || j.len != s.size()) violation("escaped-string-misread", esc_detail(s));
          else { char* r = json_new_string(j); if (e != r) violation("escapes-decoded-wrong", esc_detail(s) + " got " + jstr(r)); 
            // and back: the escaping printer produces text that reads back as the same string
            buffer_t b = {0}; bprintf(&b, "\"%S\"", e.c_str()); json_t k = json_parse((char*) b.data.data); char* r2 = k.type == JSON_TYPE_STRING ? json_new_string(k) : strdup("?"); step(2);
            if (e != r2) violation("escaping-does-not-read-back", esc_detail(s) + " printed " + jstr((char*) b.data.data));
            buffer_free(&b); free(r); free(r2); }
          outcome(hash64(s));
        }
        int p = d - 1; while (p >= 0 && ++ix[p] == n) ix[p--] = 0; if (p < 0) break;
      }
    }
  }
  // ---------- conversions
  if (section("conv/hex")) // every hex length into every buffer size: exact result or empty, never outside
    for (int prefix = 0; prefix < 2; prefix++) for (int len = 0; len <= 70; len++) for (int cap = -1; cap <= 40; cap++) for (int bad = -1; bad < std::min(len, 4); bad++) for (int up = 0; up < 2; up++) if (next()) {
      std::string h, ht; for (int i = 0; i < len; i++) h += "123456789abcdef0"[i % 16];
      ht = h; if (up) for (auto& c : ht) c = toupper(c);
      if (bad >= 0) ht[bad * (len - 1) / 3 % len] = 'g';
      std::string s = std::string("\"") + (prefix ? "0x" : "") + ht + "\"";
      Text t(s); json_t j = json_parse(t.p);
      Bytes e = bad >= 0 ? Bytes() : ref::unhex(len % 2 ? "0" + h : h);
      buffer_t b = {0}; uint8_t* fixed = nullptr;
      if (cap >= 0) { fixed = (uint8_t*) malloc(cap ? cap : 1); b.data.data = fixed; b.allocated = cap ? -cap : -1; }
      bytes_t r = json_as_bytes(j, &b); step();
      Bytes got; if (r.len) got.assign(r.data, r.data + r.len);
      bool fits = cap < 0 || (int) e.size() <= std::max(cap, 1);
      std::string what = s + " capacity=" + std::to_string(cap);
      if (fits ? got != e : !got.empty()) violation("hex-bytes-wrong", what + " got " + hex(got));
      if (cap > 0 && b.data.len > (uint32_t) cap) violation("fixed-buffer-length-exceeded", what);
      if (bad >= 0 && b.data.len != 0) violation("failed-conversion-left-data", what);
      if (fixed) free(fixed); else buffer_free(&b);
      if (prefix && bad < 0 && len > 0) { uint64_t x = json_as_uint64(j); step(); uint64_t want = 0; for (uint8_t c : e) want = want << 8 | c; if (len <= 16 && x != want) violation("hex-number-wrong", what + " got " + std::to_string(x)); }
      outcome(hash64(s, cap + 2));
    }
  if (section("conv/hex_to_bytes"))
    for (int len = 0; len <= 24; len++) for (int cap = 0; cap <= 14; cap++) for (int bad = -1; bad < len; bad++) for (int mode = 0; mode < 2; mode++) if (next()) {
      std::string h; for (int i = 0; i < len; i++) h += "fedcba9876543210"[i % 16];
      std::string x = h; if (bad >= 0) x[bad] = mode ? 'x' : ' ';
      if (bad == 1 && mode && x[0] == '0') continue;
      std::string s = (bad < 0 && mode ? "0x" : "") + x;
      Text t(s); uint8_t* buf = (uint8_t*) malloc(cap ? cap : 1);
      int r = hex_to_bytes(t.p, (int) s.size(), bytes(buf, cap)); step();
      Bytes e = ref::unhex(len % 2 ? "0" + h : h);
      bool ok = bad < 0 && (int) e.size() <= cap;
      if (ok ? (r != (int) e.size() || memcmp(buf, e.data(), r)) : r != -1) violation("hex_to_bytes-wrong", jstr(s) + " capacity " + std::to_string(cap) + " returned " + std::to_string(r));
      if (s.size()) { int r2 = hex_to_bytes(t.p, -1, bytes(buf, cap)); if (r2 != r) violation("hex_to_bytes-length-detection", jstr(s)); }
      free(buf);
      outcome(hash64(s, cap));
    }
  if (section("conv/numbers")) {
    std::vector<uint64_t> xs; for (int i = 0; i < 64; i++) for (int d = -1; d <= 1; d++) xs.push_back((1ull << i) + d);
    uint64_t p10 = 1; for (int i = 0; i < 20; i++) { for (int d = -1; d <= 1; d++) xs.push_back(p10 + d); p10 *= 10; }
    xs.push_back(~0ull);
    for (uint64_t x : xs) if (next()) {
      std::string d = std::to_string(x); char hx[32]; snprintf(hx, 32, "%llx", (unsigned long long) x);
      for (std::string s : {d, "\"" + d + "\"", "\"0x" + std::string(hx) + "\""}) { Text t(s); uint64_t r = json_as_uint64(json_parse(t.p)); step(); if (r != x) violation("number-misread", s + " got " + std::to_string(r)); }
      buffer_t b = {0};
      char* s = bprintf(&b, "%l|%lx|%d|%dx|", x, x, (uint32_t) x, (uint32_t) x); step();
      char e[128]; snprintf(e, 128, "%llu|%llx|%u|%x|", (unsigned long long) x, (unsigned long long) x, (uint32_t) x, (uint32_t) x);
      if (strcmp(s, e)) violation("number-printed-wrong", std::string(e) + " got " + s);
      buffer_free(&b);
      uint8_t m[8]; uint64_to_be(m, x); if (uint64_from_be(m) != x || bytes_as_be(bytes(m, 8)) != x) violation("be-roundtrip", d);
      uint64_to_le(m, x); if (uint64_from_le(m) != x || bytes_as_le(bytes(m, 8)) != x) violation("le-roundtrip", d);
      uint32_to_le(m, (uint32_t) x); if (uint32_from_le(m) != (uint32_t) x || uint16_from_le(m) != (uint16_t) x) violation("le32-roundtrip", d);
      for (uint32_t l = 1; l <= 8; l++) { buffer_t q = {0}; buffer_add_be(&q, x, l); if (bytes_as_be(q.data) != (l == 8 ? x : x & ((1ull << 8 * l) - 1))) violation("add_be", d); q.data.len = 0; buffer_add_le(&q, x, l); if (bytes_as_le(q.data) != (l == 8 ? x : x & ((1ull << 8 * l) - 1))) violation("add_le", d); buffer_free(&q); step(2); }
      outcome(x);
    }
  }
  if (section("conv/buffers")) { // all operation sequences on growing and fixed buffers against a model
    const int NOP = 9; int D = thorough ? 5 : 4;
    for (int cap : {-1, 1, 2, 3, 5, 8, 13, 40}) for (int d = 1; d <= D; d++) {
      std::vector<int> ix(d, 0);
      while (true) {
        if (next()) {
          uint8_t* fixed = nullptr; buffer_t b = {0};
          if (cap > 0) { fixed = (uint8_t*) malloc(cap); b.data.data = fixed; b.allocated = -cap; }
          std::string m; bool exact = true; // exact: the model knows the content (no truncation happened)
          std::string what = "capacity=" + std::to_string(cap) + " ops=";
          for (int o : ix) {
            what += std::to_string(o); step();
            auto add = [&](const std::string& s, bool nul) { if (cap > 0 && m.size() + s.size() + nul > (size_t) cap) exact = false; m += s; };
            switch (o) {
              case 0: buffer_append(&b, bytes((uint8_t*) "ab", 2)); add("ab", false); break;
              case 1: buffer_add_chars(&b, "xyz"); add("xyz", true); break;
              case 2: bprintf(&b, "%S", "q\"\n\x01"); add("q\\\"\\n\\u0001", true); break;
              case 3: bprintf(&b, "<%x%u>", bytes((uint8_t*) "\0\x1f", 2), bytes((uint8_t*) "\0\x0f", 2)); add("<001ff>", true); break;
              case 4: buffer_add_be(&b, 0x4142, 2); add("AB", false); break;
              case 5: if (b.data.len >= 2 && exact) { buffer_splice(&b, 1, 1, bytes((uint8_t*) "123", 3)); std::string n = m.substr(0, 1) + "123" + m.substr(2); if (cap < 0 || n.size() <= (size_t) cap) m = n; } break;
              case 6: if (b.data.len >= 2 && exact) { buffer_splice(&b, 0, 2, bytes((uint8_t*) "Z", 1)); m = "Z" + m.substr(2); } break;
              case 7: buffer_add_bytes(&b, 3, 'r', 's', 't'); add("rst", false); break;
              case 8: { json_t j = json_parse("[1]"); buffer_add_json(&b, j); add("[1]", false); break; }
            }
            if (cap > 0 && b.data.len > (uint32_t) cap) { violation("fixed-buffer-length-exceeded", what); break; }
            if (exact && (b.data.len != m.size() || (m.size() && memcmp(b.data.data, m.data(), m.size())))) { violation("buffer-content-wrong", what + " expected " + m + " got " + std::string((char*) b.data.data, b.data.len)); break; }
          }
          outcome(hash64(b.data.data, b.data.len, cap));
          if (fixed) free(fixed); else buffer_free(&b);
        }
        int p = d - 1; while (p >= 0 && ++ix[p] == NOP) ix[p--] = 0; if (p < 0) break;
      }
    }
  }
  if (section("conv/format-limits")) // every format directive into fixed buffers of every size
    for (int cap = 1; cap <= 40; cap++) for (int f = 0; f < 12; f++) for (int lead = 0; lead < 4; lead++) if (next()) {
      uint8_t* fixed = (uint8_t*) malloc(cap); buffer_t b = {.data = bytes(fixed, 0), .allocated = -cap};
      std::string l(lead, 'L');
      json_t j = json_parse("\"js\\\"on\""); uint8_t raw[12] = {0, 0, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0};
      ssz_ob_t ob{}; ob.def = &ssz_bytes32; uint8_t b32[32] = {1}; ob.bytes = bytes(b32, 32);
      switch (f) {
        case 0: bprintf(&b, "%s%s", l.c_str(), "hello world"); break;
        case 1: bprintf(&b, "%s%S", l.c_str(), "he\"llo\tw\x02"); break;
        case 2: bprintf(&b, "%s%x", l.c_str(), bytes(raw, 12)); break;
        case 3: bprintf(&b, "%s%u", l.c_str(), bytes(raw, 12)); break;
        case 4: bprintf(&b, "%s%J", l.c_str(), j); break;
        case 5: bprintf(&b, "%s%j.", l.c_str(), j); break;
        case 6: bprintf(&b, "%s%l", l.c_str(), (uint64_t) 12345678901234ull); break;
        case 7: bprintf(&b, "%s%lx", l.c_str(), (uint64_t) 0x123456789abcull); break;
        case 8: bprintf(&b, "%s%d%c", l.c_str(), 4000000000u, 'q'); break;
        case 9: bprintf(&b, "%s%f", l.c_str(), 3.25); break;
        case 10: bprintf(&b, "%s%Z", l.c_str(), ob); break;
        case 11: bprintf(&b, "%s%r%%end", l.c_str(), bytes(raw + 2, 5)); break;
      }
      step();
      if (b.data.len > (uint32_t) cap) violation("fixed-buffer-length-exceeded", "format " + std::to_string(f) + " capacity " + std::to_string(cap));
      if (b.data.len < (uint32_t) cap && fixed[b.data.len] != 0) violation("missing-terminator", "format " + std::to_string(f) + " capacity " + std::to_string(cap));
      if (!memchr(fixed, 0, cap)) violation("missing-terminator", "format " + std::to_string(f) + " capacity " + std::to_string(cap));
      outcome(hash64(fixed, b.data.len, f));
      free(fixed);
    }
  if (section("conv/empty-uint")) for (int n = 0; n <= 33; n++) for (int z = 0; z <= n; z++) if (next()) {
    Bytes v(n); for (int i = z; i < n; i++) v[i] = 0x0f + i;
    uint8_t* p = (uint8_t*) malloc(n ? n : 1); if (n) memcpy(p, v.data(), n);
    buffer_t b = {0}; char* s = bprintf(&b, "0x%u", bytes(p, n)); step();
    std::string h = hex(v); size_t k = 0; while (k + 1 < h.size() && h[k] == '0') k++;
    std::string e = "0x" + (h.empty() ? "" : h.substr(k));
    if (e != s) violation("uint-printed-wrong", e + " got " + s);
    buffer_free(&b); free(p);
  }
  // ---------- schema validation
  std::vector<P> vals; 
  auto hx = [](int n, char c = 'a') { return std::string("0x") + std::string(n, c); };
  for (int n : {0, 1, 2, 3, 39, 40, 41, 42, 62, 63, 64, 65, 66}) { vals.push_back(pstr(hx(n))); if (n) { std::string s = hx(n); s[2] = '0'; vals.push_back(pstr(s)); s = hx(n); s.back() = 'g'; vals.push_back(pstr(s)); s = hx(n); s[1] = 'X'; vals.push_back(pstr(s)); s[1] = 'a'; vals.push_back(pstr(s)); vals.push_back(pstr("1x" + std::string(n, 'b'))); vals.push_back(pstr(std::string(n + 2, 'c'))); } }
  for (const char* s : {"latest", "safe", "finalized", "earliest", "latest2", "late", "", "0", "12", "12a", "-1", "1.5", "x", "00"}) vals.push_back(pstr(s));
  for (auto& l : LEAVES) vals.push_back(l);
  for (const char* s : {"1", "-1", "1.5", "1e3", "12"}) vals.push_back(leaf('1', s));
  vals.push_back(pcont('[', {})); vals.push_back(pcont('{', {}));
  std::vector<S> prims; for (const char* n : {"bytes32", "address", "bytes", "hexuint", "hex32", "uint", "suint", "bool", "block"}) prims.push_back(prim(n));
  auto check = [&](const P& v, const S& s, bool cached) {
    std::string txt = render(v, 0), def = sch_text(s); Text t(txt), dt(def);
    json_t j = json_parse(t.p);
    const char* e = cached ? json_validate_cached(j, dt.p, "err: ") : json_validate(j, dt.p, "err: "); step();
    bool ok = !e, want = ref_ok(v, s);
    if (ok && !want) violation("schema-violating-value-accepted:" + std::string(s->k == 'p' ? s->name : std::string(1, s->k)), def + " <- " + txt);
    if (!ok && want) violation("conforming-value-rejected:" + std::string(s->k == 'p' ? s->name : std::string(1, s->k)), def + " <- " + txt + " : " + e);
    free((void*) e);
    outcome(hash64(txt + def, ok));
  };
  if (section("schema/primitives")) for (auto& s : prims) for (auto& v : vals) for (int c = 0; c < 2; c++) if (next()) check(v, s, c);
  if (section("schema/composite")) {
    std::vector<P> few = {pstr(hx(64)), pstr(hx(40)), pstr("0x1"), pstr("0x"), pstr("latest"), leaf('n', "null"), leaf('0', "5", "", 5), leaf('t', "true")};
    std::vector<P> objs;
    for (size_t a = 0; a <= few.size(); a++) for (size_t b = 0; b <= few.size(); b++) for (int order = 0; order < 2; order++) {
      std::vector<std::pair<std::string, P>> k;
      if (a < few.size()) k.push_back({"a", few[a]});
      if (b < few.size()) k.push_back({"bb", few[b]});
      if (order) std::reverse(k.begin(), k.end());
      k.push_back({"other", few[0]});
      objs.push_back(pcont('{', k));
    }
    std::vector<P> arrs; arrs.push_back(pcont('[', {}));
    for (auto& a : few) { arrs.push_back(pcont('[', {{"", a}})); for (auto& b : few) { arrs.push_back(pcont('[', {{"", a}, {"", b}})); arrs.push_back(pcont('[', {{"", a}, {"", b}, {"", b}})); } }
    std::vector<S> ps = {prims[0], prims[1], prims[2], prims[3], prims[8], prims[5], prims[7]};
    for (auto& p : ps) for (auto& q : ps) for (int o = 0; o < 4; o++) {
      std::vector<S> defs = {comp('{', {{"a", p}, {"bb", q}}, {(o & 1) != 0, (o & 2) != 0})};
      if (o == 0) { defs.push_back(comp('[', {{"", p}, {"", q}})); }
      if (o == 1) { defs.push_back(comp('[', {{"", p}})); defs.push_back(comp('*', {{"", p}})); }
      for (auto& d : defs) {
        for (auto& v : objs) if (next()) check(v, d, false);
        for (auto& v : arrs) if (next()) check(v, d, false);
      }
    }
    // nesting
    for (auto& p : ps) for (int shape = 0; shape < 4; shape++) for (auto& v : arrs) for (int wrap = 0; wrap < 3; wrap++) if (next()) {
      S inner = comp('[', {{"", p}});
      S d = shape == 0 ? comp('{', {{"l", inner}}) : shape == 1 ? comp('[', {{"", inner}}) : shape == 2 ? comp('*', {{"", inner}}) : comp('{', {{"l", comp('[', {{"", comp('{', {{"m", p}}, {true})}})}}, {true});
      P w = wrap == 0 ? pcont('{', {{"l", v}}) : wrap == 1 ? pcont('[', {{"", v}, {"", v}}) : pcont('{', {{"x", v}, {"l", pcont('[', {{"", pcont('{', {{"m", v->kids.empty() ? v : v->kids[0].second}})}})}});
      check(w, d, false);
    }
  }
  if (section("schema/cache-sequences")) { // the cached validation gives the same verdict in every order of requests
    std::vector<P> v = {pstr("0x1"), pstr("0x01"), pstr(hx(64)), pstr("latest"), leaf('t', "true")};
    std::vector<S> d = {prims[3], prims[0], prims[8]};
    int n = (int) (v.size() * d.size()), D = thorough ? 5 : 4;
    std::vector<int> ix(D, 0);
    while (true) {
      if (next()) for (int i : ix) check(v[i % v.size()], d[i / v.size()], true);
      int p = D - 1; while (p >= 0 && ++ix[p] == n) ix[p--] = 0; if (p < 0) break;
    }
  }
  if (section("schema/cache-long")) { // a document (or definition) that was validated vouches for no other one, wherever they differ
    auto verdict = [&](Text& t, const std::string& def, bool want, const std::string& what) {
      Text dt(def); const char* e = json_validate_cached(json_parse(t.p), dt.p, "err: "); step();
      if (!e && !want) violation("schema-violating-value-accepted:cached-" + what, def.substr(0, 60) + " <- " + std::string(t.p).substr(0, 120));
      if (e && want) violation("conforming-value-rejected:cached-" + what, def.substr(0, 60) + " : " + e);
      outcome(hash64(def + what, !e)); free((void*) e);
    };
    for (int n : {1, 2, 3, 4, 5, 8, 16, 33, 150, thorough ? 4000 : 1000}) {
      std::string txt = "["; for (int i = 0; i < n; i++) { std::string h = hx(64, "0123456789abcdef"[i % 16]); h[3] = "0123456789abcdef"[i / 16 % 16]; txt += (i ? ",\"" : "\"") + h + "\""; } txt += "]";
      size_t st = txt.size() <= 1300 || thorough ? 1 : txt.size() / 97;
      for (size_t at = 0; at < txt.size() + st; at += st) {
        size_t pos = std::min(at, txt.size() - 1);
        if (!isxdigit((unsigned char) txt[pos]) || (pos && txt[pos - 1] == '"') ) continue; // digits of the values only (not the 0 of 0x)
        for (int inplace = 0; inplace < 2; inplace++) if (next()) {
          Text t(txt); verdict(t, "[bytes32]", true, "list");
          std::string bad = txt; bad[pos] = 'g';
          if (inplace) { t.p[pos] = 'g'; verdict(t, "[bytes32]", false, "list-in-place"); t.p[pos] = txt[pos]; verdict(t, "[bytes32]", true, "list-restored"); }
          else { Text u(bad); verdict(u, "[bytes32]", false, "list"); verdict(t, "[bytes32]", true, "list-again"); }
        }
      }
    }
    for (int n : {1, 2, 4, 8, 16, 40, 120}) for (int bad = 0; bad < n; bad++) for (int order = 0; order < 2; order++) if (next()) { // definitions that differ in one field only
      std::string good = "{", other = "{", txt = "{";
      for (int i = 0; i < n; i++) {
        std::string k = "key" + std::to_string(i);
        good += (i ? "," : "") + k + ":bytes32"; other += (i ? "," : "") + k + (i == bad ? ":address" : ":bytes32"); txt += (i ? ",\"" : "\"") + k + "\":\"" + hx(64) + "\"";
      }
      good += "}"; other += "}"; txt += "}"; Text t(txt);
      if (order) verdict(t, other, false, "definition");
      verdict(t, good, true, "definition"); verdict(t, other, false, "definition"); verdict(t, good, true, "definition");
    }
  }
  finish();
}
