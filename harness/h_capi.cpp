// The C API of /repo (bindings/colibri.c) as a host sees it: the status texts, the requests they list, the answers a host
// hands over. Every conversation of the representative questions, also partly answered, failing, abandoned.
#include "reps.hpp"
extern "C" {
#include "../bindings/colibri.h"
}
using namespace prv;
// ---- a strict JSON reader (RFC 8259); returns the raw text of every value
struct J {
  char t = 0; std::string raw, str; std::vector<std::string> k; std::vector<J> a; // members: names and values
  const J* get(const std::string& n) const { for (size_t i = 0; i < k.size(); i++) if (k[i] == n) return &a[i]; return nullptr; }
};
struct JP {
  const std::string& s; size_t i = 0; bool bad = false;
  void ws() { while (i < s.size() && strchr(" \t\r\n", s[i]) && s[i]) i++; }
  std::string str() {
    std::string r;
    if (s[i] != '"') { bad = true; return r; }
    i++;
    while (i < s.size() && s[i] != '"') {
      unsigned char c = s[i];
      if (c < 0x20) { bad = true; return r; }
      if (c == '\\') {
        i++;
        if (i >= s.size()) { bad = true; return r; }
        switch (s[i]) {
          case '"': case '\\': case '/': r += s[i]; break;
          case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 't': r += '\t'; break;
          case 'u': { if (i + 4 >= s.size()) { bad = true; return r; } int v = 0; for (int k = 1; k < 5; k++) { if (!isxdigit((unsigned char) s[i + k])) { bad = true; return r; } v = v * 16 + (isdigit((unsigned char) s[i + k]) ? s[i + k] - '0' : (s[i + k] | 32) - 'a' + 10); } i += 4; if (v < 0x80) r += (char) v; else if (v < 0x800) { r += (char) (0xc0 | v >> 6); r += (char) (0x80 | (v & 63)); } else { r += (char) (0xe0 | v >> 12); r += (char) (0x80 | (v >> 6 & 63)); r += (char) (0x80 | (v & 63)); } break; }
          default: bad = true; return r;
        }
        i++; continue;
      }
      r += (char) c; i++;
    }
    if (i >= s.size()) { bad = true; return r; }
    i++;
    return r;
  }
  J val(int depth = 0) {
    J j; ws();
    if (bad || i >= s.size() || depth > 60) { bad = true; return j; }
    size_t a = i;
    char c = s[i];
    if (c == '{') {
      j.t = '{'; i++; ws();
      if (i < s.size() && s[i] == '}') i++;
      else for (;;) { ws(); std::string k = i < s.size() ? str() : (bad = true, ""); ws(); if (bad || i >= s.size() || s[i] != ':') { bad = true; return j; } i++; j.k.push_back(k); { J x = val(depth + 1); j.a.push_back(x); } ws(); if (bad || i >= s.size()) { bad = true; return j; } if (s[i] == '}') { i++; break; } if (s[i] != ',') { bad = true; return j; } i++; }
    }
    else if (c == '[') {
      j.t = '['; i++; ws();
      if (i < s.size() && s[i] == ']') i++;
      else for (;;) { { J x = val(depth + 1); j.a.push_back(x); } ws(); if (bad || i >= s.size()) { bad = true; return j; } if (s[i] == ']') { i++; break; } if (s[i] != ',') { bad = true; return j; } i++; }
    }
    else if (c == '"') { j.t = '"'; j.str = str(); }
    else if (s.compare(i, 4, "true") == 0 || s.compare(i, 4, "null") == 0) { j.t = 'l'; i += 4; }
    else if (s.compare(i, 5, "false") == 0) { j.t = 'l'; i += 5; }
    else {
      j.t = '0';
      if (s[i] == '-') i++;
      if (i >= s.size() || !isdigit((unsigned char) s[i])) { bad = true; return j; }
      if (s[i] == '0') i++; else while (i < s.size() && isdigit((unsigned char) s[i])) i++;
      if (i < s.size() && s[i] == '.') { i++; if (i >= s.size() || !isdigit((unsigned char) s[i])) { bad = true; return j; } while (i < s.size() && isdigit((unsigned char) s[i])) i++; }
      if (i < s.size() && (s[i] | 32) == 'e') { i++; if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++; if (i >= s.size() || !isdigit((unsigned char) s[i])) { bad = true; return j; } while (i < s.size() && isdigit((unsigned char) s[i])) i++; }
    }
    j.raw = s.substr(a, i - a);
    return j;
  }
};
static bool parse(const std::string& s, J& j) { JP p{s}; j = p.val(); p.ws(); return !p.bad && p.i == s.size(); }
// ---- a host
struct Rq { uint64_t ptr; std::string url, payload, type, enc, method; uint64_t chain, mask; };
struct St { std::string status, error, result; uint64_t len = 0; std::vector<Rq> rq; };
static const char* TY[] = {"beacon_api", "eth_rpc", "rest_api", "internal", "prover", "checkpointz"};
static std::string type_name(int t) { switch (t) { case C4_DATA_TYPE_BEACON_API: return "beacon_api"; case C4_DATA_TYPE_ETH_RPC: return "eth_rpc"; case C4_DATA_TYPE_REST_API: return "rest_api"; case C4_DATA_TYPE_INTERN: return "internal"; case C4_DATA_TYPE_PROVER: return "prover"; case C4_DATA_TYPE_CHECKPOINTZ: return "checkpointz"; } return "?"; }
static uint64_t num(const J* j) { if (!j) return ~0ull; std::string s = j->t == '"' ? j->str : j->raw; return strtoull(s.c_str(), nullptr, 0); }
struct Host {
  bool  prover;
  void* ctx = nullptr;
  std::string what;
  St    st;
  bool  broken = false;
  c4_state_t* state() { return prover ? &((prover_ctx_t*) ctx)->state : &((verify_ctx_t*) ctx)->state; } // the first member of the verifying context
  Host(const std::string& m, const std::string& p, const Chain& ch, uint32_t flags, const Bytes& cstate, const std::string& w) : prover(true), what(w) {
    char *a = strdup(m.c_str()), *b = strdup(p.c_str());
    { leak::Guard g; ctx = c4_create_prover_ctx(a, b, ch.cid(), flags); }
    free(a); free(b);
    if (cstate.size()) { leak::Guard g; auto c = (prover_ctx_t*) ctx; c->client_state = bytes((uint8_t*) malloc(cstate.size()), (uint32_t) cstate.size()); memcpy(c->client_state.data, cstate.data(), cstate.size()); }
  }
  Host(const Bytes& proof, const char* m, const char* p, uint64_t chain, const char* cp, const std::string& w) : prover(false), what(w) {
    char *a = m ? strdup(m) : nullptr, *b = p ? strdup(p) : nullptr, *c = cp ? strdup(cp) : nullptr; // what a host passes is its own again after the call
    uint8_t* d = (uint8_t*) malloc(proof.size() + !proof.size()); if (proof.size()) memcpy(d, proof.data(), proof.size());
    { leak::Guard g; ctx = c4_verify_create_ctx(bytes(d, (uint32_t) proof.size()), a, b, chain, c); }
    free(a); free(b); free(c); free(d);
  }
  ~Host() { leak::Guard g; if (prover) c4_free_prover_ctx(ctx); else c4_verify_free_ctx(ctx); }
  // one step; the text is complete and true
  bool step() {
    mc::step();
    char* t;
    { leak::Guard g; t = prover ? c4_prover_execute_json_status(ctx) : c4_verify_execute_json_status(ctx); }
    if (!t) { violation("api:no-status", what); broken = true; return false; }
    std::string s = t; free(t);
    J j; st = {};
    if (!parse(s, j) || j.t != '{' || !j.get("status")) { violation("api:invalid-json", what + " " + s.substr(0, 600)); broken = true; return false; }
    st.status = j.get("status")->str;
    c4_state_t* cs = state();
    if (st.status == "error") {
      auto e = j.get("error");
      if (!e || e->t != '"') { violation("api:error-without-text", what + " " + s.substr(0, 300)); broken = true; return false; }
      st.error = e->str;
      if (st.error.empty() && !cs->error) violation("api:empty-error", what + " " + s.substr(0, 300));
      if (cs->error && st.error != cs->error) violation("api:other-error-text", what + " " + jstr(st.error).substr(0, 200) + " instead of " + jstr(cs->error).substr(0, 200));
    }
    else if (st.status == "success") {
      auto r = j.get("result");
      if (!r) { violation("api:success-without-result", what + " " + s.substr(0, 300)); broken = true; return false; }
      st.result = prover ? r->str : r->raw;
      if (prover) {
        bytes_t p = c4_prover_get_proof(ctx);
        st.len = num(j.get("result_len"));
        if (st.len != p.len || !p.len || num(r) != (uint64_t) (uintptr_t) p.data) violation("api:result-is-not-the-proof", what + " " + s.substr(0, 300));
      }
    }
    else if (st.status == "pending") {
      auto r = j.get("requests");
      if (!r || r->t != '[') { violation("api:pending-without-requests", what + " " + s.substr(0, 300)); broken = true; return false; }
      std::set<uint64_t> seen;
      for (auto& x : r->a) {
        for (auto k : {"req_ptr", "chain_id", "encoding", "exclude_mask", "method", "url", "type"}) if (!x.get(k)) { violation(std::string("api:request-without-") + k, what + " " + x.raw.substr(0, 300)); broken = true; return false; }
        Rq q{num(x.get("req_ptr")), x.get("url")->str, x.get("payload") ? x.get("payload")->raw : "", x.get("type")->str, x.get("encoding")->str, x.get("method")->str, num(x.get("chain_id")), num(x.get("exclude_mask"))};
        if (!seen.insert(q.ptr).second) violation("api:request-twice", what + " " + x.raw.substr(0, 300));
        data_request_t* d = nullptr;
        for (data_request_t* y = cs->requests; y; y = y->next) if ((uint64_t) (uintptr_t) y == q.ptr) d = y;
        if (!d) { violation("api:unknown-request", what + " " + x.raw.substr(0, 300)); broken = true; return false; }
        if (!c4_state_is_pending(d)) violation("api:answered-request-listed", what + " " + x.raw.substr(0, 300));
        std::string du = d->url ? d->url : "", dp((char*) d->payload.data, d->payload.len), dm = d->method == C4_DATA_METHOD_GET ? "get" : d->method == C4_DATA_METHOD_POST ? "post" : d->method == C4_DATA_METHOD_PUT ? "put" : "delete";
        J pj; if (dp.size() && (!parse(dp, pj) || pj.raw != q.payload)) violation("api:payload", what + " " + x.raw.substr(0, 300));
        if (dp.empty() && q.payload.size()) violation("api:payload", what + " " + x.raw.substr(0, 300));
        if (q.url != du) { if (d->url || (q.url.size() && q.url != "(null)")) violation("api:url", what + " " + q.url.substr(0, 200) + " instead of " + du.substr(0, 200)); }
        if (q.type != type_name(d->type)) violation("api:type", what + " " + q.type + " instead of " + type_name(d->type));
        if (q.enc != (d->encoding == C4_DATA_ENCODING_SSZ ? "ssz" : "json")) violation("api:encoding", what + " " + q.enc);
        if (q.method != dm) violation("api:method", what + " " + q.method + " instead of " + dm);
        if (q.chain != d->chain_id) violation("api:chain", what + " " + I(q.chain));
        if (q.mask != d->node_exclude_mask) violation("api:exclude-mask", what + " " + I(q.mask) + " instead of " + I(d->node_exclude_mask));
        st.rq.push_back(q);
      }
      size_t n = 0; for (data_request_t* y = cs->requests; y; y = y->next) if (c4_state_is_pending(y)) n++;
      if (n != seen.size()) violation("api:request-missing", what + " lists " + I(seen.size()) + " of " + I(n));
      if (!n && !broken) { violation("api:waits-for-nothing", what); broken = true; return false; }
    }
    else { violation("api:unknown-status", what + " " + s.substr(0, 300)); broken = true; return false; }
    outcome(hash64(st.status + (st.status == "error" ? err_sig(st.error) : st.status == "pending" ? I(st.rq.size()) : ""), hash64(cur_section)));
    return true;
  }
  static Req req(const Rq& q) { Req r{q.url, q.payload, 0, q.enc == "ssz" ? C4_DATA_ENCODING_SSZ : C4_DATA_ENCODING_JSON, q.chain}; for (int t = 0; t < 8; t++) if (type_name(t) == q.type) r.type = t; return r; }
  // hands over an answer in memory of exactly its size, which is gone afterwards
  void respond(const Rq& q, const Answer& a, int nd) {
    if (a.ok) {
      uint8_t* d = (uint8_t*) malloc(a.data.size() + !a.data.size()); if (a.data.size()) memcpy(d, a.data.data(), a.data.size());
      { leak::Guard g; c4_req_set_response((void*) (uintptr_t) q.ptr, bytes(d, (uint32_t) a.data.size()), (uint16_t) nd); }
      memset(d, 0xee, a.data.size()); free(d);
    }
    else { char* e = strdup(a.err.c_str()); { leak::Guard g; c4_req_set_error((void*) (uintptr_t) q.ptr, e, (uint16_t) nd); } memset(e, 'x', a.err.size()); free(e); }
  }
  bool answer(const Rq& q, const Net& net) {
    for (node = 0; node < 3; node++) if (!(q.mask >> node & 1)) break;
    if (node == 3) { respond(q, {false, {}, "no more nodes"}, 0); return true; }
    auto an = net(req(q));
    respond(q, an ? *an : Answer{false, {}, "no node answers"}, node);
    return true;
  }
  // the whole conversation
  St run(const Net& net, int rounds = 60) {
    while (step() && st.status == "pending") {
      if (!rounds--) { violation("api:does-not-end", what); broken = true; break; }
      for (auto& q : st.rq) answer(q, net);
    }
    return st;
  }
};
static std::string nospace(const std::string& s) { return nows(s); }
static Bytes proof_of(Host& h) { bytes_t p = c4_prover_get_proof(h.ctx); return Bytes(p.data, p.data + p.len); }
static std::vector<std::string> messages() {
  std::vector<std::string> m = {"timeout", "", " ", "\"", "\\", "\\\"", "a \"quoted\" word", "line\nline", "tab\there", "\r\n", "{\"error\":{\"code\":-32000,\"message\":\"x\"}}", "100%", "%s%s%n%d", "%x", "caf\xc3\xa9 \xe2\x82\xac \xf0\x9f\x98\x80", "C:\\path\\new", "'", "</script>", "\x7f", "\\u0041", "\b\f", std::string(5000, 'e'), std::string(5000, '"')};
  for (int c = 1; c < 32; c++) m.push_back(std::string("control ") + (char) c + " character");
  return m;
}
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store(5);
  leak::install();
  // runs a case and counts what it leaves behind
  auto counted = [&](const std::string& det, const std::function<void()>& f) {
    auto once = [&] { clear_caches(); leak::reset(); f(); clear_caches(); reset_store(); return leak::live; };
    size_t n = once(); if (n) n = once();
    if (n) { leak::traces = true; once(); auto st = leak::sites(); leak::traces = false; std::sort(st.begin(), st.end()); if (st.size()) violation("api:leak:" + st[0].substr(0, 120), I(st.size()) + " allocations left by " + det); }
    leak::reset();
  };
  // ---- honest conversations: proof and answer are those of the inner interface
  for (size_t ri = 0; ri < NREP; ri++) {
    if (!section("honest")) continue;
    auto& rep = reps()[ri];
    Net   net = rep.s->net();
    for (int rev = 0; rev < 2; rev++) {
      if (!next()) continue;
      clear_caches();
      Pr base = prove(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state, net);
      counted(rep.a.name(), [&] {
        Host h(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state, "proving " + rep.a.name());
        if (rev) { int n = 99; while (h.step() && h.st.status == "pending" && n--) { auto l = h.st.rq; std::reverse(l.begin(), l.end()); for (auto& q : l) h.answer(q, net); } }
        else h.run(net);
        if (h.broken) return;
        if (h.st.status != "success") { violation("honest:no-proof:" + rep.name, rep.a.name() + " " + h.st.error); return; }
        if (proof_of(h) != base.proof) violation("honest:other-proof:" + rep.name, rep.a.name());
        rep.c.store();
        auto keep = store;
        Res z = verify(base.proof, rep.a.method.c_str(), rep.a.params, *rep.s->ch, net);
        store = keep;
        Host w(base.proof, rep.a.method.c_str(), rep.a.params.c_str(), rep.s->ch->id, rev ? "" : nullptr, "verifying " + rep.a.name());
        w.run(net);
        if (w.broken) return;
        if ((w.st.status == "success") != z.accepted) violation("honest:other-verdict:" + rep.name, rep.a.name() + " " + w.st.status + " " + w.st.error + " / " + z.error);
        else if (z.accepted && nospace(w.st.result) != (z.json.empty() ? "null" : nospace(z.json))) violation("honest:other-answer:" + rep.name, rep.a.name() + " " + w.st.result.substr(0, 200) + " / " + z.json.substr(0, 200));
      });
    }
  }
  // ---- a client that fetches the light client data itself, partly answered rounds, failing and abandoned
  for (int side = 0; side < 2; side++)
    for (size_t ri = 0; ri < NREP; ri++) {
      const char* SEC[] = {"partial/prove", "partial/verify"};
      if (!section(SEC[side])) continue;
      auto& rep = reps()[ri];
      Net   net = rep.s->net();
      Client cl = client(*rep.s, ri % 2 ? 5 : 4, rep.s->period(rep.s->latest()));
      if (side == 1) rep.c.store();
      clear_caches();
      Pr base = prove(rep.a.method, rep.a.params, *rep.s->ch, side ? 0 : rep.c.flags, side ? Bytes() : rep.c.state, net);
      if (!base.ok) { if (next()) violation("partial:no-base:" + rep.name, base.error); continue; }
      auto open = [&]() -> std::unique_ptr<Host> {
        if (side == 0) return std::make_unique<Host>(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state, "proving " + rep.a.name());
        cl.store();
        return std::make_unique<Host>(base.proof, rep.a.method.c_str(), rep.a.params.c_str(), rep.s->ch->id, nullptr, "verifying " + rep.a.name());
      };
      // the honest run: how many requests in which round
      std::vector<size_t> width; St good;
      { clear_caches(); auto h = open(); while (h->step() && h->st.status == "pending" && width.size() < 60) { width.push_back(h->st.rq.size()); for (auto& q : h->st.rq) h->answer(q, net); } good = h->st; if (h->broken) continue; }
      if (good.status != "success" && side == 0 && next()) violation("partial:honest:" + rep.name, good.error);
      auto same = [&](Host& h, const std::string& det) {
        if (h.broken) return;
        if (h.st.status != good.status || (side == 1 && h.st.result != good.result) || (side == 0 && good.status == "success" && proof_of(h) != base.proof)) violation("partial:other-result:" + rep.name, h.what + " " + det + " " + h.st.status + " " + h.st.error);
      };
      for (size_t r = 0; r < width.size(); r++) {
        size_t n = width[r] > 4 ? 4 : width[r];
        for (uint32_t sub = 0; sub < (1u << n); sub++) { // these are answered, asked again, the rest follows
          if (!next()) continue;
          std::string det = "round " + I(r) + " first " + I(sub);
          counted(det + " " + rep.a.name(), [&] {
            auto h = open(); size_t k = 0;
            while (h->step() && h->st.status == "pending" && k < 80) {
              auto l = h->st.rq;
              if (k == r) {
                for (size_t i = 0; i < l.size() && i < n; i++) if (sub >> i & 1) h->answer(l[i], net);
                if (!h->step()) return;
                if (h->st.status == "pending") l = h->st.rq; else break;
              }
              for (auto& q : l) h->answer(q, net);
              k++;
            }
            same(*h, det);
          });
        }
        for (size_t i = 0; i < width[r]; i++) { // one request fails with every message
          auto ms = messages();
          for (size_t mi = 0; mi < ms.size(); mi++) {
            if (!thorough && mi % 5 != (r + i) % 5 && ri) continue;
            if (!next()) continue;
            std::string det = "round " + I(r) + " request " + I(i) + " fails with " + jstr(ms[mi]).substr(0, 40);
            counted(det + " " + rep.a.name(), [&] {
              auto h = open(); size_t k = 0; std::string target; bool hit = false;
              while (h->step() && h->st.status == "pending" && k < 80) {
                for (size_t x = 0; x < h->st.rq.size(); x++) {
                  auto q = h->st.rq[x];
                  if (k == r && x == i) target = q.url + "|" + q.payload;
                  if (target.size() && q.url + "|" + q.payload == target) { int nd = 0; while (q.mask >> nd & 1) nd++; h->respond(q, {false, {}, ms[mi]}, nd); hit = true; }
                  else h->answer(q, net);
                }
                k++;
              }
              if (h->broken) return;
              if (k >= 80) violation("fail:does-not-end", h->what + " " + det);
              if (hit && h->st.status == "success") same(*h, det);
            });
          }
        }
        if (next()) counted("abandoned in round " + I(r) + " " + rep.a.name(), [&] { // abandoned with open and with answered requests
          for (int answered = 0; answered < 3; answered++) {
            auto h = open(); size_t k = 0;
            while (h->step() && h->st.status == "pending") { if (k == r) { for (size_t x = 0; x < h->st.rq.size(); x++) if (answered == 2 || (answered == 1 && x == 0)) h->answer(h->st.rq[x], net); break; } for (auto& q : h->st.rq) h->answer(q, net); k++; }
          }
        });
      }
    }
  // ---- bad answers, in memory of exactly their size
  for (int side = 0; side < 2; side++)
    for (size_t ri = 0; ri < NREP; ri++) {
      if (!section(side ? "bad/verify" : "bad/prove")) continue;
      auto& rep = reps()[ri];
      Net   honest = rep.s->net();
      Client cl = client(*rep.s, ri % 2 ? 5 : 4, rep.s->period(rep.s->latest()));
      clear_caches();
      Pr base = prove(rep.a.method, rep.a.params, *rep.s->ch, side ? 0 : rep.c.flags, side ? Bytes() : rep.c.state, honest);
      std::vector<Req> reqs = base.reqs;
      if (side) { cl.store(); Res z = verify(base.proof, rep.a.method.c_str(), rep.a.params, *rep.s->ch, honest); reqs = z.reqs; }
      std::set<std::string> seen;
      for (auto& q : reqs) {
        if (!seen.insert(key(q)).second) continue;
        auto g = honest(q); if (!g) continue;
        auto bads = bad_answers(q, *g, false);
        for (size_t bi = 0; bi < bads.size(); bi++) {
          if (!thorough && bi > 24 && bi % 11 != ri % 11) continue;
          if (!next()) continue;
          auto& b = bads[bi];
          Net net = [&](const Req& x) -> std::optional<Answer> { if (key(x) == key(q)) return b.a; return honest(x); };
          std::string det = rep.a.name() + " request " + q.url + q.payload + " answered with " + b.name;
          clear_caches();
          if (side == 0) {
            Pr in = prove(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state, net);
            clear_caches();
            Host h(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state, "proving " + det);
            h.run(net);
            if (h.broken) continue;
            if ((h.st.status == "success") != in.ok) violation("bad:other-end:" + rep.name, det + " " + h.st.status + " " + h.st.error + " / " + in.error);
            else if (in.ok && proof_of(h) != in.proof) violation("bad:other-proof:" + rep.name, det);
          }
          else {
            cl.store();
            Res z = verify(base.proof, rep.a.method.c_str(), rep.a.params, *rep.s->ch, net);
            cl.store();
            Host h(base.proof, rep.a.method.c_str(), rep.a.params.c_str(), rep.s->ch->id, nullptr, "verifying " + det);
            h.run(net);
            if (h.broken) continue;
            if ((h.st.status == "success") != z.accepted) violation("bad:other-verdict:" + rep.name, det + " " + h.st.status + " " + h.st.error + " / " + z.error);
          }
        }
      }
    }
  // ---- what a host passes in
  if (section("input/verify")) {
    auto& rep = reps()[0];
    clear_caches();
    Pr base = prove(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state, rep.s->net());
    std::vector<Bytes> proofs = {{}, B({0}), B({0, 0, 1, 0}), base.proof, Bytes(20, 0xff), Bytes(base.proof.begin(), base.proof.begin() + 40)};
    static const char* M[] = {nullptr, "", "eth_getBalance", "eth_chainId", "eth_blockNumber", "eth_sendRawTransaction", "web3_sha3", "eth_accounts", "net_version", "nonsense", "eth_getBalance\"", "web3_clientVersion"};
    static const char* P[] = {nullptr, "", "[]", "[", "null", "{}", "[\"0x68656c6c6f\"]", "rep", "[\"0x", "[\"\\u0041\"]", " [ ] "};
    static const char* K[] = {nullptr, "", "0x", "latest", "0x1111111111111111111111111111111111111111111111111111111111111111", "111111111111111111111111111111111111111111111111111111111111111111", "0xzz11111111111111111111111111111111111111111111111111111111111111", "0x11111111111111111111111111111111111111111111111111111111111111zz", "0x111111111111111111111111111111111111111111111111111111111111111", "0x11111111111111111111111111111111111111111111111111111111111111111"};
    for (size_t pi = 0; pi < proofs.size(); pi++)
      for (auto m : M)
        for (auto p : P)
          for (auto k : K)
            for (uint64_t id : {(uint64_t) 1, (uint64_t) 0, (uint64_t) 137, ~(uint64_t) 0}) {
              if (id != 1 && k) continue;
              if (!next()) continue;
              const char* ps = p && !strcmp(p, "rep") ? rep.a.params.c_str() : p;
              std::string det = std::string("method ") + (m ? m : "NULL") + " args " + (ps ? ps : "NULL") + " checkpoint " + (k ? k : "NULL") + " chain " + I(id) + " proof " + I(pi);
              counted(det, [&] {
                if (k) reset_store(); else rep.c.store(); // a checkpoint matters to a client without a state
                Host h(proofs[pi], m, ps, id, k, "verifying " + det);
                bool cpok = k && strlen(k) == 66 && k[0] == '0' && k[1] == 'x'; if (cpok) for (auto x = k + 2; *x; x++) if (!isxdigit((unsigned char) *x)) cpok = false;
                if (k && k[0] != '1') { // (66 characters without 0x are not specified)
                  auto it = store.find(stkey(*rep.s->ch));
                  if (!cpok && it != store.end()) violation("input:checkpoint-adopted", det + " " + mc::hex(it->second));
                  if (cpok && (it == store.end() || it->second != cat(B({2}), unhex(k + 2)))) violation("input:checkpoint-not-adopted", det);
                }
                h.run([](const Req&) { return std::optional<Answer>(); });
                if (h.broken) return;
                bool local = m && (!strcmp(m, "eth_chainId") || !strcmp(m, "eth_accounts") || !strcmp(m, "net_version") || !strcmp(m, "web3_clientVersion") || (!strcmp(m, "web3_sha3") && ps && strstr(ps, "0x") && ps[strlen(ps) - 1] == ']'));
                bool honest = m && pi == 3 && id == 1 && !k && !strcmp(m, "eth_getBalance") && ps == rep.a.params.c_str();
                if (h.st.status == "success" && !honest && !local) violation("input:answered", det + " " + h.st.result.substr(0, 200));
                if (h.st.status != "success" && honest && !cpok) violation("input:honest-rejected", det + " " + h.st.error);
                if (h.st.status != "success" && local && id == 1 && pi == 0) violation("input:local-rejected", det + " " + h.st.error);
              });
            }
  }
  if (section("input/prove")) {
    static const char* M[] = {"", "eth_getBalance", "eth_chainId", "eth_blockNumber", "eth_sendRawTransaction", "nonsense", "\"", "eth_getLogs", "eth_getBlockByNumber", "a\nb", "eth_getTransactionByHash"};
    static const char* P[] = {"", "[]", "[", "null", "{}", "[\"\\\"\"]", "[\"0x", "[{\"fromBlock\":\"\\\"\"}]", "[\"%s%n\",\"%d\"]", " [ ] "};
    for (auto m : M) for (auto p : P) for (uint64_t id : {(uint64_t) 1, (uint64_t) 0, (uint64_t) 137, (uint64_t) 10, ~(uint64_t) 0}) for (uint32_t fl : {0u, 1u, 8u, 32u, 64u}) {
      if (!next()) continue;
      std::string det = std::string("method ") + m + " params " + p + " chain " + I(id) + " flags " + I(fl);
      Chain ch = chain(0); ch.id = id;
      counted(det, [&] {
        Host h(m, p, ch, fl, {}, "proving " + det);
        h.run([](const Req&) { return std::optional<Answer>(); });
        if (!h.broken && h.st.status == "success") { violation("input:proof-of-nothing", det); }
      });
    }
  }
  if (section("input/free")) if (next()) { c4_free_prover_ctx(nullptr); c4_verify_free_ctx(nullptr); outcome(1); }
  finish();
}
