// Representative questions to the prover, and the ways an answer of a node goes wrong.
#pragma once
#include "prv.hpp"
namespace prv {
// ---- JSON with one place changed. The text is split into values; every value is replaced by each of a list of others
struct Span { size_t a, b; bool member; size_t ka; }; // a value and, for members, where its key starts
static void values(const std::string& s, size_t& i, std::vector<Span>& out, int depth, size_t ka, bool member, bool keep) {
  size_t a = i, me = out.size();
  if (keep) out.push_back({a, a, member, ka});
  if (s[i] == '{' || s[i] == '[') {
    char close = s[i] == '{' ? '}' : ']';
    i++;
    int n = 0;
    while (i < s.size() && s[i] != close) {
      if (s[i] == ',') { i++; continue; }
      size_t k = i; bool mem = close == '}';
      if (mem) { i = s.find('"', i + 1) + 1; i++; } // key and colon
      values(s, i, out, depth + 1, k, mem, keep && (mem || n < 2));
      n++;
    }
    i++;
  }
  else if (s[i] == '"') i = s.find('"', i + 1) + 1;
  else while (i < s.size() && !strchr(",]}", s[i])) i++;
  if (keep) out[me].b = i;
}
static std::vector<std::pair<std::string, std::string>> json_edits(const std::string& s, const std::string& url) {
  static const char* W[] = {"null", "\"0x\"", "\"\"", "[]", "{}", "\"0x1\"", "1", "true", "\"0xffffffffffffffffff\"", "\"0x1111111111111111111111111111111111111111111111111111111111111111\"", "[[]]", "\"0xg\""};
  std::vector<Span> sp; size_t i = 0;
  values(s, i, sp, 0, 0, false, true);
  std::vector<std::pair<std::string, std::string>> r;
  std::set<std::string> hashes; // hashes of the answer and the question change places
  for (auto& x : sp) if (x.b - x.a == 68) hashes.insert(s.substr(x.a, 68));
  if (url.find("0x") != std::string::npos && url.size() >= url.find("0x") + 66) hashes.insert(qs(url.substr(url.find("0x"), 66)));
  if (hashes.size() < 12) for (size_t k = 0; k < sp.size(); k++) if (sp[k].b - sp[k].a == 68) for (auto& h : hashes) if (h != s.substr(sp[k].a, 68)) r.push_back({"value " + I(k) + " = " + h, s.substr(0, sp[k].a) + h + s.substr(sp[k].b)});
  for (size_t k = 0; k < sp.size(); k++) {
    auto& x = sp[k];
    for (auto w : W) if (s.substr(x.a, x.b - x.a) != w) r.push_back({"value " + I(k) + " " + s.substr(x.ka, 24) + " = " + w, s.substr(0, x.a) + w + s.substr(x.b)});
    if (x.member) { size_t e = x.b; bool c = s[e] == ','; r.push_back({"without member " + s.substr(x.ka, 24), s.substr(0, c ? x.ka : (s[x.ka - 1] == ',' ? x.ka - 1 : x.ka)) + s.substr(c ? e + 1 : e)}); }
    if (s[x.a] == '[' && s[x.a + 1] != ']') { // the first element doubled, dropped
      size_t j = x.a + 1; std::vector<Span> t; values(s, j, t, 0, 0, false, false);
      r.push_back({"first element twice " + I(k), s.substr(0, j) + "," + s.substr(x.a + 1)});
      r.push_back({"without first element " + I(k), s.substr(0, x.a + 1) + (s[j] == ',' ? s.substr(j + 1) : s.substr(j))});
    }
    if (s[x.a] == '"' && x.b - x.a > 4) { std::string v = s.substr(x.a, x.b - x.a); v[v.size() - 2] = v[v.size() - 2] == '1' ? '2' : '1'; r.push_back({"last digit of value " + I(k), s.substr(0, x.a) + v + s.substr(x.b)}); v.erase(v.size() - 2, 1); r.push_back({"value " + I(k) + " one digit shorter", s.substr(0, x.a) + v + s.substr(x.b)}); }
  }
  return r;
}
struct Bad { std::string name; Answer a; };
static std::vector<Bad> bad_answers(const Req& q, const Answer& good, bool deep) {
  std::vector<Bad> r;
  auto ok = [&](const std::string& n, const std::string& s) { r.push_back({n, {true, S(s), ""}}); };
  r.push_back({"transport error", {false, {}, "connection refused"}});
  ok("empty", ""); ok("null", "null"); ok("[]", "[]"); ok("{}", "{}"); ok("string", "\"x\""); ok("open", "{"); ok("html", "<html>504</html>"); ok("open string", "{\"a"); ok("a longer object", "{\"message\":\"not found, really\",\"code\":404}"); ok("data null", "{\"data\":null,\"message\":\"12345678901234567890\"}");
  if (q.type == C4_DATA_TYPE_ETH_RPC)
    for (auto e : {"\"error\":{\"code\":-32000,\"message\":\"header not found\"}", "\"error\":{\"code\":-32602,\"message\":\"x\"}", "\"error\":\"rate limit\"", "\"error\":{}", "\"error\":null", "\"result\":null", "\"result\":[]", "\"result\":{}", "\"result\":\"0x\"", "\"result\":1"})
      ok(e, std::string("{\"jsonrpc\":\"2.0\",\"id\":1,") + e + "}");
  std::string t((char*) good.data.data(), good.data.size());
  bool json = good.ok && t.size() && t[0] == '{';
  if (json) {
    for (auto& e : json_edits(t, q.url)) ok(e.first, e.second);
    for (size_t k : {t.size() / 4, t.size() / 2, t.size() - 1}) ok("cut at " + I(k), t.substr(0, k));
  }
  else if (good.ok) {
    size_t n = t.size();
    std::set<size_t> cuts = {1, 4, 8, 11, 12, 15, 16, 20, 99, 100, 107, 108, 112, 180, 181, 196, 200, n / 2, n - 1};
    for (size_t k = 0; k < n && k < 400; k += deep ? 1 : 13) cuts.insert(k);
    for (size_t k : cuts) if (k < n) ok("cut at " + I(k), t.substr(0, k));
    ok("one byte more", t + "x"); ok("twice", t + t); ok("zeros", std::string(n, '\0'));
    for (size_t k = 0; k < n; k += k < 420 ? (deep ? 1 : 4) : n / (deep ? 300 : 60) + 1)
      for (int w : {0xff, 0x01}) { auto e = t; e[k] = (char) (e[k] ^ w); ok("byte " + I(k) + " ^ " + I(w), e); if (!deep) break; }
    for (size_t k = 0; k + 4 <= n && k < 420; k += 4) for (uint32_t w : {0u, 0xffffffffu, (uint32_t) n}) { auto e = t; memcpy(&e[k], &w, 4); ok("word " + I(k) + " = " + I(w), e); if (!deep) break; }
  }
  return r;
}
static const size_t NREP = 22;
struct Rep { std::string name; const Sim* s; Ask a; Client c; };
static const std::vector<Rep>& reps() {
  static std::vector<Rep> r;
  if (r.size()) return r;
  auto add = [&](const Sim& s, const std::string& n, const Ask& a, int cl) { r.push_back({n, &s, a, client(s, cl, s.period(1))}); };
  auto pick = [&](const std::vector<Ask>& l, const std::string& m) -> Ask { for (auto& a : l) if (a.method == m && a.params.size() < 3000 && (m != "eth_getProof" || a.params.find("[]") == std::string::npos)) return a; return l[0]; };
  static Sim s = make_sim(0, 1, 0x008, 0, 9, "fault"); // block 3 has no signature of block 2
  auto N = [&](size_t i) { return refs(s, i)[0]; };
  auto H = [&](size_t i) { return refs(s, i)[1]; };
  add(s, "balance", pick(account_asks(s, 3, N(3), true), "eth_getBalance"), 0);
  add(s, "balance at latest", pick(account_asks(s, s.latest(), "\"latest\"", true), "eth_getBalance"), 1);
  add(s, "code", pick(account_asks(s, 3, H(3), true), "eth_getCode"), 0);
  // which block is safe or finalized is the word of the nodes: an answer about any block of the chain is as good
  auto any = [&](Ask a, std::function<Ask(size_t)> f) { std::vector<Ask> l; for (size_t i = 0; i < s.b.size(); i++) l.push_back(f(i)); auto own = a.check; a.check = [l, own](const Res& z) { for (auto& x : l) if (x.check(z).empty()) return std::string(); return own(z); }; return a; };
  add(s, "proof at safe", any(pick(account_asks(s, s.justified, "\"safe\"", true), "eth_getProof"), [&](size_t i) { return pick(account_asks(s, i, "\"safe\"", true), "eth_getProof"); }), 2);
  add(s, "storage by header chain", pick(account_asks(s, 2, N(2), true), "eth_getStorageAt"), 0);
  add(s, "tx", tx_asks(s, 4, 1, H(4))[0], 0);
  add(s, "tx of a block", tx_asks(s, 2, 1, N(2))[1], 2);
  add(s, "receipt", tx_asks(s, 4, 3, H(4))[2], 0);
  add(s, "block", block_asks(s, 4, N(4))[1], 4);
  add(s, "block by hash", block_asks(s, 6, H(6))[0], 0);
  add(s, "number", block_asks(s, s.latest(), "\"latest\"")[2], 3);
  add(s, "finalized", any(block_asks(s, s.finalized, "\"finalized\"")[0], [&](size_t i) { return block_asks(s, i, "\"finalized\"")[0]; }), 0);
  { std::string f = "{\"fromBlock\":" + N(2) + ",\"toBlock\":" + N(3) + "}"; Ask a = logs_ask(s, f); auto all = s.logs(f);
    // what a server leaves out and the position within the block are not part of what is proven
    a.check = [all](const Res& z) { for (auto& l : jarr(z.json)) { bool ok = false; std::string e; for (auto& h : all) { e = rcp::log_diff(l, s.b[h.bi].r, h.ti, s.b[h.bi].r.rcs[h.ti].logs[h.li]); if (e.empty()) ok = true; } if (!ok) return "untrue log " + l; } return std::string(); };
    add(s, "logs", a, 2); }
  { Ask a{"eth_proof_sync", "[" + I(s.period(1)) + "]", [](const Res&) { return std::string(); }}; add(s, "sync proof", a, 0); }
  add(s, "block by header chain", block_asks(s, 2, N(2))[0], 2);
  add(s, "receipt by header chain", tx_asks(s, 2, 1, H(2))[2], 3);
  add(s, "balance by header chain", pick(account_asks(s, 2, H(2), true), "eth_getCode"), 4);
  { std::string f = "{\"blockHash\":" + H(2) + "}"; Ask a = logs_ask(s, f); add(s, "logs by header chain", a, 3); a = r[12].a; r.back().a.check = a.check; }
  static Sim u = make_sim(0, 0, 0x100, 0, 9, "faultu"); // the head has no signature
  add(u, "number below an unsigned head", block_asks(u, u.latest(), "\"latest\"")[2], 2);
  static Sim h = make_historic(0, 1, 4000);
  Client hc; hc.name = "historic"; hc.flags = F_STORE; hc.state = periods_state({h.period(h.head)}); hc.store = [] { know(*h.ch, {h.period(h.head)}); };
  r.push_back({"historic account", &h, pick(account_asks(h, 2, refs(h, 2)[0], true), "eth_getBalance"), hc});
  r.push_back({"historic block", &h, block_asks(h, 1, refs(h, 1)[0])[0], hc});
  r.push_back({"historic receipt", &h, tx_asks(h, 2, 1, refs(h, 2)[1])[2], hc});
  return r;
}
static std::string key(const Req& q) { return q.url + "|" + q.payload; }
} // namespace prv
