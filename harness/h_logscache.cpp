// The cache of event logs of /repo: every history of added blocks x every range x filters. What it serves is exactly what an
// honest node answers, and it serves exactly the contiguous blocks it was given.
#include "prv.hpp"
extern "C" {
#include "logs_cache.h"
}
using namespace prv;
static Sim& S_() { static Sim s = make_sim(0, 1, 0, 0, 9, "logscache"); return s; }
static std::string receipts(const Sim& s, size_t i) { std::string r; for (size_t k = 0; k < s.b[i].r.txs.size(); k++) r += (k ? "," : "") + s.jreceipt(i, k); return "[" + r + "]"; }
static Bytes bloom(const Sim& s, size_t i) { // yellow paper, of all logs of the block
  Bytes r(256);
  auto  put = [&](const Bytes& x) { Bytes h = keccak(x); for (int k = 0; k < 6; k += 2) { int bit = (h[k] << 8 | h[k + 1]) & 2047; r[255 - bit / 8] |= 1 << bit % 8; } };
  for (auto& x : s.b[i].r.rcs) for (auto& l : x.logs) { put(l.addr); for (auto& t : l.topics) put(t); }
  return r;
}
static const std::string& rtext(size_t i) { static std::map<size_t, std::string> m; auto it = m.find(i); if (it == m.end()) it = m.emplace(i, receipts(S_(), i)).first; return it->second; }
static void add(size_t i) { static std::map<size_t, Bytes> bl; if (!bl.count(i)) bl[i] = bloom(S_(), i); c4_eth_logs_cache_add_block(S_().b[i].x().blk.number, bl[i].data(), json_parse((char*) rtext(i).c_str())); }
static Net& net() { // the receipts of a block are asked for again and again
  static Net n = [](const Req& q) -> std::optional<Answer> {
    static std::map<std::string, std::optional<Answer>> m;
    std::string k = q.url + "|" + q.payload;
    auto it = m.find(k); if (it == m.end()) it = m.emplace(k, S_().answer(q)).first;
    return it->second; };
  return n;
}
struct Model {
  uint32_t limit; std::vector<size_t> kept;
  void add(size_t i) {
    for (auto k : kept) if (k == i) return;
    if (kept.size() && kept.back() + 1 != i) kept.clear();
    kept.push_back(i);
    if (kept.size() > limit) kept.erase(kept.begin());
  }
  bool has(size_t a, size_t b) const { return a <= b && kept.size() && kept[0] <= a && kept.back() >= b; }
};
// asks the cache; the loop of a host
static bool scan(const std::string& filter, bool& served, std::string& out, std::string& err, const std::function<void(int)>& between = nullptr) {
  Run x("eth_getLogs", "[" + filter + "]", *S_().ch, 0, {});
  for (int round = 0; round < 20; round++) {
    json_t logs = {}; served = false;
    mc::step();
    c4_status_t s = c4_eth_logs_cache_scan(x.ctx, json_at(x.ctx->params, 0), &logs, &served);
    if (s == C4_ERROR) { err = x.ctx->state.error ? x.ctx->state.error : "error"; return false; }
    if (s == C4_SUCCESS) { if (served) { out = std::string(logs.start, logs.len); served = true; json_t l2 = {}; bool sv = false; if (c4_eth_logs_cache_scan(x.ctx, json_at(x.ctx->params, 0), &l2, &sv) != C4_SUCCESS || !sv || std::string(l2.start, l2.len) != out) err = "the second look differs"; } return err.empty(); }
    for (data_request_t* q = x.ctx->state.requests; q; q = q->next) if (c4_state_is_pending(q)) { if (!pick_node(q)) continue; auto an = net()(req_of(q)); respond(q, an ? *an : Answer{false, {}, "none"}); }
    if (between) between(round);
  }
  err = "does not end";
  return false;
}
static void ask_cache(const std::string& filter, int expect, const std::string& what, const std::string& det, const std::function<void(int)>& between = nullptr) {
  bool served = false; std::string out, err;
  bool ok = scan(filter, served, out, err, between);
  outcome(hash64(ok ? served ? "served" : "not served" : err_sig(err), hash64(cur_section)));
  if (!ok) { violation(what + ":error:" + err_sig(err), filter.substr(0, 300) + " " + det + " " + err); return; }
  if (expect >= 0 && served != (expect == 1)) violation(what + (served ? ":served-unknown-range" : ":known-range-not-served"), filter.substr(0, 300) + " " + det);
  if (!served) return;
  auto h = S_().logs(filter);
  if (out != S_().jlogs(h)) {
    auto got = jarr(out);
    std::multiset<std::string> a(got.begin(), got.end()), b; for (auto& x : jarr(S_().jlogs(h))) b.insert(x);
    violation(what + (a == b ? ":order" : got.size() < h.size() ? ":missing-logs" : ":wrong-logs"), filter.substr(0, 300) + " " + det + " got " + I(got.size()) + " instead of " + I(h.size()));
  }
}
static std::string range(size_t a, size_t b) { return "\"fromBlock\":" + refs(S_(), a)[0] + ",\"toBlock\":" + refs(S_(), b)[0]; }
// filters over the addresses and topics of a range
static std::vector<std::string> conditions(size_t a, size_t b, bool few) {
  auto& s = S_();
  std::vector<std::string> r = {""};
  auto all = s.logs("{" + range(a, b) + "}");
  std::set<Bytes> ads; std::vector<std::set<Bytes>> tps(4);
  for (auto& h : all) { auto& l = s.b[h.bi].r.rcs[h.ti].logs[h.li]; ads.insert(l.addr); for (size_t t = 0; t < l.topics.size(); t++) tps[t].insert(l.topics[t]); }
  auto lst = [](std::vector<Bytes> v) { std::string o; for (auto& x : v) o += (o.empty() ? "" : ",") + qs(hx(x)); return "[" + o + "]"; };
  auto many = [&](const Bytes& x, int n, size_t w) { std::vector<Bytes> v; for (int i = 0; i < n - 1; i++) v.push_back(Bytes(w, (uint8_t) (0xa0 + i))); v.push_back(x); return lst(v); };
  if (ads.empty()) return r;
  Bytes A = *ads.begin(), Z = *ads.rbegin();
  if (few) { r.push_back(",\"address\":" + qs(hx(A))); r.push_back(",\"address\":" + many(Z, 17, 20)); return r; }
  for (auto& x : ads) r.push_back(",\"address\":" + qs(hx(x)));
  r.push_back(",\"address\":[]"); r.push_back(",\"address\":null"); r.push_back(",\"topics\":[]"); r.push_back(",\"topics\":null");
  r.push_back(",\"address\":" + lst({A, Z}));
  r.push_back(",\"address\":" + qs(hx(Bytes(20, 1))));
  for (int n : {2, 4, 8, 15, 16, 17, 40}) { r.push_back(",\"address\":" + many(A, n, 20)); r.push_back(",\"address\":" + many(Z, n, 20)); }
  for (size_t t = 0; t < 4; t++) {
    std::string nul; for (size_t k = 0; k < t; k++) nul += "null,";
    for (auto& x : tps[t]) {
      r.push_back(",\"topics\":[" + nul + qs(hx(x)) + "]");
      r.push_back(",\"topics\":[" + nul + lst({x}) + "]");
      for (int n : {2, 4, 16, 17}) r.push_back(",\"topics\":[" + nul + many(x, n, 32) + "]");
      for (auto& a2 : ads) r.push_back(",\"address\":" + qs(hx(a2)) + ",\"topics\":[" + nul + qs(hx(x)) + "]");
      r.push_back(",\"address\":" + many(A, 4, 20) + ",\"topics\":[" + nul + many(x, 4, 32) + "]");
      r.push_back(",\"address\":" + many(Z, 4, 20) + ",\"topics\":[" + nul + many(x, 5, 32) + "]");
      if (t < 3) for (auto& y : tps[t + 1]) { r.push_back(",\"topics\":[" + nul + qs(hx(x)) + "," + qs(hx(y)) + "]"); r.push_back(",\"address\":" + lst({A, Z}) + ",\"topics\":[" + nul + many(x, 2, 32) + "," + many(y, 4, 32) + "]"); }
    }
    r.push_back(",\"topics\":[" + nul + qs(hx(tag32("none"))) + "]");
  }
  return r;
}
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store(5);
  const int N = thorough ? 6 : 5, D = thorough ? 6 : 5;
  // every history of up to D added blocks out of N, every limit, every range
  for (uint32_t limit = 1; limit <= 4; limit++)
    for (int d = 1; d <= D; d++) {
      if (!section("history")) continue;
      uint64_t total = 1; for (int i = 0; i < d; i++) total *= N;
      for (uint64_t h = 0; h < total; h++) {
        // the last block decides whether a shorter history showed the same
        if (!next()) continue;
        c4_eth_logs_cache_disable(); c4_eth_logs_cache_enable(limit);
        Model m{limit};
        std::string hist = "limit " + I(limit) + " added";
        uint64_t x = h;
        for (int i = 0; i < d; i++) { size_t b = 1 + x % N; x /= N; add(b); m.add(b); hist += " " + I(b); }
        uint64_t blocks = 0; c4_eth_logs_cache_stats(&blocks, nullptr, nullptr);
        if (blocks != m.kept.size()) violation("history:count", hist + " holds " + I(blocks) + " instead of " + I(m.kept.size()));
        if (c4_eth_logs_cache_first_block() != S_().b[m.kept[0]].x().blk.number) violation("history:first-block", hist);
        if (c4_eth_logs_cache_last_block() != S_().b[m.kept.back()].x().blk.number) violation("history:last-block", hist);
        for (size_t a = 1; a <= (size_t) N; a++)
          for (size_t b = a; b <= (size_t) N; b++) {
            if (c4_eth_logs_cache_has_range(S_().b[a].x().blk.number, S_().b[b].x().blk.number) != m.has(a, b)) violation("history:has-range", hist + " range " + I(a) + "-" + I(b));
            auto cs = conditions(a, b, true);
            for (size_t k = 0; k < cs.size(); k++) { if (k && !m.has(a, b)) continue; ask_cache("{" + range(a, b) + cs[k] + "}", m.has(a, b), "history", hist); }
          }
      }
    }
  // every filter over every range, in a cache that has rotated
  for (uint32_t limit : {3u, 8u})
    for (size_t a = 1; a <= 8; a++)
      for (size_t b = a; b <= 8; b++) {
        if (b - a >= limit || (limit == 3 && a < 6)) continue;
        if (!section("filter")) continue;
        auto cs = conditions(a, b, false);
        for (auto& f : cs) {
          if (!next()) continue;
          c4_eth_logs_cache_disable(); c4_eth_logs_cache_enable(limit);
          for (size_t i = 1; i <= 8; i++) add(i);
          ask_cache("{" + range(a, b) + f + "}", 1, "filter", "limit " + I(limit));
        }
      }
  // a block given by its hash
  if (section("block-hash"))
    for (uint32_t limit : {1u, 3u, 8u})
      for (size_t i = 1; i <= 8; i++)
        for (int cond = 0; cond < 3; cond++) {
          if (!next()) continue;
          c4_eth_logs_cache_disable(); c4_eth_logs_cache_enable(limit);
          for (size_t k = 1; k <= 8; k++) add(k);
          auto cs = conditions(i, i, true);
          ask_cache("{\"blockHash\":" + refs(S_(), i)[1] + cs[cond % cs.size()] + "}", -1, "block-hash", "block " + I(i));
        }
  // blocks arrive or the cache is dropped while a question waits for receipts
  if (section("while"))
    for (uint32_t limit : {2u, 3u, 4u})
      for (size_t a = 1; a <= 4; a++)
        for (size_t b = a; b <= 4; b++)
          for (int ev = 0; ev < 5; ev++)
            for (int cond = 0; cond < 3; cond++) {
              if (!next()) continue;
              c4_eth_logs_cache_disable(); c4_eth_logs_cache_enable(limit);
              for (size_t k = 1; k <= 4; k++) add(k);
              auto cs = conditions(a, b, true);
              ask_cache("{" + range(a, b) + cs[cond % cs.size()] + "}", -1, "while", "event " + I(ev) + " limit " + I(limit), [&](int r) {
                if (r) return;
                switch (ev) { case 0: add(5); break; case 1: add(4); break; case 2: c4_eth_logs_cache_disable(); break; case 3: add(8); break; case 4: for (size_t k = 5; k < 9; k++) add(k); break; }
              });
            }
  // questions to the prover with a cache: the proof and the answer are as without it
  for (size_t a = 1; a <= 6; a++)
    for (size_t b = a; b <= 6; b++) {
      if (!section("prover")) continue;
      auto cs = conditions(a, b, !thorough);
      for (uint32_t limit : {2u, 6u})
        for (auto& f : cs) {
          if (!next()) continue;
          clear_caches();
          c4_eth_logs_cache_disable(); c4_eth_logs_cache_enable(limit);
          for (size_t i = 1; i <= 6; i++) add(i);
          Ask q = logs_ask(S_(), "{" + range(a, b) + f + "}");
          ask(S_(), q, client(S_(), 0, S_().period(1)), 0, !q.any, "prover", "limit " + I(limit));
        }
    }
  c4_eth_logs_cache_disable();
  finish();
}
