// What provers share: (ops/) every sequence of operations on the cache of /repo against the promises of its interface;
// (pair/) questions answered with what earlier or concurrent questions left in the caches.
#include "prv.hpp"
using namespace prv;
// ---- the cache itself
struct CVal { int key; int ctx; uint64_t dur; uint32_t size; uint64_t until = 0; bool freed = false, global = false, dead = false; int n = 0; };
static std::vector<CVal*> made;
static void val_free(void* p) { auto v = (CVal*) p; v->n++; v->freed = true; }
struct COp { char what; int c, k; uint64_t dur; uint32_t size; };
struct CWorld {
  static const int NC = 3;
  prover_ctx_t*                    ctx[NC] = {};
  std::vector<std::pair<int, CVal*>> held[NC]; // what a context was given or has set: newest last
  std::vector<COp>                  hist;
  std::string bad;
  void fail(const std::string& s) { if (bad.empty()) bad = s; }
  static void key(int k, bytes32_t out) { memset(out, 0, 32); out[0] = 'K'; out[31] = (uint8_t) k; }
  CVal* own(int c, int k) { CVal* r = nullptr; for (auto& h : held[c]) if (h.first == k) r = h.second; return r; }
  bool used(CVal* v) { for (int c = 0; c < NC; c++) if (ctx[c]) for (auto& h : held[c]) if (h.second == v) return true; return false; }
  bool can(const COp& o) {
    if (o.what == 'f') return ctx[o.c];
    if (o.what == 'g') return !own(o.c, o.k); // a second look gives the same
    return true;
  }
  void run(const COp& o) {
    mc::step();
    hist.push_back(o);
    bytes32_t key_; key(o.k, key_);
    if ((o.what == 'g' || o.what == 's' || o.what == 'l') && !ctx[o.c]) ctx[o.c] = c4_prover_create((char*) "m", (char*) "[]", 1, 0);
    switch (o.what) {
      case 'g': {
        CVal* v = (CVal*) c4_prover_cache_get(ctx[o.c], key_);
        if (CVal* h = own(o.c, o.k)) { if (v != h) fail("get:not-stable"); break; } // what it already works with
        if (!v) break;
        bool known = false; for (auto m : made) known = known || m == v;
        if (!known) { fail("get:unknown"); break; }
        if (v->key != o.k) fail("get:wrong-key");
        if (v->freed) fail("get:released-value");
        if (v->dead) fail("get:invalidated-value");
        if (!v->global) fail("get:value-of-an-open-question");
        held[o.c].push_back({o.k, v});
        if (c4_prover_cache_get(ctx[o.c], key_) != v || c4_prover_cache_get_local(ctx[o.c], key_) != v) fail("get:not-stable");
        break;
      }
      case 's': {
        CVal* v = new CVal{o.k, o.c, o.dur, o.size};
        made.push_back(v);
        c4_prover_cache_set(ctx[o.c], key_, v, o.size, o.dur, val_free);
        held[o.c].push_back({o.k, v});
        if (c4_prover_cache_get(ctx[o.c], key_) != v) fail("set:not-returned");
        break;
      }
      case 'f':
        if (!ctx[o.c]) break;
        c4_prover_free(ctx[o.c]); ctx[o.c] = nullptr;
        for (auto& h : held[o.c]) if (!h.second->freed && !h.second->global) {
          h.second->global = true; h.second->until = now_ms + h.second->dur;
          if (!h.second->dur) fail("free:local-value-kept");
        }
        held[o.c].clear();
        break;
      case 'i': for (auto v : made) if (v->key == o.k && v->global) v->dead = true; c4_prover_cache_invalidate(key_); break;
      case 't': now_ms += 5000; break;
      case 'c':
        c4_prover_cache_cleanup(now_ms, 0);
        for (auto v : made) if (v->global && !v->freed && !used(v) && (v->dead || v->until < now_ms)) fail(v->dead ? "cleanup:invalidated-value-kept" : "cleanup:expired-value-kept");
        break;
    }
    uint64_t n = 0, size = 0, e, s, m, cap;
    for (auto v : made) {
      if (v->n > 1) fail("released-twice");
      if (v->freed && used(v)) fail("released-in-use");
      if (v->global && !v->freed) { n++; size += v->size; }
    }
    c4_prover_cache_stats(&e, &s, &m, &cap);
    if (e != n) fail("stats:entries");
    if (s != size) fail("stats:size");
    uint64_t idle = 0; for (auto v : made) if (v->global && !v->freed && !used(v)) idle += v->size;
    if (o.what == 'c' && idle > m) fail("stats:over-limit");
  }
  void end() {
    for (int c = 0; c < NC; c++) if (ctx[c]) { c4_prover_free(ctx[c]); ctx[c] = nullptr; held[c].clear(); }
    now_ms += 1000ull * 3600 * 24 * 400;
    c4_prover_cache_cleanup(now_ms, 0);
    for (auto v : made) { if (v->n != 1) fail(v->n ? "released-twice" : "never-released"); }
    uint64_t e, s, m, cap; c4_prover_cache_stats(&e, &s, &m, &cap);
    if (e || s) fail("end:not-empty");
    for (auto v : made) delete v;
    made.clear();
    if (bad.size()) {
      std::string h; for (auto& o : hist) h += std::string(1, o.what) + "(" + I(o.c) + "," + I(o.k) + "," + I(o.dur) + "," + I(o.size) + ") ";
      violation("cache:" + bad, h);
    }
  }
};
static void play(const std::vector<COp>& seq) { CWorld w; for (auto& o : seq) { w.run(o); if (w.bad.size()) break; } std::string b = w.bad; w.end(); outcome(hash64("played")); if (w.bad.size()) finish(); }
// all sequences of `depth` operations, skipping those which cannot do anything
static void all(const std::string& name, const std::vector<COp>& ops, int depth) {
  if (!section("ops/" + name)) return;
  std::vector<int> ix(depth, 0);
  // enabledness is tracked abstractly: open contexts, and what each of them has under a key it asked for
  struct St { bool open[3] = {}; bool has[3][2] = {}; };
  std::vector<COp> seq;
  std::function<void(St)> rec = [&](St st) {
    if ((int) seq.size() == depth) { if (next()) play(seq); return; }
    for (auto& o : ops) {
      if (o.what == 'f' && !st.open[o.c]) continue;
      if (o.what == 'g' && st.has[o.c][o.k]) continue;
      if (o.what == 'g' && (seq.empty() || (seq.back().what == 'g' && seq.back().c == o.c && seq.back().k == o.k))) continue;
      if ((o.what == 't' || o.what == 'c' || o.what == 'i') && seq.empty()) continue;
      if (seq.size() && o.what == seq.back().what && (o.what == 'i' || o.what == 'c') && o.k == seq.back().k) continue;
      // contexts are alike: a new one is opened only if those before it were
      St n = st;
      if (o.what == 'g' || o.what == 's') { if (o.c && !st.open[o.c] && !st.open[o.c - 1]) continue; n.open[o.c] = true; n.has[o.c][o.k] = o.what == 's' || st.has[o.c][o.k]; }
      if (o.what == 'f') { n.open[o.c] = false; n.has[o.c][0] = n.has[o.c][1] = false; }
      seq.push_back(o); rec(n); seq.pop_back();
    }
  };
  rec(St());
}
// ---- questions that share
struct Q { std::string name; std::function<Ask(const Sim&)> ask; };
static std::vector<Q> questions() {
  std::vector<Q> r;
  auto first = [](std::vector<Ask> l, const std::string& m, int n = 0) -> Ask { for (auto& a : l) if (a.method == m && (m != "eth_getProof" || a.params.find("[]") == std::string::npos) && n-- == 0) return a; return l[0]; };
  for (int b : {2, 3, 4})
    for (int ref = 0; ref < 2; ref++) {
      if (b != 3) r.push_back({"balance", [=](const Sim& s) { return first(account_asks(s, b, refs(s, b)[ref], true), ref ? "eth_getStorageAt" : "eth_getBalance"); }});
      r.push_back({"block", [=](const Sim& s) { return block_asks(s, b, refs(s, b)[ref])[ref]; }});
      if (b != 3) r.push_back({"tx by index", [=](const Sim& s) { return tx_asks(s, b, 0, refs(s, b)[ref])[1]; }});
    }
  for (int b : {2, 4}) for (int t : {0, 2}) {
    r.push_back({"receipt", [=](const Sim& s) { return tx_asks(s, b, t, refs(s, b)[1])[2]; }});
    if (t) r.push_back({"tx", [=](const Sim& s) { return tx_asks(s, b, t, refs(s, b)[1])[0]; }});
  }
  for (int k = 0; k < 5; k++) r.push_back({"logs", [=](const Sim& s) {
    std::string from = refs(s, k == 2 ? 4 : 2)[0], to = refs(s, k == 1 ? 2 : 4)[0];
    if (k == 4) return logs_ask(s, "{\"blockHash\":" + refs(s, 4)[1] + "}");
    auto h = s.logs("{\"fromBlock\":" + from + ",\"toBlock\":" + to + "}");
    std::string ad = k == 3 && h.size() ? ",\"address\":" + qs(hx(s.b[h.back().bi].r.rcs[h.back().ti].logs[h.back().li].addr)) : "";
    return logs_ask(s, "{\"fromBlock\":" + from + ",\"toBlock\":" + to + ad + "}"); }});
  // tags: the block may be any which the tag meant since the first question
  auto tagged = [&](const std::string& tag, std::function<Ask(const Sim&, size_t)> f, std::function<size_t(const Sim&)> at) {
    r.push_back({"tag " + tag, [=](const Sim& s) {
      Ask a = f(s, at(s)); std::vector<Ask> l; for (size_t i = tag == "latest" ? 4 : 1; i <= at(s); i++) l.push_back(f(s, i));
      a.block = at(s);
      a.check = [l](const Res& z) { std::string e; for (auto& x : l) { e = x.check(z); if (e.empty()) return e; } return e; };
      return a; }});
  };
  auto lat = [](const Sim& s) { return s.latest(); };
  tagged("latest", [=](const Sim& s, size_t i) { return block_asks(s, i, "\"latest\"")[1]; }, lat);
  tagged("latest", [=](const Sim& s, size_t i) { return block_asks(s, i, "\"latest\"")[2]; }, lat);
  tagged("latest", [=](const Sim& s, size_t i) { return first(account_asks(s, i, "\"latest\"", true), "eth_getProof"); }, lat);
  tagged("safe", [=](const Sim& s, size_t i) { return block_asks(s, i, "\"safe\"")[0]; }, [](const Sim& s) { return s.justified; });
  tagged("finalized", [=](const Sim& s, size_t i) { return block_asks(s, i, "\"finalized\"")[0]; }, [](const Sim& s) { return s.finalized; });
  tagged("finalized", [=](const Sim& s, size_t i) { return first(account_asks(s, i, "\"finalized\"", true), "eth_getBalance"); }, [](const Sim& s) { return s.finalized; });
  return r;
}
// a question driven one round at a time
struct Talk {
  Run x; bool done = false; int idle = 0;
  Talk(const Ask& a, const Chain& ch, uint32_t fl, const Bytes& st) : x(a.method, a.params, ch, fl, st) {}
  bool step(const Net& net) {
    if (done) return true;
    if (x.execute()) return done = true;
    if (x.r.rounds++ > 300) { x.r.stuck = true; return done = true; }
    bool any = false;
    for (data_request_t* q = x.ctx->state.requests; q; q = q->next) if (c4_state_is_pending(q)) {
      any = true;
      Req rq = req_of(q);
      x.r.reqs.push_back(rq);
      if (!pick_node(q)) { respond(q, {false, {}, "no more nodes"}); continue; }
      auto an = net(rq); respond(q, an ? *an : Answer{false, {}, "no node answers"});
    }
    if (!any && idle++ > 2) { x.r.stuck = true; return done = true; }
    return false;
  }
};
static void judge(const Sim& s, const Ask& a, const Client& cl, const Pr& p, bool must, const std::string& what, const std::string& det) {
  std::string d = a.name() + " chain " + I(s.ch->id) + " " + det;
  outcome(hash64(p.ok ? "proof" : err_sig(p.error), hash64(a.method, hash64(cur_section))));
  if (p.stuck) { violation(what + ":stuck:" + a.method, d); return; }
  if (!p.ok) { if (must) violation(what + ":no-proof:" + a.method + ":" + err_sig(p.error), d + " error " + p.error.substr(0, 200)); return; }
  cl.store();
  Res z = verify(p.proof, a.method.c_str(), a.params, *s.ch, cl.net ? s.net() : Net());
  if (must && !z.accepted) violation(what + ":proof-rejected:" + a.method, d + " error " + z.error.substr(0, 200));
  if (z.accepted) { std::string e = a.check(z); if (e.size()) violation(what + ":wrong-answer:" + a.method, d + " " + e); }
}
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store(5);
  const uint64_t L = 1000000, S = 1000;
  auto O = [](char w, int c, int k, uint64_t d = 0, uint32_t sz = 100) { return COp{w, c, k, d, sz}; };
  clear_caches();
  // one key, two questions: deep
  all("one-key", {O('g', 0, 0), O('g', 1, 0), O('s', 0, 0, L), O('s', 1, 0, L), O('f', 0, 0), O('f', 1, 0), O('i', 0, 0), O('c', 0, 0)}, thorough ? 12 : 10);
  // one key, three questions
  all("three", {O('g', 0, 0), O('g', 1, 0), O('g', 2, 0), O('s', 0, 0, L), O('s', 1, 0, L), O('s', 2, 0, L), O('f', 0, 0), O('f', 1, 0), O('f', 2, 0), O('i', 0, 0), O('c', 0, 0)}, thorough ? 9 : 8);
  // two keys, lifetimes
  all("two-keys", {O('g', 0, 0), O('g', 0, 1), O('g', 1, 0), O('s', 0, 0, L), O('s', 0, 1, S), O('s', 1, 0, S), O('s', 1, 1, 0), O('f', 0, 0), O('f', 1, 0), O('i', 0, 0), O('t', 0, 0), O('c', 0, 0)}, thorough ? 8 : 7);
  // sizes around the limit of 100 MB
  { uint32_t M = 1024 * 1024; all("sizes", {O('g', 0, 0), O('g', 0, 1), O('s', 0, 0, L, 60 * M), O('s', 0, 1, L, 50 * M), O('s', 1, 0, L, 40 * M), O('s', 1, 1, L, 100 * M), O('g', 1, 1), O('f', 0, 0), O('f', 1, 0), O('c', 0, 0)}, thorough ? 8 : 7); }
  // many entries: the table grows while entries are in use
  if (section("ops/growth"))
    for (int n : {31, 32, 33, 63, 64, 65, 130})
      for (int u = 0; u < 3; u++) { // the entry in use: first, middle, last
        if (!next()) continue;
        CWorld w;
        w.run(O('s', 0, 1, L)); w.run(O('f', 0, 0)); w.run(O('g', 2, 1));
        for (int i = 0; i < n; i++) { w.run(O('s', 0, 2 + i, i % 3 ? L : S)); if (i % 4 == 3) w.run(O('f', 0, 0)); if (i == n * u / 2) w.run(O('g', 1, 2 + i / 2)); }
        w.run(O('f', 0, 0)); w.run(O('t', 0, 0)); w.run(O('c', 0, 0)); w.run(O('f', 1, 0)); w.run(O('c', 0, 0)); w.run(O('f', 2, 0));
        w.end(); outcome(hash64("growth"));
      }
  // ---- two questions after each other and at the same time
  auto qs_ = questions();
  for (int ci = 0; ci < 4; ci += 2)
    for (int kind = 0; kind < 2; kind++)
      for (int mask : {0, 0x008}) {
        static std::map<int, Sim> keep;
        int id = ci * 100 + kind * 10 + (mask ? 1 : 0);
        auto early = [&]() -> Sim& { auto it = keep.find(id * 2); if (it == keep.end()) { Sim s = the_sim(ci, kind, mask); s.head = 6; s.justified = 3; s.finalized = 2; it = keep.emplace(id * 2, s).first; } return it->second; };
        auto late  = [&]() -> Sim& { return const_cast<Sim&>(the_sim(ci, kind, mask)); };
        std::string lay = std::string(kind ? "electra" : "deneb") + (mask ? " unsigned block" : "");
        if (!thorough && (ci || (kind == 0) != (mask != 0))) continue;
        std::map<std::pair<bool, size_t>, Ask> asked;
        auto question = [&](bool l, size_t i) -> const Ask& { auto it = asked.find({l, i}); if (it == asked.end()) it = asked.emplace(std::make_pair(l, i), qs_[i].ask(l ? late() : early())).first; return it->second; };
        for (size_t i = 0; i < qs_.size(); i++)
          for (size_t j = 0; j < qs_.size(); j++) {
            // after each other: at once, 30 s later (head outdated), 10 minutes later; the chain may have grown
            if (section("pair/after"))
              for (int gap : {0, 30, 600})
                for (int clean = 0; clean < 2; clean++)
                  for (uint32_t fl : {0u, F_UV}) {
                    if ((clean && !gap) || (fl && gap == 30)) continue;
                    if (!thorough && gap && (clean != (gap == 600) || fl)) continue;
                    if (!next()) continue;
                    clear_caches();
                    Sim& a = early(); Sim& b = gap ? late() : early();
                    Client ca = client(a, 0, a.period(1)), cb = client(b, fl ? 1 : 0, b.period(1));
                    const Ask &qa = question(false, i), &qb = question(gap, j);
                    { Pr p = prove(qa.method, qa.params, *a.ch, fl | ca.flags, ca.state, a.net()); judge(a, qa, ca, p, a.provable(qa.block) && !qa.any, "first", lay); }
                    now_ms += gap * 1000;
                    if (clean) c4_prover_cache_cleanup(now_ms, 0);
                    Pr p = prove(qb.method, qb.params, *b.ch, fl | cb.flags, cb.state, b.net());
                    judge(b, qb, cb, p, b.provable(qb.block) && !qb.any, "after", lay + " after " + qa.name() + " " + I(gap) + " s before, flags " + I(fl) + (clean ? " expired entries removed" : ""));
                  }
            // at the same time: the first question pauses after each of its rounds while the second one is answered
            if (section("pair/during")) {
              for (int pause = 1; pause <= 7; pause++)
                for (uint32_t fl : {0u, F_UV}) {
                  if (fl && pause > 4) continue;
                  if (!thorough && (pause > 5 || (fl != 0) != (pause % 2 == 0))) continue;
                  if (!next()) continue;
                  clear_caches();
                  Sim& a = early(); Client cl = client(a, 0, a.period(1));
                  const Ask &qa = question(false, i), &qb = question(false, j);
                  std::string d = lay + " pause " + I(pause) + " flags " + I(fl) + " with ";
                  Talk t(qa, *a.ch, fl | cl.flags, cl.state);
                  Net n = a.net();
                  for (int k = 0; k < pause; k++) t.step(n);
                  { Talk u(qb, *a.ch, fl | cl.flags, cl.state); while (!u.step(n)); 
                    if (pause == 2) c4_prover_cache_cleanup(now_ms, 0);
                    judge(a, qb, cl, u.x.r, a.provable(qb.block) && !qb.any, "during", d + qa.name()); }
                  if (pause % 2) { now_ms += 600000; c4_prover_cache_cleanup(now_ms, 0); } // while the first one waits, entries expire
                  while (!t.step(n));
                  judge(a, qa, cl, t.x.r, a.provable(qa.block) && !qa.any, "during", d + qb.name());
                }
            }
          }
      }
  finish();
}
