// The prover of /repo with nodes that fail: every request of a conversation x every kind of wrong answer; every order of
// the answers; questions that have no answer. It always ends, touches no memory it must not, and a proof it returns never
// makes a verifier accept a wrong answer.
#include "reps.hpp"
using namespace prv;
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store(5);
  // ---- one request of a conversation goes wrong, with the first node only or with all of them
  for (size_t ri = 0; ri < NREP; ri++) {
    if (!section("fault/" + I(ri))) continue;
    auto& rep = reps()[ri];
    Net   honest = rep.s->net();
    clear_caches();
    Pr base = prove(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state, honest);
    if (!base.ok) { violation("fault:no-base:" + rep.name, base.error); continue; }
    std::set<std::string> seen;
    for (auto& q : base.reqs) {
      if (!seen.insert(key(q)).second) continue;
      auto good = honest(q);
      auto bads = bad_answers(q, *good, thorough);
      for (auto& b : bads)
        for (int nodes : {1, 3}) {
          if (!next()) continue;
          clear_caches();
          bool hit = false;
          Net  net = [&](const Req& x) -> std::optional<Answer> { if (key(x) == key(q) && node < nodes) { hit = true; return b.a; } return honest(x); };
          ask(*rep.s, rep.a, rep.c, 0, false, "fault/" + rep.name, "request " + q.url + q.payload + " answered with " + b.name + " by " + I(nodes) + " nodes", &net);
        }
    }
  }
  // ---- the same with all that is allocated counted: nothing is left once the question is done and the caches are empty
  for (size_t ri = 0; ri < NREP; ri++) {
    if (!section("leak/" + I(ri))) continue;
    auto& rep = reps()[ri];
    Net   honest = rep.s->net();
    leak::install();
    clear_caches();
    Pr base = prove(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state, honest);
    std::vector<std::pair<Req, Bad>> all;
    std::set<std::string> seen;
    all.push_back({{}, {"nothing", {}}});
    for (auto& q : base.reqs) {
      if (!seen.insert(key(q)).second) continue;
      for (auto& b : bad_answers(q, *honest(q), false)) all.push_back({q, b});
    }
    for (size_t ei = 0; ei < all.size(); ei++)
      for (uint32_t fl : {0u, F_UV}) {
        auto& e = all[ei];
        if (fl && ei > 3 && ei % 7 && !thorough) continue;
        if (!next()) continue;
        Net net = [&](const Req& x) -> std::optional<Answer> { if (key(x) == key(e.first)) return e.second.a; return honest(x); };
        auto once = [&] {
          clear_caches(); leak::reset(); reset_store();
          ask(*rep.s, rep.a, rep.c, fl, false, "other", "", &net);
          clear_caches(); reset_store();
          return leak::live;
        };
        size_t n = once(); if (n) n = once(); // the first run may fill tables that stay
        if (n) {
          leak::traces = true; once(); auto st = leak::sites(); leak::traces = false;
          std::sort(st.begin(), st.end());
          if (st.size()) violation("leak:" + st[0].substr(0, 120), I(st.size()) + " allocations left by " + rep.a.name() + " client " + rep.c.name + " flags " + I(fl) + " request " + e.first.url + e.first.payload + " answered with " + e.second.name);
        }
        leak::reset();
      }
  }
  // ---- every order of the answers gives the same proof
  for (size_t ri = 0; ri < NREP; ri++) {
    if (!section("order")) continue;
    auto& rep = reps()[ri];
    Net   honest = rep.s->net();
    if (!next()) continue;
    clear_caches();
    Pr base = prove(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state, honest);
    // breadth first over the states of the conversation: what is answered and what is pending, in order; every state
    // is reached by every last step, each transition is a run of its own
    std::set<std::string>                 seen;
    std::vector<std::vector<std::string>> todo = {{}};
    size_t runs = 0, ends = 0;
    for (size_t ti = 0; ti < todo.size(); ti++) {
      auto path = todo[ti];
      clear_caches();
      Run x(rep.a.method, rep.a.params, *rep.s->ch, rep.c.flags, rep.c.state);
      bool done = false;
      std::string lost;
      runs++;
      auto pending = [&] { std::vector<data_request_t*> qs; for (data_request_t* q = x.ctx->state.requests; q; q = q->next) if (c4_state_is_pending(q)) qs.push_back(q); return qs; };
      done = x.execute();
      for (auto& k : path) {
        if (done) { lost = "ends early"; break; }
        data_request_t* q = nullptr; for (auto p : pending()) if (key(req_of(p)) == k) q = p;
        if (!q) { lost = "asks for something else"; break; }
        pick_node(q);
        respond(q, *honest(req_of(q)));
        done = x.execute();
      }
      auto P = pending();
      if (!done && P.empty()) lost = "waits for nothing";
      if (done) { ends++; if (x.r.ok != base.ok || x.r.proof != base.proof) lost = x.r.ok ? "other proof" : "error " + x.r.error; }
      if (lost.size()) { std::string cs; for (auto& k : path) cs += k.substr(0, 60) + " "; violation("order:" + rep.name + ":" + err_sig(lost), lost + " after " + cs); continue; }
      if (done) continue;
      auto sorted = path; std::sort(sorted.begin(), sorted.end());
      std::string st; for (auto& k : sorted) st += k + "\n"; st += "-"; for (auto p : P) st += key(req_of(p)) + "\n";
      if (!seen.insert(st).second) continue;
      outcome(hash64(st, ri));
      for (auto p : P) { auto n = path; n.push_back(key(req_of(p))); todo.push_back(n); }
    }
    sample(rep.name + ": " + I(seen.size()) + " states, " + I(runs) + " runs, " + I(ends) + " ends");
  }
  // ---- questions without an answer: never a proof that is accepted
  if (section("question/nothing")) {
    for (int ci = 0; ci < 4; ci++)
      for (int kind = 0; kind < 2; kind++) {
        static std::map<int, Sim> m; Sim& s = m[ci * 2 + kind]; if (s.b.empty()) s = make_sim(ci, kind, 0x008, 0, 9, "quest" + I(ci * 2 + kind));
        std::string head = qs(hxu(s.b[s.head].x().blk.number)), over = qs(hxu(s.b[s.head].x().blk.number + 1)), far = "\"0xffffffffffffffff\"", nohash = qs(hx(tag32("nothing"))), addr = qs(hx(s.b[1].db->a[0].addr));
        struct Qn { std::string m, p; };
        std::vector<Qn> l;
        for (auto& r : {head, over, far, nohash, std::string("\"pending\""), qs(hx(s.b[s.head].x().blk.hash))}) {
          l.push_back({"eth_getBalance", "[" + addr + "," + r + "]"}); l.push_back({"eth_getCode", "[" + addr + "," + r + "]"});
          l.push_back({r.size() == 68 ? "eth_getBlockByHash" : "eth_getBlockByNumber", "[" + r + ",true]"});
          l.push_back({r.size() == 68 ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex", "[" + r + ",\"0x0\"]"});
          if (r.size() == 68) l.push_back({"eth_getLogs", "[{\"blockHash\":" + r + "}]"});
        }
        for (size_t i = 1; i < s.head; i++)
          for (uint64_t t : {(uint64_t) s.b[i].r.txs.size(), (uint64_t) s.b[i].r.txs.size() + 1, (uint64_t) 0xffffffff, (uint64_t) 0x100000000ull, (uint64_t) 1 << 20, ~(uint64_t) 0})
            for (auto& r : refs(s, i)) l.push_back({r.size() == 68 ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex", "[" + r + "," + qs(hxu(t)) + "]"});
        for (auto h : {nohash, qs(hx(s.b[s.head].r.txs.empty() ? tag32("x") : s.b[s.head].r.txs[0].hash))}) { l.push_back({"eth_getTransactionByHash", "[" + h + "]"}); l.push_back({"eth_getTransactionReceipt", "[" + h + "]"}); }
        for (int cl = 0; cl < 4; cl++)
          for (auto& q : l) {
            if (!next()) continue;
            clear_caches();
            auto cli = client(s, cl, s.period(1));
            Pr p = prove(q.m, q.p, *s.ch, cli.flags, cli.state, s.net());
            outcome(hash64(p.ok ? "proof" : err_sig(p.error), hash64(q.m)));
            if (p.stuck) { violation("nothing:stuck:" + q.m, q.p); continue; }
            if (!p.ok) continue;
            cli.store();
            Res z = verify(p.proof, q.m.c_str(), q.p, *s.ch, s.net());
            if (z.accepted && q.p.find("pending") == std::string::npos && z.json != "[]") violation("nothing:accepted:" + q.m, q.p + " answered with " + z.json.substr(0, 300));
          }
      }
  }
  // ---- malformed questions: they end
  for (size_t ri = 0; ri < NREP; ri++) {
    if (!section("question/malformed")) continue;
    auto& rep = reps()[ri];
    std::vector<std::pair<std::string, std::string>> l; // method, params
    for (auto& e : json_edits(rep.a.params, "")) l.push_back({rep.a.method, e.second});
    for (auto p : {"", "[", "{}", "null", "[]", "[null]", "[[]]", "[{}]", "[\"\"]", "[\"0x\",\"0x\",\"0x\"]", "[1,2,3]", "[\"latest\"]", "[\"latest\",\"latest\",\"latest\"]", "[true,false]"}) l.push_back({rep.a.method, p});
    for (auto& x : reps()) l.push_back({x.a.method, rep.a.params});
    for (size_t k = 1; k < rep.a.params.size(); k += thorough ? 1 : 9) l.push_back({rep.a.method, rep.a.params.substr(0, k)});
    for (auto m : {"", "eth_", "eth_getLogs ", "eth_call", "colibri_simulateTransaction", "c4_witness", "eth_proof_sync", "eth_verifyLogs"}) l.push_back({m, rep.a.params});
    for (auto& q : l) {
      if (!next()) continue;
      clear_caches();
      Pr p = prove(q.first, q.second, *rep.s->ch, rep.c.flags, rep.c.state, rep.s->net());
      outcome(hash64(p.ok ? "proof" : err_sig(p.error), hash64(q.first)));
      if (p.stuck) { violation("malformed:stuck:" + q.first, q.second + " last " + (p.reqs.size() ? p.reqs.back().url + p.reqs.back().payload : "-")); continue; }
      if (!p.ok && p.error == "(no message)") violation("malformed:no-message:" + q.first, q.second);
      if (p.ok) { rep.c.store(); verify(p.proof, q.first.c_str(), q.second, *rep.s->ch, Net()); }
    }
  }
  finish();
}
