// C30: eth_call and simulations from the question to the answer: the prover of the repository asks simulated nodes (traces, access
// lists, proofs, codes) and the verifier of the repository runs the call on what it proves.
#include "reps.hpp"
extern "C" {
#include "evmone_c_wrapper.h"
#include "precompiles.h"
}
#define main main_of_call
namespace cl {
#include "h_call.cpp"
}
#undef main
using namespace mc;
using namespace world;
using namespace prv;
using cl::Rq; using cl::Ov; using cl::AD; using cl::k32; using cl::sub; using cl::cat_;
using cl::aA; using cl::aB; using cl::aC; using cl::aD; using cl::aE; using cl::NADDR;
// the database of the block the calls are about
static const acc::Db& call_db() {
  static acc::Db d;
  if (d.a.empty()) {
    d = acc::make_db(1);
    d.a.clear(); d.t = Trie();
    for (auto& p : cl::base()) {
      acc::Acc x; x.addr = p.first; x.nonce = p.second.nonce; x.balance = cl::strip(p.second.balance); x.code = p.second.code;
      for (auto& s : p.second.st) x.st[s.first] = cl::strip(s.second);
      d.a.push_back(x); d.t.set(ref::keccak(x.addr), x.rlp());
    }
  }
  return d;
}
static const int NB = 7;
// a chain in which block t has the state of the calls
static const Sim& call_sim(int ci, int kind, int t) {
  static std::map<int, Sim> m;
  int k = ci * 100 + kind * 10 + t;
  auto it = m.find(k);
  if (it != m.end()) return it->second;
  Sim s; s.ch = &chain(ci);
  uint64_t slot = base_slot(*s.ch, kind);
  for (int i = 0; i < NB; i++) { int n = i % 3; sim::add_block(s, slot, 0xfc + i, sim::some_txs(n, s.ch->id, i), sim::some_rcs(n, i), i == t ? call_db() : acc::db(i % 2 ? 7 : 40), i % 3, true, "call" + I(k)); slot += 1 + i % 2; }
  s.justified = NB - 4; s.finalized = NB - 6;
  return m.emplace(k, s).first->second;
}
static std::string jhex(const Bytes& b) { return qs(hx(b)); }
enum { GETH, LOOSE, NSTYLE }; // LOOSE: lists what was touched, sender and receiver included
struct Node {
  const Sim* s; int t; const Rq* q; int style = GETH;
  mutable std::string wrong;
  std::map<Bytes, std::set<Bytes>> touched() const { std::map<Bytes, std::set<Bytes>> r; cl::rec = &r; cl::truth(*q); cl::rec = nullptr; return r; }
  Bytes from() const { return q->from >= 0 ? AD(q->from) : Bytes(20); }
  std::string trace() const {
    auto m = touched();
    m[from()]; m[AD(q->to)]; m[s->b[t].x().blk.feeRecipient];
    std::string r;
    for (auto& p : m) {
      auto i = cl::base().find(p.first);
      cl::RAcc a; if (i != cl::base().end()) a = i->second;
      std::string o = "\"balance\":" + qs(hxn(cl::strip(a.balance)));
      if (a.code.size()) o += ",\"code\":" + jhex(a.code);
      if (a.nonce) o += ",\"nonce\":" + I(a.nonce);
      if (p.second.size()) { std::string st; for (auto& k : p.second) { auto v = a.st.find(k); st += (st.empty() ? "" : ",") + jhex(k) + ":" + jhex(v == a.st.end() ? Bytes(32) : v->second); } o += ",\"storage\":{" + st + "}"; }
      r += (r.empty() ? "" : ",") + jhex(p.first) + ":{" + o + "}";
    }
    return "{" + r + "}";
  }
  std::string access_list() const {
    auto m = touched();
    if (style == LOOSE) { m[from()]; m[AD(q->to)]; }
    std::string r;
    for (auto& p : m) {
      bool excluded = style == GETH && (p.first == from() || p.first == AD(q->to) || p.first < be(100, 20));
      if (excluded && p.second.empty()) continue;
      std::string ks; for (auto& k : p.second) ks += (ks.empty() ? "" : ",") + jhex(k);
      r += (r.empty() ? "" : ",") + ("{\"address\":" + jhex(p.first) + ",\"storageKeys\":[" + ks + "]}");
    }
    return "{\"accessList\":[" + r + "],\"gasUsed\":\"0x5208\"}";
  }
  std::optional<Answer> answer(const Req& rq) const {
    if (rq.type == C4_DATA_TYPE_ETH_RPC) {
      auto o = jobj(rq.payload); std::string m = o["method"]; auto p = jarr(o["params"]), a = jarr(q->args());
      if (m == "\"debug_traceCall\"" || m == "\"eth_createAccessList\"") {
        bool al = m[1] == 'e';
        if (p.size() < 2 || p[0] != a[0]) wrong = "another call: " + rq.payload;
        else if (p[1] != qs(hxu(s->b[t].x().blk.number))) wrong = "another block: " + rq.payload;
        else if (al && (p.size() > 2 ? p[2] : "") != (a.size() > 2 ? a[2] : "")) wrong = "other overrides: " + rq.payload;
        else if (!al && a.size() > 2) wrong = "without the overrides: " + rq.payload;
        return Sim::res(al ? access_list() : trace());
      }
    }
    return s->answer(rq);
  }
};
static Net* other_net = nullptr; // instead of honest nodes: nothing has to be proven then
static Pr last;
static void go(int ci, int kind, int t, Rq q, const std::string& ref, int cln, uint32_t flags, int style, bool simu, const std::string& what, const std::string& det, Sched sc = {}) {
  const Sim& s = call_sim(ci, kind, t);
  q.blockref = ref;
  Node n{&s, t, &q, style};
  Net  net = [&](const Req& r) { return n.answer(r); };
  Client c = client(s, cln, s.period(t));
  const char* method = simu ? "colibri_simulateTransaction" : "eth_call";
  clear_caches();
  Pr p = prove(method, q.args(), *s.ch, flags | c.flags, c.state, other_net ? *other_net : net, sc);
  last = p;
  std::string d = std::string(method) + q.args() + " chain " + I(s.ch->id) + " client " + c.name + " flags " + I(flags) + " style " + I(style) + " " + det;
  outcome(hash64(p.ok ? "proof" : err_sig(p.error), hash64(cur_section)));
  if (n.wrong.size()) violation(what + ":wrong-request", d + " " + n.wrong);
  if (p.stuck) { violation(what + ":stuck", d); return; }
  auto tr = cl::truth(q);
  if (!p.ok) { if (!other_net) violation(what + ":no-proof:" + err_sig(p.error), d + " " + p.error.substr(0, 300)); return; }
  c.store();
  cl::results_live = cl::executors_live = 0;
  Res z = verify(p.proof, method, q.args(), *s.ch, [&](const Req& r) { auto x = cl::node(r); return x ? x : c.net ? s.answer(r) : std::nullopt; });
  outcome(hash64(z.accepted ? "ok" : err_sig(z.error), hash64(cur_section)));
  std::string want = simu ? cl::sim_json(tr) : "\"" + hx(tr.out) + "\"", got = nows(z.json);
  if (z.accepted && tr.status) violation(what + ":failed-call-accepted", d + " " + got.substr(0, 300));
  else if (z.accepted && got != want) violation(what + ":wrong-result", d + " " + got.substr(0, 300) + " expected " + want.substr(0, 300));
  else if (!z.accepted && !tr.status && !other_net) violation(what + (z.pending ? ":needs-more" : ":proof-rejected:" + err_sig(z.error)), d + " " + z.error.substr(0, 300));
}
static std::vector<Rq> calls() {
  using namespace cl;
  std::vector<Rq> r;
  std::vector<Bytes> ops = {{}, B({SLOAD, 0}), B({SLOAD, 2}), B({SSTORE, 0, 3, SLOAD, 0}), B({SSTORE, 2, 0}), B({LOG, 2}), B({PRECOMP, 2, 1, 2}), B({REVERT})};
  for (int a = 0; a < NADDR; a++) { ops.push_back(B({BAL, (uint8_t) a})); ops.push_back(B({CSIZE, (uint8_t) a, CHASH, (uint8_t) a, EXISTS, (uint8_t) a})); ops.push_back(B({CCOPY, (uint8_t) a, 1, 20})); ops.push_back(B({SDESTR, (uint8_t) a})); }
  for (int to : {aA, aB, aC, aD, aE})
    for (int from : {-1, (int) aC, (int) aB, (int) aD}) {
      if (to != aA && from != aC) continue;
      for (auto& o : ops) {
        Rq q; q.to = to; q.from = from;
        q.prog = o; r.push_back(q);
        if (to == aA || to == aB) for (int i : {aA, aB, aD, aE}) { q.prog = cat_({sub(CALL, i, o), B({SLOAD, 1})}); r.push_back(q); q.prog = cat_({sub(DCALL, i, o), o}); r.push_back(q); }
      }
    }
  for (int to : {aA, aC, aD}) for (uint64_t v : {1, 100}) for (int from : {(int) aC, (int) aB}) { Rq q; q.to = to; q.from = from; q.value = v; q.prog = B({BAL, 0, BAL, 2}); r.push_back(q); }
  return r;
}
int main(int argc, char** argv) {
  init(argc, argv);
  quiet_stderr();
  init_store(5);
  auto cs = calls();
  const std::vector<uint32_t> FL = {0, 1, 64, 65};
  // every call with every way to find out what it needs
  if (section("prove/calls"))
    for (auto& q : cs)
      for (uint32_t f : FL)
        for (int st = 0; st < ((f & 64) ? NSTYLE : 1); st++)
          for (int simu = 0; simu < 2; simu++) {
            if (!next()) continue;
            go(0, 1, 3, q, qs(hxu(0xfc + 3)), 0, f, st, simu, "calls", "");
          }
  // every block, reference, network, client and order of answers
  if (section("prove/blocks"))
    for (int ci = 0; ci < 4; ci++)
      for (int kind = 0; kind < 2; kind++)
        for (int t = 0; t < NB - 1; t++)
          for (size_t qi : {(size_t) 1, (size_t) 30, (size_t) 61})
            for (int cln = 0; cln < 7; cln++)
              for (uint32_t f : {1u, 66u}) {
                if (cln && (t != 3 && t != NB - 2)) continue;
                for (int ri = 0; ri < 5; ri++) {
                  if (!next()) continue;
                  const Sim& s = call_sim(ci, kind, t);
                  auto rf = refs(s, t);
                  if (ri >= (int) rf.size()) continue;
                  go(ci, kind, t, cs[qi % cs.size()], rf[ri], cln, f, ri % 2, false, "blocks", "block " + I(t), Sched{ri % 3, (bool) (ri & 1)});
                }
              }
  // calls with changed states
  if (section("prove/overrides")) {
    std::vector<Ov> os;
    for (int a : {aA, aB, aC, aD})
      for (int b = 0; b < 3; b++)
        for (int c = 0; c < 3; c++)
          for (int s = 0; s < 7; s++) {
            Ov o; o.addr = a;
            if (b) { o.bal = true; o.balance = b == 1 ? k32(0) : Bytes(32, 0xab); }
            if (c) { o.code = true; o.codev = c == 1 ? Bytes() : S("other"); }
            if (s) { o.storage = s < 4 ? 1 : 2; int m = (s - 1) % 3; if (m >= 1) o.st.push_back({0, 33}); if (m == 2) { o.st.push_back({2, 44}); o.st.push_back({1, 0}); } }
            if (b || c || s) os.push_back(o);
          }
    using namespace cl;
    std::vector<Bytes> progs = {B({SLOAD, 0, SLOAD, 1, SLOAD, 2, BAL, 0, CSIZE, 0, CHASH, 0}), cat_({B({SSTORE, 1, 9}), sub(CALL, aB, B({SLOAD, 0, SLOAD, 1, SLOAD, 2, BAL, 1, CSIZE, 1})), B({SLOAD, 0})}), B({BAL, aC, CSIZE, aC, BAL, aD, CSIZE, aD, EXISTS, aD})};
    for (auto& o : os)
      for (auto& p : progs)
        for (uint32_t f : FL)
          for (int st = 0; st < NSTYLE; st++) {
            if (!next()) continue;
            Rq q; q.prog = p; q.from = aC; q.ov = {o};
            go(0, 1, 3, q, qs(hxu(0xfc + 3)), 0, f, st, f & 1, "overrides", "");
          }
  }
  // one request of the prover goes wrong, with the first node or with all of them; what is allocated is counted as well
  struct CR { Rq q; uint32_t f; int cln; bool simu; };
  std::vector<CR> cr;
  {
    using namespace cl;
    Rq q; q.from = aC; q.prog = cat_({B({SLOAD, 0, SLOAD, 2, BAL, aD}), sub(CALL, aB, B({SLOAD, 0, SSTORE, 0, 3})), B({CSIZE, aE})});
    Ov o; o.addr = aA; o.bal = true; o.storage = 2; o.st = {{0, 33}};
    Rq w = q; w.ov = {o};
    cr = {{q, 0, 0, false}, {q, 1, 2, true}, {q, 65, 4, false}, {q, 66, 0, true}, {w, 0, 2, false}, {w, 1, 0, true}};
  }
  for (size_t ri = 0; ri < cr.size(); ri++)
    for (int leaks = 0; leaks < 2; leaks++) {
      if (!section((leaks ? "leak/call" : "fault/call") + I(ri))) continue;
      auto& r = cr[ri];
      const Sim& s = call_sim(0, 1, 3);
      Rq q = r.q; q.blockref = qs(hxu(0xfc + 3));
      Node n{&s, 3, &q, GETH};
      Net  honest = [&](const Req& x) { return n.answer(x); };
      if (leaks) leak::install();
      other_net = nullptr;
      auto one = [&] { go(0, 1, 3, q, q.blockref, r.cln, r.f, GETH, r.simu, leaks ? "other" : "fault", ""); };
      one();
      std::vector<Req> reqs = last.reqs;
      std::vector<std::pair<Req, Bad>> all;
      std::set<std::string> seen;
      all.push_back({{}, {"nothing", {}}});
      for (auto& x : reqs) if (seen.insert(key(x)).second) for (auto& b : bad_answers(x, *honest(x), thorough && !leaks)) all.push_back({x, b});
      for (auto& e : all)
        for (int nodes : {1, 3}) {
          if (leaks && nodes == 1) continue;
          if (!next()) continue;
          Net net = [&](const Req& x) -> std::optional<Answer> { if (key(x) == key(e.first) && node < nodes) return e.second.a; return honest(x); };
          other_net = &net;
          if (!leaks) { go(0, 1, 3, q, q.blockref, r.cln, r.f, GETH, r.simu, "fault", "request " + e.first.url + e.first.payload + " answered with " + e.second.name + " by " + I(nodes) + " nodes"); continue; }
          auto once = [&] { clear_caches(); leak::reset(); reset_store(); one(); last = {}; clear_caches(); reset_store(); return leak::live; };
          size_t k = once(); if (k) k = once();
          if (k) {
            leak::traces = true; once(); auto st = leak::sites(); leak::traces = false;
            std::sort(st.begin(), st.end());
            if (st.size()) violation("leak:" + st[0].substr(0, 120), I(st.size()) + " allocations left by " + q.args() + " flags " + I(r.f) + " client " + I(r.cln) + " request " + e.first.url + e.first.payload + " answered with " + e.second.name);
          }
          leak::reset();
        }
      other_net = nullptr;
    }
  // questions nobody can understand: they end
  if (section("question/call"))
    for (auto& r : cr) {
      const Sim& s = call_sim(0, 1, 3);
      Rq q = r.q; q.blockref = qs(hxu(0xfc + 3));
      Node n{&s, 3, &q, GETH};
      Net  net = [&](const Req& x) { return n.answer(x); };
      std::vector<std::string> l;
      for (auto& e : json_edits(q.args(), "")) l.push_back(e.second);
      for (size_t k = 1; k < q.args().size(); k += thorough ? 1 : 3) l.push_back(q.args().substr(0, k));
      for (auto& a : l) {
        if (!next()) continue;
        clear_caches();
        Client c = client(s, r.cln, s.period(3));
        const char* m = r.simu ? "colibri_simulateTransaction" : "eth_call";
        Pr p = prove(m, a, *s.ch, r.f | c.flags, c.state, net);
        outcome(hash64(p.ok ? "proof" : err_sig(p.error), hash64(cur_section)));
        if (p.stuck) { violation("malformed:stuck", a); continue; }
        if (!p.ok && p.error == "(no message)") violation("malformed:no-message", a);
        if (p.ok) { c.store(); verify(p.proof, m, a, *s.ch, cl::node); }
      }
    }
  finish();
}
