// Running the prover of /repo against a simulated network, and the questions with their true answers.
#pragma once
#include "sim.hpp"
extern "C" {
#include "prover.h"
#include "tx_cache.h"
}
namespace prv {
using namespace mc;
using namespace world;
using sim::Sim;
using sim::I;
inline uint64_t now_ms = 1760000000000ull; // the clock of the machine
} // namespace prv
extern "C" inline __attribute__((used)) int gettimeofday(struct timeval* tv, void*) { tv->tv_sec = prv::now_ms / 1000; tv->tv_usec = (prv::now_ms % 1000) * 1000; return 0; }
namespace prv {
struct Pr { bool ok = false, stuck = false; std::string error; Bytes proof; std::vector<Req> reqs; int rounds = 0; };
// answers one pending request; the host hands over exact allocations, JSON text terminated
inline void respond(data_request_t* q, const Answer& an) {
  leak::Guard g;
  if (an.ok) {
    size_t n = an.data.size();
    bool   z = q->encoding == C4_DATA_ENCODING_JSON;
    q->response = bytes((uint8_t*) malloc(n + (z ? 1 : (n ? 0 : 1))), (uint32_t) n);
    if (n) memcpy(q->response.data, an.data.data(), n);
    if (z) q->response.data[n] = 0;
  }
  else q->error = strdup(an.err.c_str());
}
inline Req req_of(data_request_t* q) { return Req{q->url ? q->url : "", std::string((char*) q->payload.data, q->payload.len), q->type, q->encoding, q->chain_id}; }
// three nodes; a host asks the first one the prover has not excluded
inline int node = 0;
inline bool pick_node(data_request_t* q) { for (node = 0; node < 3; node++) if (!(q->node_exclude_mask >> node & 1)) { q->response_node_index = (uint16_t) node; return true; } return false; }
// sched: answers at most this many of the requests of a round, starting with the last if back is set (0: all)
struct Sched { int per_round = 0; bool back = false; };
struct Run { // a prover context driven step by step
  prover_ctx_t* ctx = nullptr;
  Pr            r;
  Run(const std::string& method, const std::string& params, const Chain& ch, uint32_t flags, const Bytes& cstate, const Bytes& witness = {}) {
    char *m = strdup(method.c_str()), *p = strdup(params.c_str());
    leak::Guard g;
    ctx = c4_prover_create(m, p, ch.cid(), flags);
    free(m); free(p);
    if (cstate.size()) { ctx->client_state = bytes((uint8_t*) malloc(cstate.size()), (uint32_t) cstate.size()); memcpy(ctx->client_state.data, cstate.data(), cstate.size()); }
    if (witness.size()) { ctx->witness_key = bytes((uint8_t*) malloc(witness.size()), (uint32_t) witness.size()); memcpy(ctx->witness_key.data, witness.data(), witness.size()); }
  }
  ~Run() { leak::Guard g; if (ctx) c4_prover_free(ctx); }
  // one execution; true if the prover is done
  bool execute() {
    mc::step();
    leak::on++;
    c4_status_t s = c4_prover_execute(ctx);
    leak::on--;
    if (s == C4_SUCCESS) { r.ok = true; r.proof = Bytes(ctx->proof.data, ctx->proof.data + ctx->proof.len); return true; }
    if (s == C4_ERROR) { r.error = ctx->state.error ? ctx->state.error : "(no message)"; return true; }
    return false;
  }
  int pending() { int n = 0; for (data_request_t* q = ctx->state.requests; q; q = q->next) if (c4_state_is_pending(q)) n++; return n; }
};
inline Pr prove(const std::string& method, const std::string& params, const Chain& ch, uint32_t flags, const Bytes& cstate, const Net& net, Sched sc = {}, const Bytes& witness = {}) {
  Run x(method, params, ch, flags, cstate, witness);
  int idle = 0;
  while (!x.execute()) {
    if (x.r.rounds++ > 300) { x.r.stuck = true; break; }
    std::vector<data_request_t*> qs;
    for (data_request_t* q = x.ctx->state.requests; q; q = q->next) if (c4_state_is_pending(q)) qs.push_back(q);
    if (qs.empty()) { if (idle++ > 2) { x.r.stuck = true; break; } continue; } // asks to be run in a worker
    idle = 0;
    if (sc.back) std::reverse(qs.begin(), qs.end());
    int done = 0;
    for (auto q : qs) {
      if (sc.per_round && done == sc.per_round) break;
      Req rq = req_of(q);
      x.r.reqs.push_back(rq);
      if (!pick_node(q)) { respond(q, {false, {}, "no more nodes"}); done++; continue; }
      auto an = net(rq);
      respond(q, an ? *an : Answer{false, {}, "no node answers"});
      done++;
    }
  }
  return x.r;
}
inline void clear_caches() {
#ifdef PROVER_CACHE
  now_ms += 1000ull * 3600 * 24 * 400;
  c4_prover_cache_cleanup(now_ms, 0);
  c4_eth_tx_cache_reset();
#endif
}
// ---- a question with the check of an accepted answer ("" if true)
struct Ask {
  std::string method, params;
  std::function<std::string(const Res&)> check;
  size_t      block = 0;    // the newest block the answer is about
  bool        any = false;  // about no block at all
  std::string name() const { return method + params.substr(0, 180); }
};
inline std::string tref(const std::string& r) { return qs(r); }
// the refs of block i
inline std::vector<std::string> refs(const Sim& s, size_t i) {
  std::vector<std::string> r = {qs(hxu(s.b[i].x().blk.number)), qs(hx(s.b[i].x().blk.hash))};
  if (i == s.latest()) r.push_back("\"latest\"");
  if (i == s.justified) r.push_back("\"safe\"");
  if (i == s.finalized) r.push_back("\"finalized\"");
  return r;
}
inline std::vector<Ask> account_asks(const Sim& s, size_t i, const std::string& ref, bool small) {
  std::vector<Ask> r;
  const acc::Db& d = *s.b[i].db;
  const Exec&    x = s.b[i].x();
  for (auto& q0 : acc::queries(d, x, small)) {
    if (q0.ref) continue;
    std::string a = q0.args();
    a = a.substr(0, a.size() - strlen("\"latest\"]")) + ref + "]";
    const acc::Db* dp = &d; const Exec* xp = &x; acc::Q q = q0;
    r.push_back({acc::METH[q.m], a, [dp, xp, q](const Res& z) { std::string t = acc::truth(*dp, *xp, q); return nows(z.json) == t ? "" : "answer " + nows(z.json).substr(0, 300) + " expected " + t.substr(0, 300); }, i});
  }
  return r;
}
inline std::vector<Ask> tx_asks(const Sim& s, size_t i, size_t t, const std::string& ref) {
  std::vector<Ask> r;
  const auto* b = &s.b[i];
  auto chk = [b, t](const Res& z) { return tx_diff(z.json, b->r.txs[t], b->x().blk.hash, b->x().blk.number, (uint32_t) t, b->r.txs[t].price(rcp::BASE)); };
  r.push_back({"eth_getTransactionByHash", "[" + qs(hx(b->r.txs[t].hash)) + "]", chk, i});
  r.push_back({ref.size() == 68 ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex", "[" + ref + "," + qs(hxu(t)) + "]", chk, i});
  r.push_back({"eth_getTransactionReceipt", "[" + qs(hx(b->r.txs[t].hash)) + "]", [b, t](const Res& z) { std::string soft; return rcp::rc_diff(z.json, b->r, t, soft); }, i});
  return r;
}
inline std::vector<Ask> block_asks(const Sim& s, size_t i, const std::string& ref) {
  std::vector<Ask> r;
  const auto* b = &s.b[i];
  for (int full = 0; full < 2; full++)
    r.push_back({ref.size() == 68 ? "eth_getBlockByHash" : "eth_getBlockByNumber", "[" + ref + "," + (full ? "true" : "false") + "]", [b, full](const Res& z) { bk::Bk k; k.txs = b->r.txs; k.x = b->x(); std::string soft; return bk::bk_diff(z.json, k, full, soft); }, i});
  if (ref == "\"latest\"") r.push_back({"eth_blockNumber", "[]", [b](const Res& z) { return nows(z.json) == qs(hxu(b->x().blk.number)) ? "" : "answer " + z.json; }, i});
  return r;
}
inline std::string logs_diff(const Sim& s, const std::vector<Sim::Hit>& h, const Res& z) {
  auto ls = jarr(z.json);
  if (ls.size() != h.size()) return I(ls.size()) + " logs instead of " + I(h.size());
  for (size_t k = 0; k < h.size(); k++) {
    auto& b = s.b[h[k].bi];
    std::string e = rcp::log_diff(ls[k], b.r, h[k].ti, b.r.rcs[h[k].ti].logs[h[k].li]);
    if (e.empty() && jobj(ls[k])["logIndex"] != qs(hxu(s.first_log(h[k].bi, h[k].ti) + h[k].li))) e = "logIndex " + jobj(ls[k])["logIndex"];
    if (e.size()) return "log " + I(k) + ": " + e;
  }
  return "";
}
inline Ask logs_ask(const Sim& s, const std::string& filter) {
  auto h = s.logs(filter, true);
  const Sim* sp = &s;
  Ask a{"eth_getLogs", "[" + filter + "]", [sp, h](const Res& z) { return logs_diff(*sp, h, z); }};
  a.any = h.empty();
  for (auto& x : h) a.block = std::max(a.block, x.bi);
  return a;
}
// what a client knows before it asks
struct Client { std::string name; Bytes state; uint32_t flags = 0; bool net = false; std::function<void()> store; };
static const uint32_t F_UV = 2, F_STORE = 8, F_SYNC = 32;
static uint64_t base_slot(const Chain& ch, int kind) { return exec_slot(ch, kind) + (kind ? 0 : 4 * ch.slots_per_period()); }
// a chain of nine blocks in one period. layout bit i: block i carries no signature of its parent
static Sim make_sim(int ci, int kind, int unsigned_mask, uint64_t first_slot_off, int n, const std::string& salt, uint64_t number = 0xfc) {
  Sim s;
  s.ch = &chain(ci);
  static const int gap[] = {1, 1, 2, 1, 1, 3, 1, 1, 2, 1, 1, 1};
  static const int ntx[] = {2, 0, 3, 1, 5, 2, 4, 1, 3, 2, 1, 2};
  uint64_t slot = base_slot(*s.ch, kind) + first_slot_off;
  for (int i = 0; i < n; i++) {
    size_t t = (i == 4 && kind == 0) ? 130 : ntx[i % 12];
    sim::add_block(s, slot, number + i, sim::some_txs(t, s.ch->id, i + number), sim::some_rcs(t, i), acc::db(i % 3 == 0 ? 7 : i % 3 == 1 ? 1 : 40), i % 3, !(unsigned_mask >> i & 1), salt);
    slot += gap[i % 12];
  }
  s.justified = n > 4 ? n - 4 : 0; s.finalized = n > 6 ? n - 6 : 0;
  return s;
}
static const Sim& the_sim(int ci, int kind, int mask, int n = 9) {
  static std::map<std::string, Sim> m;
  std::string k = I(ci) + "/" + I(kind) + "/" + I(mask) + "/" + I(n);
  auto it = m.find(k);
  if (it == m.end()) it = m.emplace(k, make_sim(ci, kind, mask, 0, n, k)).first;
  return it->second;
}
// four blocks in one period, four more three periods later; the state of the block before the head has the summaries
static Sim make_historic(int ci, int kind, uint64_t off) {
  Sim s; s.ch = &chain(ci);
  uint64_t pt = s.ch->period(base_slot(*s.ch, kind)) + 1, pl = pt + 3, first = s.ch->period(s.ch->forks[2] << s.ch->spe);
  std::string salt = "hist" + I(ci) + I(kind) + I(off);
  for (int i = 0; i < 4; i++) { size_t t = 1 + i; sim::add_block(s, pt * 8192 + off + i * 3, 0x7ffe + i, sim::some_txs(t, s.ch->id, i), sim::some_rcs(t, i), acc::db(7), i % 3, true, salt); }
  std::vector<Bytes> roots; Bytes cur = tag32("before");
  for (uint64_t k = 0; k < 8192; k++) { for (auto& b : s.b) if (b.x().h.slot == pt * 8192 + k) cur = b.root; roots.push_back(cur); }
  s.roots[pt] = roots;
  std::vector<V> rv, sums; for (auto& r : roots) rv.push_back(bv(r));
  Bytes broot = htr(vec(rv));
  std::string js;
  for (uint64_t p = first; p < pl; p++) {
    Bytes a = p == pt ? broot : tag32("sum" + I(p)), b = tag32("st" + I(p));
    sums.push_back(cont({{"block_summary_root", bv(a)}, {"state_summary_root", bv(b)}}));
    js += (js.empty() ? "" : ",") + ("{\"block_summary_root\":" + qs(hx(a))) + ",\"state_summary_root\":" + qs(hx(b)) + "}";
  }
  State st; st.fields = s.ch->fork(pl * 8192) >= ELECTRA ? 37 : 28; st.historical_summaries = list(sums, 1 << 24, true, 64, false); st.salt = salt;
  StateTree T = make_state(st);
  s.summaries_json = "{\"data\":{\"historical_summaries\":[" + js + "],\"proof\":" + list_json(T.br(T.g({"historical_summaries"}))) + ",\"slot\":\"1\"}}";
  for (int i = 0; i < 4; i++) { size_t t = 1 + i; sim::add_block(s, pl * 8192 + 100 + i, 0x8002 + i, sim::some_txs(t, s.ch->id, 10 + i), sim::some_rcs(t, 10 + i), acc::db(7), i % 3, true, salt, i == 2 ? T.root : Bytes()); }
  s.justified = 5; s.finalized = 5;
  return s;
}
static Bytes periods_state(const std::vector<uint64_t>& ps) { Bytes b = B({1}); for (auto p : ps) app(b, le(p, 4)); return b; }
static void know(const Chain& ch, const std::vector<uint64_t>& ps) { reset_store(); std::vector<std::pair<uint32_t, int>> l; for (auto p : ps) l.push_back({(uint32_t) p, sim::hid(p)}); put_periods(ch, l); }
static const char* CL[] = {"plain", "synced", "one-behind", "two-behind", "checkpoint", "fetches-itself", "empty-state"};
static Client client(const Sim& s, int c, uint64_t p) {
  Client  r; r.name = CL[c];
  const Sim* sp = &s;
  switch (c) {
    case 0: r.store = [=] { know(*sp->ch, {p}); }; break;
    case 1: r.state = periods_state({p}); r.flags = F_SYNC; r.store = [=] { know(*sp->ch, {p}); }; break;
    case 2: r.state = periods_state({p - 1}); r.flags = F_SYNC; r.store = [=] { know(*sp->ch, {p - 1}); }; break;
    case 3: r.state = periods_state({p - 3, p - 2}); r.flags = F_SYNC | F_STORE; r.store = [=] { know(*sp->ch, {p - 3, p - 2}); }; break;
    case 4: { Bytes root = const_cast<Sim*>(sp)->checkpoint(p - 1); r.state = cat(B({2}), root); r.flags = F_SYNC; r.store = [=] { reset_store(); put_checkpoint(*sp->ch, root); }; break; }
    case 5: r.state = periods_state({p - 1}); r.net = true; r.store = [=] { know(*sp->ch, {p - 1}); }; break;
    case 6: r.state = {}; r.flags = F_SYNC; r.store = [=] { know(*sp->ch, {p}); }; break;
  }
  return r;
}
static std::string err_sig(std::string e) { // numbers and hex out
  std::string r; for (size_t i = 0; i < e.size() && r.size() < 60; i++) { char c = e[i]; if (isdigit(c)) continue; if (c == 'x' && i && e[i - 1] == '0') { while (i + 1 < e.size() && isxdigit(e[i + 1])) i++; continue; } r += c == '\n' ? ' ' : c; }
  return r;
}
// proves and verifies one question; must: an honest answer has to come
static Pr ask(const Sim& s, const Ask& a, const Client& c, uint32_t flags, bool must, const std::string& what, const std::string& det, const Net* other = nullptr, Sched sc = {}) {
  Net n = s.net();
  Pr  p = prove(a.method, a.params, *s.ch, flags | c.flags, c.state, other ? *other : n, sc);
  std::string d = a.name() + " chain " + I(s.ch->id) + " client " + c.name + " flags " + I(flags) + " " + det;
  outcome(hash64(p.ok ? "proof" : err_sig(p.error), hash64(a.method, hash64(cur_section))));
  if (p.stuck) { violation(what + ":stuck:" + a.method, d + " after " + I(p.rounds) + " rounds, last request " + (p.reqs.size() ? p.reqs.back().url + p.reqs.back().payload : "-")); return p; }
  if (!p.ok) { if (must) violation(what + ":no-proof:" + a.method + ":" + err_sig(p.error), d + " error " + p.error.substr(0, 300)); return p; }
  c.store();
  Res z = verify(p.proof, a.method.c_str(), a.params, *s.ch, c.net ? n : Net());
  outcome(hash64(z.accepted ? "ok" : err_sig(z.error), hash64(a.method, hash64(cur_section))));
  if (must && !z.accepted) violation(what + (z.pending ? ":needs-more:" : ":proof-rejected:") + a.method, d + " error " + z.error.substr(0, 300) + (z.reqs.size() ? " asks " + z.reqs.back().url + z.reqs.back().payload : ""));
  if (z.accepted) { std::string e = a.check(z); if (e.size()) violation(what + ":wrong-answer:" + a.method, d + " " + e); }
  return p;
}
static std::vector<std::string> filters(const Sim& s, size_t lo, size_t hi) {
  std::vector<std::string> r;
  std::set<std::string> seen;
  auto N = [&](size_t i) { return qs(hxu(s.b[i].x().blk.number)); };
  std::string range = "\"fromBlock\":" + N(lo) + ",\"toBlock\":" + N(hi);
  r.push_back("{" + range + "}");
  auto all = s.logs("{" + range + "}");
  for (auto& h : all) {
    auto& l = s.b[h.bi].r.rcs[h.ti].logs[h.li];
    std::string ad = "\"address\":" + qs(hx(l.addr));
    if (seen.insert(ad).second) { r.push_back("{" + range + "," + ad + "}"); r.push_back("{" + range + ",\"address\":[" + qs(hx(l.addr)) + "," + qs(hx(Bytes(20, 1))) + "]}"); }
    for (size_t t = 0; t < l.topics.size(); t++) {
      std::string tp = "\"topics\":["; for (size_t k = 0; k < t; k++) tp += "null,"; 
      if (seen.insert(tp + qs(hx(l.topics[t]))).second) { r.push_back("{" + range + "," + tp + qs(hx(l.topics[t])) + "]}"); r.push_back("{" + range + "," + ad + "," + tp + "[" + qs(hx(tag32("zz"))) + "," + qs(hx(l.topics[t])) + "]]}"); }
    }
  }
  for (size_t i = lo; i <= hi; i++) r.push_back("{\"blockHash\":" + qs(hx(s.b[i].x().blk.hash)) + "}");
  r.push_back("{" + range + ",\"address\":" + qs(hx(Bytes(20, 1))) + "}");
  if (all.size()) { // many addresses
    std::string l = qs(hx(s.b[all[0].bi].r.rcs[all[0].ti].logs[all[0].li].addr));
    for (int i = 0; i < 30; i++) l = qs(hx(Bytes(20, (uint8_t) (0xb0 + i)))) + "," + l;
    r.push_back("{" + range + ",\"address\":[" + l + "]}");
  }
  return r;
}
} // namespace prv
