// C10/C11: how a client comes to trust sync committees (bootstrap, light client updates, weak subjectivity) and what it
// keeps in its storage. Sections lc/... belong to C10, state/... to C11.
#include "carrier.hpp"
using namespace mc;
using namespace world;
extern "C" {
bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t client_updates);
}
static std::string I(uint64_t x) { return std::to_string(x); }
static int hid(uint64_t p) { return 10 + (int) (p % 100); }  // the real committee of a period
static int aid(uint64_t p) { return 200 + (int) (p % 100); } // the committee of an attacker's fork
static std::string salt() { return cur_section + I(cur_case); }
static std::string extra_salt;

// ---- light client updates
struct Upd {
  Header             att, fin;
  const Committee*   next;
  std::vector<Bytes> nb, fb;
  Bits               b = bits(512);
  Bytes              sig;
  uint64_t           sigslot = 0;
  V                  override_next;
  V v() const {
    V x = lc_update(att, *next, nb, fin, fb, b, sig, sigslot);
    return x;
  }
};
struct ST { StateTree t; Header fin; };
static ST& state_for(const Chain& ch, uint64_t slot, int cur, int next, const std::string& who) {
  static std::map<std::string, ST> cache;
  std::string k = I(ch.id) + "/" + I(slot) + "/" + I(cur) + "/" + I(next) + who;
  auto it = cache.find(k);
  if (it != cache.end()) return it->second;
  ST    r;
  State s;
  r.fin.slot = slot - 70; r.fin.proposer = 5; r.fin.parent = tag32("fp" + I(slot) + who); r.fin.state = tag32("fs" + I(slot) + who); r.fin.body = tag32("fb" + I(slot) + who);
  s.fields = ch.fork(slot) >= ELECTRA ? 37 : 28;
  s.cur = &committee(cur); s.next = &committee(next);
  s.fin_epoch = r.fin.slot >> ch.spe; s.fin_root = r.fin.root();
  r.t = make_state(s);
  return cache[k] = r;
}
static Upd make_upd(const Chain& ch, uint64_t p, int signer, int cur, int next, const std::string& who = "", uint64_t off = 1000, int part = 512, int fork = -1, const Chain* dch = nullptr) {
  Upd      u;
  uint64_t slot = (p << (ch.spe + ch.epp)) + off;
  ST&      st = state_for(ch, slot, cur, next, who);
  u.att.slot = slot; u.att.proposer = 3; u.att.parent = tag32("up" + salt() + extra_salt + who); u.att.state = st.t.root; u.att.body = tag32("ub");
  u.fin = st.fin; u.next = &committee(next);
  u.nb = st.t.br(st.t.g({"next_sync_committee"}));
  u.fb = st.t.br(st.t.g({"finalized_checkpoint", "root"}));
  u.b = bits(part);
  u.sig = sign_header(dch ? *dch : ch, u.att, committee(signer), u.b, fork);
  u.sigslot = slot + 1;
  return u;
}
static Upd honest(const Chain& ch, uint64_t p) { return make_upd(ch, p, hid(p), hid(p), hid(p + 1)); }
static Upd attack(const Chain& ch, uint64_t p, bool first) { return make_upd(ch, p, first ? hid(p) : aid(p), first ? hid(p) : aid(p), aid(p + 1), "evil"); }
static Bytes api(const std::vector<Bytes>& ups) { // the beacon API's representation
  Bytes r;
  for (auto& x : ups) { app(r, le(x.size() + 4, 8)); app(r, B({1, 2, 3, 4})); app(r, x); }
  return r;
}
static Bytes api(const std::vector<Upd>& ups) { std::vector<Bytes> l; for (auto& x : ups) l.push_back(ser(x.v())); return api(l); }
static V lcs(const Chain& ch, const std::vector<Upd>& ups, V boot = nullptr) {
  std::vector<V> l;
  for (auto& x : ups) l.push_back(un(ch.fork(x.att.slot) >= ELECTRA ? 1 : 0, x.v()));
  return lc_sync(boot, l);
}
// ---- data proofs of a period
static Header proof_header(const Chain& ch, uint64_t p, uint64_t off, const std::string& s) { return data_header(ch, (p << (ch.spe + ch.epp)) + off, s); }
static Bytes proof_of(const Chain& ch, uint64_t p, int signer, const std::string& s, V sync = nullptr, uint64_t off = 500) {
  Header   h = proof_header(ch, p, off, s);
  Bits     b = bits(512);
  Carrier& c = carrier(ch.fork(h.slot) >= ELECTRA ? 13 : 12);
  return request(nullptr, un(P_BLOCKNUMBER, cont({{"blockNumber", u(c.blk.number, 8)}, {"timestamp", u(c.blk.timestamp, 8)}, {"proof", c.proof}, {"header", h.v()}, {"header_proof", sig_proof(b, sign_header(ch, h, committee(signer), b))}})), sync);
}
static bool parse_updates(const std::string& url, uint64_t& start, uint64_t& count) {
  unsigned long long a, b;
  if (sscanf(url.c_str(), "eth/v1/beacon/light_client/updates?start_period=%llu&count=%llu", &a, &b) != 2) return false;
  start = a; count = b;
  return true;
}
static std::string hexurl(const Bytes& b);
static Answer ok(const Bytes& b) { return {true, b, ""}; }
static Net honest_net(const Chain& ch) {
  return [&ch](const Req& q) -> std::optional<Answer> {
    uint64_t s, n;
    if (parse_updates(q.url, s, n)) {
      std::vector<Upd> l;
      for (uint64_t i = 0; i < n && i < 40; i++) l.push_back(honest(ch, s + i));
      return ok(api(l));
    }
    unsigned long long slot;
    if (sscanf(q.url.c_str(), "eth/v1/beacon/blocks/%llu/root", &slot) == 1) { // the finalized block of an update
      uint64_t p = ch.period(slot + 70);
      return ok(S("{\"data\":{\"root\":\"" + hexurl(state_for(ch, slot + 70, hid(p), hid(p + 1), "").fin.root()) + "\"}}"));
    }
    return std::nullopt;
  };
}
// ---- what is stored
static Bytes affine(const Committee& c) { // the prepared form of the keys
  Bytes r(512 * 96);
  for (int i = 0; i < 512; i++) { blst_p1_affine a; memset(&a, 0, sizeof a); blst_p1_uncompress(&a, &c.keys[48 * i]); memcpy(&r[96 * i], &a, 96); }
  return r;
}
static int who_is(const Bytes& v, uint64_t p) { // 1: the real committee of the period, 2: another, 0: no committee
  if (v.size() < 512 * 48) return 0;
  static std::map<int, Bytes> aff;
  Bytes& a = aff[hid(p)];
  if (a.empty()) a = affine(committee(hid(p)));
  const Bytes& k = committee(hid(p)).keys;
  if ((v.size() == k.size() || v.size() == k.size() + 32) && !memcmp(v.data(), k.data(), k.size())) return 1;
  if ((v.size() == a.size() || v.size() == a.size() + 32) && !memcmp(v.data(), a.data(), a.size())) return 1;
  return 2;
}
// every committee in the storage is the real one of its period, and listed
static void check_stored(const Chain& ch, const std::string& sig, const std::string& detail, bool orphans_ok = false, uint32_t max = 3) {
  std::set<uint32_t> seen;
  auto               l = stored_periods(ch);
  for (auto p : l) {
    if (!seen.insert(p).second) violation(sig + ":period-twice", detail + " period " + I(p));
    auto it = store.find(skey(ch, p));
    if (it == store.end()) violation(sig + ":period-without-keys", detail + " period " + I(p));
  }
  if (l.size() > max) violation(sig + ":too-many-periods", detail + " " + I(l.size()));
  for (auto& kv : store) {
    if (kv.first.compare(0, 5, "sync_")) continue;
    uint64_t p = strtoull(kv.first.c_str() + kv.first.rfind('_') + 1, nullptr, 10);
    if (!seen.count((uint32_t) p) && !orphans_ok) violation(sig + ":keys-without-period", detail + " " + kv.first);
    if (who_is(kv.second, p) != 1) violation(sig + ":false-committee-stored", detail + " " + kv.first + " kind " + I(who_is(kv.second, p)));
  }
}
static void judge(const Res& r, int want /*0 reject 1 accept 2 either*/, const std::string& sig, const std::string& detail) {
  outcome(hash64(r.accepted ? "ok" : r.pending ? "pending" : r.error, hash64(cur_section + sig)));
  if (want == 1 && !r.accepted) violation(sig + ":honest-rejected", detail + " error=" + r.error + (r.pending ? " pending " + (r.reqs.empty() ? "" : r.reqs.back().url) : ""));
  if (want == 0 && r.accepted) violation(sig + ":forgery-accepted", detail);
}
static void flip(Bytes& b, size_t bit) { b[bit / 8] ^= 1 << (bit % 8); }
struct Boot { Header h; StateTree* t; int id; };
static V boot_v(const Header& h, int comm, const std::vector<Bytes>& br) { return lc_bootstrap(h, committee(comm), br); }
static Header boot_header(const Chain& ch, uint64_t p, uint64_t off, const std::string& s, ST*& st) {
  Header h;
  h.slot = (p << (ch.spe + ch.epp)) + off; h.proposer = 9; h.parent = tag32("bp" + s); h.body = tag32("bb");
  st = &state_for(ch, h.slot, hid(p), hid(p + 1), "");
  h.state = st->t.root;
  return h;
}
static std::string hexurl(const Bytes& b) { return "0x" + hex(b); }

int main(int argc, char** argv) {
  init(argc, argv);
  quiet_stderr();
  init_store();
  struct Base { int chain; uint64_t p; const char* name; };
  const std::vector<Base> bases = {{0, 1430, "mainnet/electra"}, {0, 1420, "mainnet/deneb-electra"}, {0, 1606, "mainnet/electra-fulu"}, {2, 2700, "gnosis/electra"}, {1, 900, "sepolia/electra"}, {3, 1100, "chiado/deneb"}};

  // ------------------------------------------------------------------ bootstrap
  if (section("lc/bootstrap"))
    for (auto& bs : bases)
      for (int tr = 0; tr < 3; tr++)      // beacon API with configured checkpoint, sync data with configured checkpoint, checkpointz
        for (int e = 0; e < 60; e++) {
          if (!next()) continue;
          const Chain& ch = chain(bs.chain);
          ST*    st; Header h = boot_header(ch, bs.p, 2000, salt(), st);
          auto   br = st->t.br(st->t.g({"current_sync_committee"}));
          int    comm = hid(bs.p), want = 0, signer = hid(bs.p);
          Bytes  cp = h.root();
          Header shown = h;
          V      v;
          std::string d;
          bool electra = ch.fork(h.slot) >= ELECTRA;
          if (e == 0) { want = 1; d = "honest"; }
          else if (e == 1) { comm = aid(bs.p); signer = aid(bs.p); d = "other committee, honest branch"; }
          else if (e == 2) { ST& f = state_for(ch, h.slot, aid(bs.p), aid(bs.p + 1), "evil"); shown.state = f.t.root; br = f.t.br(f.t.g({"current_sync_committee"})); comm = signer = aid(bs.p); d = "other state in the header"; }
          else if (e == 3) { ST& f = state_for(ch, h.slot, aid(bs.p), aid(bs.p + 1), "evil"); br = f.t.br(f.t.g({"current_sync_committee"})); comm = signer = aid(bs.p); d = "branch of another state"; }
          else if (e == 4) { br = st->t.br(st->t.g({"next_sync_committee"})); comm = signer = hid(bs.p + 1); d = "next committee as the current one"; }
          else if (e == 5) { cp = tag32("other checkpoint"); d = "header is not the checkpoint"; }
          else if (e == 6) { shown.slot ^= 1; d = "slot edited"; }
          else if (e == 7) { shown.slot += ch.slots_per_period(); d = "slot in the next period"; }
          else if (e < 8 + 8 * 6) { int n = (e - 8) / 8, bit = ((e - 8) % 8) * 31 + 7; if (n >= (int) br.size()) continue; flip(br[n], bit); d = "branch node " + I(n) + " bit " + I(bit); }
          else if (e == 56) { shown.parent = tag32("x"); d = "parent edited"; }
          else if (e == 57) { shown.state = tag32("x"); d = "state root edited"; }
          else if (e == 58) { shown.body = tag32("x"); d = "body root edited"; }
          else { shown.proposer++; d = "proposer edited"; }
          v = boot_v(shown, comm, br);
          reset_store();
          if (tr < 2) put_checkpoint(ch, cp);
          V sync = tr == 1 ? lc_sync(un(electra ? 2 : 1, v), {}) : nullptr;
          Res r = verify(proof_of(ch, bs.p, signer, salt(), sync, 3000), "eth_blockNumber", "[]", ch, [&](const Req& q) -> std::optional<Answer> {
            if (q.url.find("light_client/bootstrap/") != std::string::npos) return ok(ser(v));
            if (q.url.find("finality_checkpoints") != std::string::npos) return ok(S("{\"data\":{\"finalized\":{\"epoch\":\"" + I(h.slot >> ch.spe) + "\",\"root\":\"" + hexurl(cp) + "\"}}}"));
            return std::nullopt;
          });
          judge(r, want, "bootstrap", std::string(bs.name) + " transport " + I(tr) + " " + d);
          check_stored(ch, "bootstrap", std::string(bs.name) + " transport " + I(tr) + " " + d);
          if (want == 0 && !stored_periods(ch).empty()) violation("bootstrap:stored-unproven", d);
        }
  // a checkpoint a client was configured with is never replaced by bootstrap data or a later call
  if (section("lc/checkpoint-config"))
    for (int st = 0; st < 3; st++)
      for (int k = 0; k < 3; k++) {
        if (!next()) continue;
        const Chain& ch = chain(0);
        reset_store();
        if (st == 1) put_checkpoint(ch, tag32("A"));
        if (st == 2) put_periods(ch, {{1430, hid(1430)}});
        auto before = store;
        Bytes nw = tag32("B");
        if (k) c4_eth_set_trusted_checkpoint(ch.cid(), nw.data());
        if (k == 2) { Bytes nw2 = tag32("C"); c4_eth_set_trusted_checkpoint(ch.cid(), nw2.data()); }
        step();
        if (st && store != before) violation("checkpoint-replaced", "status " + I(st));
        if (!st && k && store[stkey(ch)] != cat(B({2}), tag32("B"))) violation("checkpoint-not-set", I(k));
        outcome(hash64(I(st * 3 + k)));
      }
  // ------------------------------------------------------------------ updates
  struct Scn { std::vector<Upd> ups; int want; std::string d; int signer; };
  auto edit = [&](const Chain& ch, uint64_t P, int k, int pos, int e) -> std::optional<Scn> {
    Scn s; s.want = 0; s.signer = hid(P + k);
    for (int i = 0; i < k; i++) s.ups.push_back(honest(ch, P + i));
    uint64_t q = P + pos;
    Upd&     x = s.ups[pos];
    uint64_t slot = x.att.slot;
    int      f = ch.fork(slot);
    bool     last = pos == k - 1;
    if (last) s.signer = aid(P + k);
    switch (e) {
      case 0: s.want = 1; s.d = "honest"; s.signer = hid(P + k); break;
      case 1: x.next = &committee(aid(q + 1)); s.d = "next committee replaced"; break;
      case 2: { ST& t = state_for(ch, slot, hid(q), aid(q + 1), "evil"); x.att.state = t.t.root; x.fin = t.fin; x.next = &committee(aid(q + 1)); x.nb = t.t.br(t.t.g({"next_sync_committee"})); x.fb = t.t.br(t.t.g({"finalized_checkpoint", "root"})); s.d = "other state, signature of the honest header"; break; }
      case 3: x = make_upd(ch, q, aid(q), hid(q), aid(q + 1), "evil"); s.d = "signed by an attacker"; break;
      case 4: x = make_upd(ch, q, hid(q + 1), hid(q), aid(q + 1), "evil"); s.d = "signed by the next committee"; break;
      case 5: x = make_upd(ch, q, aid(q + 1), hid(q), aid(q + 1), "evil"); s.d = "signed by the announced committee"; break;
      case 6: x = make_upd(ch, q, hid(q), hid(q), aid(q + 1), "evil", 1000, 341); s.d = "341 participants"; break;
      case 7: x = make_upd(ch, q, hid(q), hid(q), hid(q + 1), "", 1000, 342); s.d = "342 participants"; s.want = 1; s.signer = hid(P + k); break;
      case 8: x = make_upd(ch, q, hid(q), hid(q), aid(q + 1), "evil", 1000, 512, f - 1); s.d = "domain of the previous fork"; break;
      case 9: x = make_upd(ch, q, hid(q), hid(q), aid(q + 1), "evil", 1000, 512, -1, &chain(ch.kind ^ 1)); s.d = "domain of another chain"; break;
      case 10: { ST& t = state_for(ch, slot, hid(q), hid(q + 1), ""); x.next = &committee(hid(q)); x.nb = t.t.br(t.t.g({"current_sync_committee"})); s.d = "current committee presented as the next"; s.signer = last ? hid(q) : hid(P + k); break; }
      case 11: x.fin.slot++; s.d = "finalized slot edited"; break;
      case 12: x.fin.state = tag32("zz"); s.d = "finalized state edited"; break;
      case 13: x.att.slot += ch.slots_per_period(); s.d = "attested slot in the next period"; break;
      case 14: x.att.slot ^= 1; s.d = "attested slot edited"; break;
      case 15: x.att.parent[5] ^= 4; s.d = "attested parent edited"; break;
      case 16: x.b[17] = false; s.d = "one participant less than signed"; break;
      case 17: x = make_upd(ch, q, hid(q), hid(q), hid(q + 1), "", 0); s.d = "attested at the first slot of the period"; s.want = 1; s.signer = hid(P + k); break;
      case 18: x = make_upd(ch, q, hid(q), hid(q), hid(q + 1), "", ch.slots_per_period() - 2); s.d = "attested near the end of the period"; s.want = 1; s.signer = hid(P + k); break;
      case 19: { static Committee c; c = *x.next; c.keys[48 * 300 + 20] ^= 1; x.next = &c; s.d = "one key edited"; break; }
      case 20: { static Committee c; c = *x.next; c.agg[20] ^= 1; x.next = &c; s.d = "aggregate key edited"; break; }
      case 21: x = make_upd(ch, q, hid(q), hid(q), hid(q + 1), "", 64 * 5 + 3); s.d = "other slot"; s.want = 1; s.signer = hid(P + k); break;
      default: {
        int n = e - 22;
        if (n < (int) x.nb.size() * 4) { flip(x.nb[n / 4], (n % 4) * 85); s.d = "committee branch node " + I(n / 4) + " bit " + I((n % 4) * 85); break; }
        n -= x.nb.size() * 4;
        if (n < (int) x.fb.size() * 4) { flip(x.fb[n / 4], (n % 4) * 85); s.d = "finality branch node " + I(n / 4) + " bit " + I((n % 4) * 85); break; }
        n -= x.fb.size() * 4;
        if (n < 24) { flip(x.sig, n * 31 + 5); s.d = "signature bit " + I(n * 31 + 5); break; }
        return std::nullopt;
      }
    }
    return s;
  };
  for (auto& bs : bases)
    if (section(std::string("lc/updates/") + bs.name))
      for (int k = 1; k <= (thorough ? 3 : 2); k++)
        for (int pos = 0; pos < k; pos++)
          for (int tr = 0; tr < 2; tr++)
            for (int e = 0; e < 22 + 24 + 28 + 24; e++) {
              if (!next()) continue;
              const Chain& ch = chain(bs.chain);
              auto s = edit(ch, bs.p, k, pos, e);
              if (!s) continue;
              reset_store();
              put_periods(ch, {{(uint32_t) bs.p, hid(bs.p)}});
              Bytes ans = api(s->ups);
              auto  hn = honest_net(ch);
              Res   r = verify(proof_of(ch, bs.p + k, s->signer, salt(), tr ? lcs(ch, s->ups) : nullptr), "eth_blockNumber", "[]", ch, [&](const Req& q) -> std::optional<Answer> {
                uint64_t a, n;
                if (parse_updates(q.url, a, n)) { if (tr == 0) return ok(ans); return std::nullopt; }
                return std::nullopt;
              });
              std::string d = std::string(bs.name) + " gap " + I(k) + " position " + I(pos) + " transport " + I(tr) + " " + s->d;
              judge(r, s->want, "updates", d);
              check_stored(ch, "updates", d);
              if (k == 1 && e == 0) sample(d);
            }
  // an update at the first slot of a fork
  if (section("lc/fork-boundary"))
    for (int ci = 0; ci < 4; ci++)
      for (int f = DENEB; f <= FULU; f++)
        for (int dlt = -2; dlt <= 2; dlt++)
          for (int sf = f - 1; sf <= f; sf++)
            for (int tr = 0; tr < 2; tr++) {
              const Chain& ch = chain(ci);
              if (f - 1 >= (int) ch.forks.size()) continue;
              uint64_t slot = (ch.forks[f - 1] << ch.spe) + dlt;
              if (ch.fork(slot) < DENEB) continue;
              if (!next()) continue;
              uint64_t p = ch.period(slot), off = slot - (p << (ch.spe + ch.epp));
              if (off < 80) { // keep the finalized header positive and inside
              }
              reset_store();
              put_periods(ch, {{(uint32_t) p, hid(p)}});
              Upd u = make_upd(ch, p, hid(p), hid(p), hid(p + 1), "", off, 512, sf);
              Res r = verify(proof_of(ch, p + 1, hid(p + 1), salt(), tr ? lcs(ch, {u}) : nullptr), "eth_blockNumber", "[]", ch, [&](const Req& q) -> std::optional<Answer> { if (tr == 0) return ok(api(std::vector<Upd>{u})); return std::nullopt; });
              judge(r, sf == ch.fork(slot), "fork-boundary", "chain " + I(ch.id) + " fork " + I(f) + " slot offset " + I(dlt + 10) + "-10 signed as " + I(sf) + " transport " + I(tr));
              check_stored(ch, "fork-boundary", "");
            }
  // all orders, omissions and repetitions of the updates
  if (section("lc/sequences"))
    for (int len = 0; len <= (thorough ? 5 : 4); len++) {
      int total = 1;
      for (int i = 0; i < len; i++) total *= 4;
      for (int code = 0; code < total; code++)
        for (int tr = 0; tr < 3; tr++)     // API (same answer to everything), sync data with honest API, sync data with nothing
          for (int k = 1; k <= 2; k++) {
            if (!next()) continue;
            const Chain& ch = chain(0);
            uint64_t     P = 1430;
            std::vector<Upd> l;
            std::string      d = "[";
            bool ascending = true; uint64_t have = P;
            for (int i = 0, c = code; i < len; i++, c /= 4) {
              uint64_t q = P - 1 + c % 4; // also updates of the period before the known one
              l.push_back(honest(ch, q));
              d += I(q) + " ";
              if (q > have || q < P) ascending = false;
              else if (q == have) have++;
            }
            d += "] gap " + I(k) + " transport " + I(tr);
            reset_store();
            put_periods(ch, {{(uint32_t) P, hid(P)}});
            auto hn = honest_net(ch);
            Res r = verify(proof_of(ch, P + k, hid(P + k), salt(), tr ? lcs(ch, l) : nullptr), "eth_blockNumber", "[]", ch, [&](const Req& q) -> std::optional<Answer> {
              if (tr == 0) return ok(api(l));
              if (tr == 1) return hn(q);
              return std::nullopt;
            });
            bool enough = have >= P + k;
            // periods evicted on the way (limit 3) may be fetched again, so acceptance is only demanded where nothing is evicted before it is needed
            int want = (ascending && enough && have <= P + 2) ? 1 : 2;
            if (tr == 0 && want == 1) // only exactly the requested updates are an honest answer
              for (int i = 0; i < len; i++) if (l[i].att.slot != honest(ch, P + i).att.slot || len != k) want = 2;
            if (tr == 0 && !enough) want = 0;
            if (tr == 2 && !enough) want = 0;
            judge(r, want, "sequences", d);
            check_stored(ch, "sequences", d);
          }
    }
  // ------------------------------------------------------------------ weak subjectivity
  auto wsp_case = [&](const Chain& ch, uint64_t P, int gap, int evil, int ans, int tr, int over) {
    std::string d = "chain " + I(ch.id) + " gap " + I(gap) + (evil == 2 ? " long-range fork naming the finalized header of the real chain" : evil ? " long-range fork" : " real chain") + " answer " + I(ans) + " transport " + I(tr) + " additional " + I(over);
    std::vector<Upd> l;
    auto upd = [&](uint64_t p, bool last) {
      Upd x = evil && p >= P ? attack(ch, p, p == P) : honest(ch, p);
      if (evil == 2 && last) x.fin = honest(ch, p).fin;
      return x;
    };
    for (int i = 0; i < gap + over; i++) l.push_back(upd(P + i, i == gap + over - 1));
    reset_store();
    put_periods(ch, {{(uint32_t) P, hid(P)}});
    int  signer = evil ? aid(P + gap) : hid(P + gap);
    auto net = [&](int an) -> Net {
      return [&, an](const Req& q) -> std::optional<Answer> {
        uint64_t a, n; unsigned long long slot;
        if (parse_updates(q.url, a, n)) {
          std::vector<Upd> x;
          uint64_t m = n + (tr ? 0 : over); for (uint64_t i = 0; i < m && i < 40; i++) x.push_back(upd(a + i, i + 1 == m));
          return ok(api(x));
        }
        if (sscanf(q.url.c_str(), "eth/v1/beacon/blocks/%llu/root", &slot) == 1) {
          uint64_t p = ch.period(slot + 70);
          Bytes real = state_for(ch, slot + 70, hid(p), hid(p + 1), "").fin.root();
          Bytes fork = state_for(ch, slot + 70, p == P ? hid(p) : aid(p), aid(p + 1), "evil").fin.root();
          switch (an) {
            case 0: return ok(S("{\"data\":{\"root\":\"" + hexurl(real) + "\"}}"));
            case 1: return Answer{false, {}, "not available"};
            case 2: return std::nullopt;
            case 3: return ok(S("{\"data\":{\"root\":\"0x\"}}"));
            case 4: return ok(S("{\"code\":404,\"message\":\"not found\"}"));
            case 5: return ok(S("{\"data\":{\"root\":\"" + hexurl(Bytes(32)) + "\"}}"));
            case 6: return ok(S("not json"));
            case 7: return ok(S("{\"data\":{\"root\":\"0x" + std::string(64, 'z') + "\"}}"));
            case 8: return ok(S("{\"data\":{\"root\":\"" + hexurl(evil ? real : fork) + "\"}}"));
          }
        }
        return std::nullopt;
      };
    };
    bool beyond = ((uint64_t) (gap + over) << ch.epp) > ch.wsp;
    int  want = beyond ? (!evil && ans == 0 ? 1 : 0) : evil == 2 ? 2 : 1;
    if (tr == 0 && over && want) want = 2; // more than requested is not an honest answer
    Res  r = verify(proof_of(ch, P + gap, signer, salt(), tr ? lcs(ch, l) : nullptr), "eth_blockNumber", "[]", ch, net(ans));
    judge(r, want, "wsp", d);
    if (want == 0)
      for (auto& kv : store)
        if (!kv.first.compare(0, 5, "sync_") && kv.first != skey(ch, P)) violation("wsp:unconfirmed-committee-stored", d + " " + kv.first);
    // once more, in a new session and without an answer from the checkpoint server
    Res r2 = verify(proof_of(ch, P + gap, signer, salt() + "2", nullptr), "eth_blockNumber", "[]", ch, net(2));
    if (want == 0 && r2.accepted && (tr == 0 || ((uint64_t) gap << ch.epp) > ch.wsp)) violation("wsp:accepted-later", d);
    if (want == 1 && !r2.accepted) violation("wsp:confirmed-sync-lost", d + " " + r2.error);
    if (beyond && over && !r2.accepted) {
      Res r3 = verify(proof_of(ch, P + gap + over, evil ? aid(P + gap + over) : hid(P + gap + over), salt() + "3", nullptr), "eth_blockNumber", "[]", ch, net(2));
      if (want == 0 && r3.accepted) violation("wsp:accepted-later", d + " period " + I(P + gap + over));
    }
  };
  if (section("lc/weak-subjectivity"))
    for (int ci : {2, 3})
      for (int gap = 1; gap <= 5; gap++)
        for (int over = 0; over <= 3; over++)
          for (int evil = 0; evil < 3; evil++)
            for (int ans = 0; ans < 9; ans++)
              for (int tr = 0; tr < 2; tr++) {
                if (!next()) continue;
                wsp_case(chain(ci), ci == 2 ? 2700 : 1900, gap, evil, ans, tr, over);
              }
  if (section("lc/weak-subjectivity-mainnet"))
    for (int gap : {14, 15})
      for (int evil = 0; evil < 3; evil++)
        for (int ans : {0, 1, 2, 8})
          for (int tr = 0; tr < 2; tr++) {
            if (!next()) continue;
            wsp_case(chain(0), 1430, gap, evil, ans, tr, 0);
          }
  // ------------------------------------------------------------------ malformed answers
  if (section("lc/malformed-updates")) {
    const Chain& ch = chain(0);
    auto run = [&](const Bytes& a, const std::string& d) {
      reset_store();
      put_periods(ch, {{1430, hid(1430)}});
      Res r = verify(proof_of(ch, 1431, aid(1431), salt()), "eth_blockNumber", "[]", ch, [&](const Req& q) -> std::optional<Answer> { return ok(a); });
      judge(r, 0, "malformed-updates", d);
      check_stored(ch, "malformed-updates", d);
    };
    Bytes base, one = api(std::vector<Upd>{honest(ch, 1430)});
    std::vector<size_t> cuts;
    for (size_t i = 0; i < 700; i++) cuts.push_back(i);
    for (size_t i = 700; i < one.size(); i += (i % 997 < 4 ? 1 : 31)) cuts.push_back(i);
    for (size_t c : cuts) {
      if (!next()) continue;
      one = api(std::vector<Upd>{honest(ch, 1430)});
      run(Bytes(one.begin(), one.begin() + c), "cut at " + I(c));
    }
    for (uint64_t L : {0ull, 1ull, 3ull, 4ull, 5ull, 11ull, 12ull, 13ull, 16ull, 100ull, 0x7fffffffull, 0xffffffffull, 0x100000000ull, 0xfffffffffffffff0ull, 0xffffffffffffffffull, 0xfffffffffffffff4ull, 0xfffffffffffffff8ull, 0xfffffff4ull, 0xfffffffcull})
      for (int rel = 0; rel < 2; rel++)
        for (int keep : {12, 13, 20, 40, 200, 0}) {
          if (!next()) continue;
          one = api(std::vector<Upd>{honest(ch, 1430)});
          if (rel) { uint64_t v = one.size() - 8 + (int64_t) (L & 0xff) - 4; memcpy(one.data(), &v, 8); }
          else memcpy(one.data(), &L, 8);
          if (keep) one.resize(keep);
          run(one, "length " + I(L) + " relative " + I(rel) + " kept " + I(keep));
        }
    // error messages instead of data, complete and cut
    {
      std::string m = "{\"code\":404,\"message\":\"LC instance not available\"}";
      for (size_t c = 1; c <= m.size(); c++) { if (next()) run(S(m.substr(0, c)), "error message cut at " + I(c)); }
    }
    // a list of offsets in front (second word not zero)
    for (uint32_t o : {0u, 1u, 4u, 8u, 12u, 13u, 100u, 999u})
      for (uint32_t o2 : {1u, 8u, 0x7fffffffu, 0xffffffffu})
        for (uint64_t L : {0ull, 3ull, 4ull, 12ull, 13ull, 100ull, 0xffffffffffffffffull})
          for (int len : {13, 14, 20, 28, 36, 64, 128, 1040}) {
            if (!next()) continue;
            Bytes b(len);
            memcpy(b.data(), &o, 4); memcpy(b.data() + 4, &o2, 4);
            if (o + 8 <= (uint32_t) len) memcpy(b.data() + o, &L, 8);
            run(b, "offset " + I(o) + " second " + I(o2) + " length " + I(L) + " size " + I(len));
          }
    // inner offsets of the update
    for (int f = 0; f < 2; f++)
      for (uint32_t o : {0u, 1u, 4u, 0x7fffffffu, 0xfffffff8u, 0xfffffff9u, 0xfffffffcu, 0xffffffffu})
        for (int keep : {0, 1, 2}) {
          if (!next()) continue;
          Bytes x = ser(honest(ch, 1430).v());
          size_t pos = f == 0 ? 0 : 4 + 512 * 48 + 48 + 6 * 32;
          memcpy(x.data() + pos, &o, 4);
          if (keep == 1) x.resize(x.size() - 1);
          if (keep == 2) x.resize(12);
          run(api(std::vector<Bytes>{x}), "inner offset " + I(f) + " = " + I(o) + " keep " + I(keep));
        }
  }
  if (section("lc/malformed-bootstrap")) {
    const Chain& ch = chain(0);
    for (int tr = 0; tr < 2; tr++)
      for (int c = 0; c < 900; c++) {
        if (!next()) continue;
        ST* st; Header h = boot_header(ch, 1430, 2000, salt(), st);
        Bytes b = ser(boot_v(h, hid(1430), st->t.br(st->t.g({"current_sync_committee"}))));
        if (c < 800) b.resize(c < 400 ? c : b.size() - (c - 400) - 1);
        else { static const uint32_t os[] = {0, 1, 4, 100, 0x7fffffff, 0xfffffff8, 0xfffffff9, 0xfffffffc, 0xffffffff, 0xfffffff7}; memcpy(b.data(), &os[c % 10], 4); if ((c / 10) % 2) b.resize(12); if ((c / 20) % 2) b.resize(8); }
        reset_store();
        put_checkpoint(ch, h.root());
        Bytes rq = proof_of(ch, 1430, aid(1430), salt(), nullptr, 3000);
        if (tr) { // as the bootstrap of the sync data
          V raw = bl(b, 1 << 30);
          rq = proof_of(ch, 1430, aid(1430), salt(), lc_sync(un(2, raw), {}), 3000);
        }
        Res r = verify(rq, "eth_blockNumber", "[]", ch, [&](const Req& q) -> std::optional<Answer> { return ok(b); });
        judge(r, 0, "malformed-bootstrap", "cut/edit " + I(c) + " transport " + I(tr));
        check_stored(ch, "malformed-bootstrap", "cut/edit " + I(c));
      }
  }

  // ================================================================== C11: the stored state
  auto set_period = [&](const Chain& ch, uint32_t p) {
    Bytes   k = committee(hid(p)).keys, prev = Bytes(32, (uint8_t) p);
    step();
    return c4_set_sync_period(p, bytes(k.data(), (uint32_t) k.size()), ch.cid(), prev.data());
  };
  auto after_set = [&](const Chain& ch, const std::vector<uint32_t>& before, uint32_t p, uint32_t max, const std::string& d) {
    uint32_t lim = std::min<uint32_t>(max, MAX_SYNC_PERIODS);
    check_stored(ch, "store", d, false, lim);
    auto now = stored_periods(ch);
    auto has = [&](uint32_t x) { return std::find(now.begin(), now.end(), x) != now.end(); };
    if (!has(p)) violation("store:new-period-missing", d);
    if (!before.empty()) {
      uint32_t lo = *std::min_element(before.begin(), before.end()), hi = *std::max_element(before.begin(), before.end());
      if (lim >= 2 && !has(hi)) violation("store:latest-lost", d);
      if (lim >= 3 && !has(lo)) violation("store:oldest-lost", d);
      if (before.size() < lim || has(p)) {}
      for (auto b : before) if (!has(b) && before.size() < lim) violation("store:needless-eviction", d);
      if (std::find(before.begin(), before.end(), p) != before.end() && before.size() <= lim && now.size() < before.size()) violation("store:needless-eviction", d + " (known period)");
    }
    outcome(hash64(store[stkey(ch)], hash64(I(max))));
  };
  if (section("state/store-sequences"))
    for (uint32_t max : {1u, 2u, 3u, 4u})
      for (int len = 1; len <= (thorough ? 6 : 5); len++) {
        int total = 1; for (int i = 0; i < len; i++) total *= 5;
        for (int code = 0; code < total; code++) {
          if (!next()) continue;
          const Chain& ch = chain(0);
          reset_store(); init_store(max);
          std::string d = "limit " + I(max) + " [";
          for (int i = 0, c = code; i < len; i++, c /= 5) {
            uint32_t p = 1430 + c % 5;
            auto before = stored_periods(ch);
            d += I(p) + " ";
            if (!set_period(ch, p)) violation("store:failed", d);
            if (i == len - 1) after_set(ch, before, p, max, d + "]");
          }
        }
      }
  if (section("state/store-many"))
    for (uint32_t max = 0; max <= 12; max++)
      for (uint32_t max2 = 0; max2 <= 12; max2++)
        for (int order = 0; order < 3; order++)
          for (int n = 1; n <= 14; n++) {
            if (!next()) continue;
            const Chain& ch = chain(0);
            reset_store(); init_store(max);
            for (int i = 0; i < n; i++) {
              if (i == n - 1) init_store(max2);
              uint32_t m = i == n - 1 ? max2 : max;
              if (m == 0) m = 3; // the documented default
              uint32_t p = 1430 + (order == 0 ? i : order == 1 ? 20 - i : (i * 7) % 15);
              auto before = stored_periods(ch);
              set_period(ch, p);
              after_set(ch, before, p, m, "limits " + I(max) + "/" + I(max2) + " order " + I(order) + " n " + I(i + 1));
            }
          }
  init_store();
  // header of period n signed by its committee or by the one before, with every set of known committees
  auto run_fallback = [&](const Chain& ch, uint64_t N, int mask, int base, int signer, uint32_t max, bool used, const std::string& d0) {
    std::vector<std::pair<uint32_t, int>> l;
    for (int i = 0; i < 5; i++) if (mask >> i & 1) l.push_back({(uint32_t) (N - base + i), hid(N - base + i)});
    reset_store(); init_store(max);
    for (auto& x : l) { // as the client would have stored them
      Bytes k = committee(x.second).keys, pa = affine(committee(hid(x.first - 1))), prev = sha256(pa);
      c4_set_sync_period(x.first, bytes(k.data(), (uint32_t) k.size()), ch.cid(), prev.data());
    }
    auto st = stored_periods(ch);
    std::string d = d0 + " known";
    for (auto x : st) d += " " + I(x);
    d += " limit " + I(max) + " header of " + I(N) + " signed by the committee of " + I(N - signer);
    if (used) // the committees were used before
      for (auto x : st) { extra_salt = "u" + I(x); verify(proof_of(ch, x, hid(x), salt() + "u" + I(x)), "eth_blockNumber", "[]", ch, honest_net(ch)); }
    extra_salt = "";
    bool le_n = false, le_s = false, hi = false;
    for (auto x : stored_periods(ch)) { if (x <= N) le_n = true; if (x <= N - signer) le_s = true; if (x > N) hi = true; }
    Res r = verify(proof_of(ch, N, hid(N - signer), salt(), nullptr, 40), "eth_blockNumber", "[]", ch, honest_net(ch));
    int want = le_n && le_s && (signer == 0 || max >= 3) ? 1 : 2;
    if (signer == 2 || !le_n) want = 0;
    (void) hi;
    judge(r, want, "fallback", d);
    check_stored(ch, "fallback", d, false, max);
    init_store();
  };
  if (section("state/fallback"))
    for (uint32_t max : {1u, 2u, 3u, 8u})
      for (int mask = 1; mask < 32; mask++)
        for (int signer = 0; signer < 3; signer++)
          for (int used = 0; used < 2; used++)
            for (int ci : {0, 2}) {
              if (!next()) continue;
              run_fallback(chain(ci), ci == 2 ? 2700 : 1430, mask, 3, signer, max, used, "chain " + I(ci));
            }
  // all histories of verifications of different periods
  if (section("state/histories"))
    for (uint32_t max : {1u, 2u, 3u, 8u})
      for (int len = 1; len <= (thorough ? 5 : 4); len++) {
        int total = 1; for (int i = 0; i < len; i++) total *= 6;
        for (int code = 0; code < total; code++) {
          if (!next()) continue;
          const Chain& ch = chain(0);
          uint64_t     P = 1430;
          reset_store(); init_store(max);
          put_periods(ch, {{(uint32_t) P, hid(P)}});
          std::string d = "limit " + I(max) + " [";
          for (int i = 0, c = code; i < len; i++, c /= 6) {
            uint64_t t = P + c % 6;
            d += I(t) + " ";
            bool reach = false;
            for (auto x : stored_periods(ch)) if (x <= t) reach = true;
            extra_salt = I(i);
            Res r = verify(proof_of(ch, t, hid(t), salt() + I(i)), "eth_blockNumber", "[]", ch, honest_net(ch));
            if (i == len - 1) { judge(r, reach ? 1 : 0, "histories", d + "]"); check_stored(ch, "histories", d + "]", false, max); }
          }
          extra_salt = "";
        }
      }
  init_store();
  // the client is killed between two writes, or in the middle of one, and starts again
  auto crash_case = [&](const Chain& ch, int init_kind, uint64_t target_off, uint32_t max, int budget, int torn, const std::string& d0) -> bool {
    uint64_t P = ch.kind == 2 ? 2700 : 1430;
    ST*      st; Header bh = boot_header(ch, P, 2000, "boot", st);
    Bytes    boot = ser(boot_v(bh, hid(P), st->t.br(st->t.g({"current_sync_committee"}))));
    reset_store(); init_store(max);
    switch (init_kind) {
      case 0: break;                                                        // nothing, asks checkpointz
      case 1: put_checkpoint(ch, bh.root()); break;
      case 2: put_periods(ch, {{(uint32_t) P, hid(P)}}); break;
      case 3: put_periods(ch, {{(uint32_t) P - 3, hid(P - 3)}, {(uint32_t) P - 1, hid(P - 1)}, {(uint32_t) P, hid(P)}}); break;
      case 4: put_periods(ch, {{(uint32_t) P - 1, hid(P - 1)}, {(uint32_t) P, hid(P)}}); store[skey(ch, P)] = affine(committee(hid(P))); break;
    }
    auto hn = honest_net(ch);
    Net  net = [&](const Req& q) -> std::optional<Answer> {
      if (q.url.find("light_client/bootstrap/") != std::string::npos) return ok(boot);
      if (q.url.find("finality_checkpoints") != std::string::npos) return ok(S("{\"data\":{\"finalized\":{\"epoch\":\"" + I(bh.slot >> ch.spe) + "\",\"root\":\"" + hexurl(bh.root()) + "\"}}}"));
      return hn(q);
    };
    store_budget = budget; store_dead = false;
    torn_len = torn;
    crash_armed = true;
    Bytes first = proof_of(ch, P + target_off, hid(P + target_off), salt() + "a", nullptr, 3000);
    if (!setjmp(crash_point)) verify(first, "eth_blockNumber", "[]", ch, net);
    crash_armed = false;
    if (0) verify(proof_of(ch, P + target_off, hid(P + target_off), salt() + "a", nullptr, 3000), "eth_blockNumber", "[]", ch, net);
    bool died = store_dead;
    torn_len = -1;
    store_budget = -1; store_dead = false;
    if (!died) return false; // the run needs fewer writes
    std::string d = d0 + " killed at write " + I(budget + 1) + (torn >= 0 ? " torn after " + I(torn) + " bytes" : "");
    if (torn < 0)
      for (auto p : stored_periods(ch)) {
        auto it = store.find(skey(ch, p));
        if (it == store.end()) violation("crash:period-without-keys", d + " period " + I(p));
        else if (who_is(it->second, p) != 1) violation("crash:false-committee", d + " period " + I(p));
      }
    extra_salt = "b";
    Res f = verify(proof_of(ch, P + target_off, aid(P + target_off), salt() + "c", nullptr, 3001), "eth_blockNumber", "[]", ch, net);
    if (f.accepted) violation("crash:forgery-accepted", d);
    extra_salt = "d";
    Res r = verify(proof_of(ch, P + target_off, hid(P + target_off), salt() + "b", nullptr, 3002), "eth_blockNumber", "[]", ch, net);
    extra_salt = "";
    judge(r, 1, "crash", d);
    check_stored(ch, "crash", d, true, std::max<uint32_t>(max, 3));
    // and the following period
    extra_salt = "e";
    Res r2 = verify(proof_of(ch, P + target_off + 1, hid(P + target_off + 1), salt() + "f", nullptr, 3002), "eth_blockNumber", "[]", ch, net);
    extra_salt = "";
    judge(r2, 1, "crash", d + " next period");
    return true;
  };
  if (section("state/crash"))
    for (int ci : {0, 2})
      for (int kind = 0; kind < 5; kind++)
        for (uint32_t max : {1u, 2u, 3u, 8u})
          for (int off = 0; off <= 2; off++)
            for (int b = 0; b < 14; b++) {
              if (!next()) continue;
              crash_case(chain(ci), kind, off, max, b, -1, "chain " + I(chain(ci).id) + " start " + I(kind) + " limit " + I(max) + " target +" + I(off));
            }
  if (section("state/torn-writes"))
    for (int kind = 0; kind < 5; kind++)
      for (uint32_t max : {1u, 3u})
        for (int off = 0; off <= 1; off++)
          for (int b = 0; b < 8; b++)
            for (int torn : {0, 1, 2, 4, 5, 9, 32, 33, 48, 4096, 12288, 24575, 24576, 24577, 24607, 24608, 24609, 28672, 49104, 49151, 49152, 49153, 49183}) {
              if (!next()) continue;
              crash_case(chain(0), kind, off, max, b, torn, "start " + I(kind) + " limit " + I(max) + " target +" + I(off));
            }
  // the storage stops accepting writes (full disk): the client has to end with an answer or an error
  if (section("state/failing-storage"))
    for (int kind = 0; kind < 5; kind++)
      for (uint32_t max : {1u, 3u})
        for (int off = 0; off <= 2; off++)
          for (int b = 0; b < 14; b++) {
            if (!next()) continue;
            const Chain& ch = chain(0);
            uint64_t     P = 1430;
            ST*          st; Header bh = boot_header(ch, P, 2000, "boot", st);
            Bytes        boot = ser(boot_v(bh, hid(P), st->t.br(st->t.g({"current_sync_committee"}))));
            reset_store(); init_store(max);
            if (kind == 1) put_checkpoint(ch, bh.root());
            if (kind == 2) put_periods(ch, {{(uint32_t) P, hid(P)}});
            if (kind == 3) put_periods(ch, {{(uint32_t) P - 3, hid(P - 3)}, {(uint32_t) P - 1, hid(P - 1)}, {(uint32_t) P, hid(P)}});
            if (kind == 4) { put_periods(ch, {{(uint32_t) P - 1, hid(P - 1)}, {(uint32_t) P, hid(P)}}); store[skey(ch, P)] = affine(committee(hid(P))); }
            auto hn = honest_net(ch);
            store_budget = b;
            for (int evil = 0; evil < 2; evil++) {
              extra_salt = I(evil);
              Res r = verify(proof_of(ch, P + off, evil ? aid(P + off) : hid(P + off), salt() + I(evil), nullptr, 3000), "eth_blockNumber", "[]", ch, [&](const Req& q) -> std::optional<Answer> {
                if (q.url.find("light_client/bootstrap/") != std::string::npos) return ok(boot);
                if (q.url.find("finality_checkpoints") != std::string::npos) return ok(S("{\"data\":{\"finalized\":{\"epoch\":\"" + I(bh.slot >> ch.spe) + "\",\"root\":\"" + hexurl(bh.root()) + "\"}}}"));
                return hn(q);
              });
              judge(r, evil ? 0 : 2, "failing-storage", "start " + I(kind) + " limit " + I(max) + " target +" + I(off) + " writes " + I(b));
            }
            extra_salt = "";
            store_budget = -1; store_dead = false;
          }
  init_store();
  // arbitrary contents of the storage
  if (section("state/corrupt")) {
    const Chain& ch = chain(0);
    uint64_t     P = 1430;
    ST*          st; Header bh = boot_header(ch, P, 2000, "boot", st);
    Bytes        boot = ser(boot_v(bh, hid(P), st->t.br(st->t.g({"current_sync_committee"}))));
    auto run = [&](const std::string& d, bool state_only) {
      Net net = [&](const Req& q) -> std::optional<Answer> {
        if (q.url.find("light_client/bootstrap/") != std::string::npos) return ok(boot);
        if (q.url.find("finality_checkpoints") != std::string::npos) return ok(S("{\"data\":{\"finalized\":{\"epoch\":\"" + I(bh.slot >> ch.spe) + "\",\"root\":\"" + hexurl(bh.root()) + "\"}}}"));
        return honest_net(ch)(q);
      };
      Res f = verify(proof_of(ch, P + 1, aid(P + 1), salt() + "c", nullptr, 3001), "eth_blockNumber", "[]", ch, net);
      if (f.accepted) violation("corrupt:forgery-accepted", d);
      extra_salt = "x";
      Res r = verify(proof_of(ch, P + 1, hid(P + 1), salt() + "d", nullptr, 3001), "eth_blockNumber", "[]", ch, net);
      extra_salt = "";
      judge(r, 2, "corrupt", d);
    };
    for (int first = 0; first < 5; first++)
      for (int len = 0; len <= 44; len++)
        for (int pat = 0; pat < 4; pat++)
          for (int keys = 0; keys < 2; keys++) {
            if (!next()) continue;
            reset_store();
            if (keys) put_periods(ch, {{(uint32_t) P, hid(P)}});
            Bytes b(len);
            for (int i = 1; i < len; i++) b[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? (uint8_t) i : (i % 4 == 1 ? 0x96 : i % 4 == 2 ? 0x05 : 0);
            if (len) b[0] = first == 4 ? 255 : first;
            store[stkey(ch)] = b;
            run("state bytes first " + I(first) + " length " + I(len) + " pattern " + I(pat), true);
          }
    for (int lower = 0; lower < 2; lower++)
      for (int len : {0, 1, 31, 32, 33, 47, 48, 80, 96, 4096, 24000, 24544, 24575, 24576, 24577, 24607, 24608, 24609, 24624, 24656, 30000, 49151, 49152, 49153, 49183, 49184, 49185, 60000})
        for (int pat = 0; pat < 3; pat++) {
          if (!next()) continue;
          reset_store();
          if (lower) put_periods(ch, {{(uint32_t) P, hid(P)}, {(uint32_t) P + 1, hid(P + 1)}});
          else put_periods(ch, {{(uint32_t) P + 1, hid(P + 1)}});
          Bytes b(len, pat == 0 ? 0 : 0xff);
          if (pat == 2) { const Bytes& k = committee(hid(P + 1)).keys; for (int i = 0; i < len && i < (int) k.size(); i++) b[i] = k[i]; }
          store[skey(ch, P + 1)] = b;
          run("keys length " + I(len) + " pattern " + I(pat) + " lower " + I(lower), false);
        }
  }
  finish();
}
