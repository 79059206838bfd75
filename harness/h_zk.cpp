// C28: committees taken over from a zero-knowledge sync proof. The proof system is ideal here: a proof exists exactly for
// statements somebody could prove (zk_verifier.c itself is explored by h_pairing). Statements about another anchor, another
// network or an attacker's own chain can be proven by the attacker.
#include "carrier.hpp"
#include "tx.hpp"
using namespace mc;
using namespace world;
static const Bytes PROGRAM = unhex("00a1d4386b675ba7417eb7da45273b8263093c4470086b9eef10bf28ced86aaf");
static Bytes ideal(const Bytes& pub) { Bytes r = unhex("11223344"); app(r, sha256(cat(S("zk"), pub))); r.resize(260, 0x5a); return r; }
extern "C" bool c4_verify_zk_proof(bytes_t proof, bytes_t pub, const uint8_t* program) {
  if (!program || memcmp(program, PROGRAM.data(), 32)) return false;
  return Bytes(proof.data, proof.data + proof.len) == ideal(Bytes(pub.data, pub.data + pub.len));
}
static std::string I(uint64_t x) { return std::to_string(x); }
static int hid(uint64_t p) { return 10 + (int) (p % 100); }
static int aid(uint64_t p) { return 200 + (int) (p % 100); }
static Bytes anchor(int c) {
  return c == 0 ? unhex("908c6572059da36bb66bac9a7159b7c91e020f2574a2d655f2302985e5282483") : c == 1 ? unhex("cd94a32f4afed68840d26e657d48f944b57b7435e0331ba83c4f9caa2ed075ed") : unhex("910c4591ff6b258d8059b0b3f351a73c1394e806a768d8a6b823056ff27e3f69");
}
static V pk(const Committee& c) { return get(State::comm(c), "pubkeys"); }
static Bytes keyroot(int id) { static std::map<int, Bytes> m; auto it = m.find(id); return it != m.end() ? it->second : m[id] = htr(pk(committee(id))); }
static Bytes statement(const Bytes& anc, const Bytes& kroot, uint64_t period, const Bytes& hroot, const Bytes& dom) { Bytes r = anc; app(r, kroot); app(r, le(period, 8)); app(r, hroot); app(r, dom); return r; }
static Bytes witness_sig(int k, const Bytes& root) {
  Sig s = ecdsa(k, keccak(cat(S("\x19" "Ethereum Signed Message:\n32"), root)));
  Bytes r = s.r; app(r, s.s); r.push_back((uint8_t) (27 + s.parity)); return r;
}
struct Zk {
  const Chain* ch; int ci;
  Bytes vk = PROGRAM, proof; Header att; V keys; std::vector<Header> mid; Header cp; std::vector<Bytes> sigs; int hp = 2;
  uint64_t period() const { return ch->period(att.slot) + 1; }
  V sync() const {
    Bits b = bits(0); std::vector<V> sg; for (auto& s : sigs) sg.push_back(bv(s));
    V hpv = hp == 2 ? header_chain_proof(mid, cp, b, Bytes(96)) : hp == 1 ? historic_proof({tag32("x")}, cp, 5, b, Bytes(96)) : sig_proof(b, Bytes(96));
    return un(2, cont({{"vk_hash", bv(vk)}, {"proof", bv(proof)}, {"header", att.v()}, {"pubkeys", keys}, {"checkpoint", hpv}, {"signatures", list(sg, 16, true, 65, false)}}));
  }
};
// the checkpoint lies n+1 blocks after the attested header (n = -1: it is the attested header)
static void link(Zk& z, int n) {
  z.mid.clear();
  if (n < 0) { z.cp = z.att; return; }
  Bytes last = z.att.root();
  for (int i = 0; i <= n; i++) {
    Header h; h.slot = z.att.slot + 1 + i; h.proposer = 9 + i; h.parent = last; h.state = tag32("ls" + I(i) + I(cur_case)); h.body = tag32("lb" + I(i));
    last = h.root();
    if (i < n) z.mid.push_back(h); else z.cp = h;
  }
}
static Zk honest(int ci, uint64_t p /* the new period */, uint64_t off = 700) {
  Zk z; z.ch = &chain(ci); z.ci = ci;
  z.att.slot = ((p - 1) << (z.ch->spe + z.ch->epp)) + off; z.att.proposer = 3; z.att.parent = tag32("ap" + cur_section + I(cur_case)); z.att.state = tag32("as"); z.att.body = tag32("ab");
  z.keys = pk(committee(hid(p)));
  z.proof = ideal(statement(anchor(ci), keyroot(hid(p)), p, z.att.root(), domain(*z.ch, z.ch->fork(z.att.slot))));
  link(z, -1);
  return z;
}
static Bytes witnesses(const std::vector<int>& k) { Bytes r; for (int x : k) app(r, key_address(x)); return r; }
static uint64_t per(int ci) { const Chain& c = chain(ci); return c.period(c.forks[4] << c.spe) + 3; }
// asks a question about a block of period p signed by committee `signer`
static Res ask(const Zk& z, int signer, uint64_t p, const Bytes& wk) {
  const Chain& ch = *z.ch; Header h = data_header(ch, (p << (ch.spe + ch.epp)) + 99, cur_section + I(cur_case) + I(signer)); Bits b = bits(512);
  Carrier& c = carrier(ch.fork(h.slot) >= ELECTRA ? 13 : 12);
  Bytes rq = request(nullptr, un(P_BLOCKNUMBER, cont({{"blockNumber", u(c.blk.number, 8)}, {"timestamp", u(c.blk.timestamp, 8)}, {"proof", c.proof}, {"header", h.v()}, {"header_proof", sig_proof(b, sign_header(ch, h, committee(signer), b))}})), z.sync());
  return verify(rq, "eth_blockNumber", "[]", ch, nullptr, wk);
}
static bool is_real(const Bytes& v, uint64_t p) { // the keys as sent or prepared
  static std::map<int, Bytes> aff;
  Bytes& a = aff[hid(p)]; const Bytes& k = committee(hid(p)).keys;
  if (a.empty()) { a.resize(512 * 96); for (int i = 0; i < 512; i++) { blst_p1_affine x; memset(&x, 0, sizeof x); blst_p1_uncompress(&x, &k[48 * i]); memcpy(&a[96 * i], &x, 96); } }
  for (auto& f : {k, a}) if ((v.size() == f.size() || v.size() == f.size() + 32) && !memcmp(v.data(), f.data(), f.size())) return true;
  return false;
}
// after the question the store must hold nothing but real committees and the periods it had
static void trusted(const Zk& z, const std::string& what, const std::string& d) {
  for (uint32_t p : stored_periods(*z.ch)) {
    if (!p) continue;
    auto it = store.find(skey(*z.ch, p));
    if (it == store.end()) { violation("zk:" + what + ":period-without-committee", d); continue; }
    if (!is_real(it->second, p)) violation("zk:" + what + ":wrong-committee-stored", d + " period=" + I(p));
  }
}
static bool has(const Zk& z, uint64_t p) { for (uint32_t x : stored_periods(*z.ch)) if (x == p) return true; return false; }
static void setup(const Zk& z, int state) { // 0 nothing known, 1 checkpoint, 2 old period, 3 later period, 4 list full
  reset_store();
  uint32_t p = (uint32_t) z.period();
  if (state == 1) put_checkpoint(*z.ch, tag32("cp"));
  if (state == 2) put_periods(*z.ch, {{p - 7, hid(p - 7)}});
  if (state == 3) put_periods(*z.ch, {{p + 2, hid(p + 2)}});
  if (state == 4) put_periods(*z.ch, {{p - 7, hid(p - 7)}, {p - 6, hid(p - 6)}, {p - 5, hid(p - 5)}});
}
static void good(const Zk& z, int state, const std::vector<int>& w, const std::string& d) {
  setup(z, state);
  Res r = ask(z, hid(z.period()), z.period(), witnesses(w));
  outcome(hash64(d + r.error)); sample(d + (r.accepted ? " accepted" : " " + r.error));
  if (!r.accepted) violation("zk:honest:rejected", d + " error=" + r.error + (r.pending ? " pending " + (r.reqs.size() ? r.reqs[0].url : "") : ""));
  if (!has(z, z.period())) violation("zk:honest:not-stored", d);
  trusted(z, "honest", d);
  setup(z, state);
  Res e = ask(z, aid(z.period()), z.period(), witnesses(w)); // the proof is real, the block is not
  if (e.accepted) violation("zk:honest:block-of-other-committee-accepted", d);
  trusted(z, "honest", d);
}
// must not bring the client to trust anything new; `signer` signs the block in question
static void bad(const Zk& z, int state, const std::vector<int>& w, int signer, const std::string& what, const std::string& d) {
  setup(z, state);
  auto before = store;
  Res r = ask(z, signer, z.period(), witnesses(w));
  outcome(hash64(what + d + r.error)); sample(what + " " + d + " " + r.error);
  if (r.accepted) violation("zk:" + what + ":accepted", d);
  if (store != before) violation("zk:" + what + ":state-changed", d);
}
int main(int argc, char** argv) {
  init(argc, argv);
  quiet_stderr();
  init_store();
  if (section("zk/honest"))
    for (int ci = 0; ci < 3; ci++)
      for (uint64_t dp : {0, 1, 5, 60})
        for (uint64_t off : {0, 1, 700, 8191})
          for (int st = 0; st < 5; st++)
            for (int n : {-1, 0, 2})
              for (int w = 0; w < (thorough ? 4 : 3); w++) {
                if (!next()) continue;
                Zk z = honest(ci, per(ci) + dp, off); link(z, n);
                std::vector<int> ws; for (int k = 1; k <= w; k++) { ws.push_back(k); z.sigs.push_back(witness_sig(k, z.cp.root())); }
                good(z, st, ws, "chain=" + I(ci) + " period=" + I(z.period()) + " slot=" + I(z.att.slot) + " state=" + I(st) + " distance=" + I(n + 1) + " witnesses=" + I(w));
              }
  if (section("zk/fork-boundary")) // the domain is that of the attested slot
    for (int ci = 0; ci < 3; ci++) {
      const Chain& c = chain(ci);
      for (size_t f = 3; f < c.forks.size(); f++)
        for (int d = -2; d <= 2; d++)
          for (int used = 3; used <= 6; used++) {
            if (!next()) continue;
            uint64_t slot = (c.forks[f] << c.spe) + d;
            Zk z = honest(ci, c.period(slot) + 1, slot & (c.slots_per_period() - 1));
            std::string t = "chain=" + I(ci) + " slot=" + I(slot) + " domain-of-fork=" + I(used);
            z.proof = ideal(statement(anchor(ci), keyroot(hid(z.period())), z.period(), z.att.root(), domain(c, used)));
            if (used == c.fork(slot)) { if (c.fork(z.period() << (c.spe + c.epp)) >= DENEB) good(z, 0, {}, t); }
            else if (used <= (int) c.forks.size()) bad(z, 0, {}, hid(z.period()), "domain", t);
          }
    }
  if (section("zk/known")) // a period that is already known is never replaced
    for (int ci = 0; ci < 3; ci++)
      for (int what = 0; what < 3; what++) {
        if (!next()) continue;
        Zk z = honest(ci, per(ci) + 2); uint64_t p = z.period();
        if (what == 1) { z.keys = pk(committee(aid(p))); }
        if (what == 2) { z.keys = pk(committee(aid(p))); z.proof = ideal(statement(anchor((ci + 1) % 3), keyroot(aid(p)), p, z.att.root(), domain(*z.ch, z.ch->fork(z.att.slot)))); }
        for (int s : {hid(p), aid(p)}) {
          reset_store(); put_periods(*z.ch, {{(uint32_t) p, hid(p)}});
          Res r = ask(z, s, p, {});
          std::string d = "chain=" + I(ci) + " data=" + I(what) + " signer=" + I(s);
          if (s == aid(p) && r.accepted) violation("zk:known:wrong-block-accepted", d);
          if (s == hid(p) && what == 0 && !r.accepted) violation("zk:known:rejected", d + " " + r.error);
          trusted(z, "known", d);
        }
      }
  if (section("zk/header-bytes"))
    for (int ci = 0; ci < 3; ci++)
      for (int i = 0; i < 112; i++)
        for (int e : {1, 0x80}) {
          if (!next()) continue;
          Zk z = honest(ci, per(ci)); uint64_t p = z.period();
          Bytes b = ser(z.att.v()); b[i] ^= (uint8_t) e;
          Header h; memcpy(&h.slot, &b[0], 8); memcpy(&h.proposer, &b[8], 8); h.parent = Bytes(&b[16], &b[48]); h.state = Bytes(&b[48], &b[80]); h.body = Bytes(&b[80], &b[80] + 32);
          z.att = h; link(z, -1);
          setup(z, 0); auto before = store;
          Res r = ask(z, hid(p), p, {});
          std::string d = "chain=" + I(ci) + " byte=" + I(i) + " xor=" + I(e);
          outcome(hash64(d + r.error));
          if (r.accepted) violation("zk:header-bytes:accepted", d);
          if (store != before) violation("zk:header-bytes:state-changed", d);
        }
  if (section("zk/keys")) // every key of the committee replaced, exchanged, cut
    for (int i = 0; i < 512; i++)
      for (int e = 0; e < 3; e++) {
        if (!next()) continue;
        Zk z = honest(i % 3, per(i % 3)); uint64_t p = z.period();
        auto k = std::make_shared<Val>(*z.keys);
        if (e == 0) k->kids[i] = pk(committee(aid(p)))->kids[i];
        if (e == 1) std::swap(k->kids[i], k->kids[(i + 1) % 512]);
        if (e == 2) { Bytes x = k->kids[i]->data; x[(i * 7) % 48] ^= (uint8_t) (1 << (i % 8)); k->kids[i] = bv(x); }
        if (ser(k) == ser(z.keys)) continue; // a committee may contain a validator twice
        z.keys = k;
        bad(z, 0, {}, hid(p), "keys", "key=" + I(i) + " edit=" + I(e));
      }
  if (section("zk/proof-bytes"))
    for (int part = 0; part < 2; part++)
      for (int i = 0; i < (part ? 260 : 32) * 8; i++) {
        if (!next()) continue;
        Zk z = honest(0, per(0)); Bytes& x = part ? z.proof : z.vk; x[i / 8] ^= (uint8_t) (1 << (i % 8));
        bad(z, 0, {}, hid(z.period()), part ? "proof" : "vk", "bit=" + I(i));
      }
  if (section("zk/forged")) // proofs an attacker can make: own anchor, other networks' anchors and domains, other programs, real statements about something else
    for (int ci = 0; ci < 3; ci++)
      for (int st = 0; st < 5; st++)
        for (int v = 0; v < 16; v++)
          for (int w = 0; w < 2; w++) {
            if (!next()) continue;
            Zk z = honest(ci, per(ci) + 4); uint64_t p = z.period(); const Chain& c = *z.ch; int o = (ci + 1) % 3, f = c.fork(z.att.slot);
            Bytes dom = domain(c, f), hr = z.att.root(), ek = keyroot(aid(p)), hk = keyroot(hid(p));
            z.keys = pk(committee(aid(p))); int signer = aid(p);
            auto st_ = [&](Bytes a, Bytes k, uint64_t pp, Bytes h, Bytes d) { z.proof = ideal(statement(a, k, pp, h, d)); };
            switch (v) {
              case 0: st_(keyroot(aid(p - 5)), ek, p, hr, dom); break;                        // the attacker's own anchor
              case 1: st_(anchor(o), ek, p, hr, dom); break;                                  // another network's anchor
              case 2: st_(anchor(o), ek, p, hr, domain(chain(o), f)); break;                  // another network
              case 3: st_(Bytes(32), ek, p, hr, dom); break;                                  // empty anchor
              case 4: st_(anchor(ci), hk, p, hr, dom); break;                                 // true statement, other keys sent
              case 5: st_(ek, ek, p, hr, dom); break;                                         // anchor = new keys
              case 6: st_(hr, ek, p, hr, dom); break;
              case 7: st_(anchor(ci), ek, p, hr, domain(chain(o), f)); break;                 // domain of another network
              case 8: st_(anchor(ci), ek, p, hr, Bytes(32)); break;                           // no domain
              case 9: st_(anchor(ci), ek, p, hr, domain(c, f, B({1, 0, 0, 0}))); break;       // other signature domain
              case 10: z.keys = pk(committee(hid(p - 1))); signer = hid(p - 1); st_(anchor(ci), keyroot(hid(p - 1)), p - 1, hr, dom); break; // the committee of an earlier period
              case 11: z.keys = pk(committee(hid(p + 1))); signer = hid(p + 1); st_(anchor(ci), keyroot(hid(p + 1)), p + 1, hr, dom); break; // of a later one
              case 12: { Header h = z.att; h.slot -= c.slots_per_period(); z.keys = pk(committee(hid(p - 1))); signer = hid(p - 1); st_(anchor(ci), keyroot(hid(p - 1)), p - 1, h.root(), dom); break; } // true, with another header
              case 13: st_(anchor(ci), ek, 0, hr, dom); break;
              case 14: st_(anchor(ci), ek, p, Bytes(32), dom); break;
              case 15: z.vk = tag32("other program"); st_(anchor(ci), ek, p, hr, dom); break; // a proof of a program of the attacker
            }
            std::vector<int> ws; if (w) { ws = {1}; z.sigs.push_back(witness_sig(1, z.cp.root())); }
            bad(z, st, ws, signer, "forged-" + I(v), "chain=" + I(ci) + " state=" + I(st) + " witnesses=" + I(w));
          }
  if (section("zk/witness")) { // every list of up to 3 (4) signatures out of 8 x sets of configured witnesses
    int K = 8, L = thorough ? 4 : 3;
    for (int ws = 0; ws < 8; ws++)
      for (int len = 0; len <= L; len++) {
        uint64_t N = 1; for (int i = 0; i < len; i++) N *= K;
        for (uint64_t x = 0; x < N; x++) {
          if (!next()) continue;
          Zk z = honest(0, per(0)); link(z, (int) (x % 3) - 1);
          std::vector<int> w; for (int k = 1; k <= 3; k++) if (ws >> (k - 1) & 1) w.push_back(k);
          std::set<int> signedby; bool clean = true; std::string d = "witnesses=" + I(ws) + " distance=" + I(x % 3) + " signatures=";
          uint64_t y = x;
          for (int i = 0; i < len; i++, y /= K) {
            int s = (int) (y % K); Bytes g; d += I(s) + ",";
            if (s < 3) { g = witness_sig(s + 1, z.cp.root()); signedby.insert(s + 1); }
            else {
              clean = false;
              if (s == 3) g = witness_sig(1, tag32("something else"));
              if (s == 4) g = witness_sig(2, z.cp.parent);
              if (s == 5) { g = witness_sig(1, z.cp.root()); g[40] ^= 4; }
              if (s == 6) { Sig q = ecdsa(1, z.cp.root()); g = q.r; app(g, q.s); g.push_back((uint8_t) (27 + q.parity)); } // without the message prefix
              if (s == 7) g = Bytes(65);
            }
            z.sigs.push_back(g);
          }
          bool all = true, extra = false; for (int k : w) all &= signedby.count(k) > 0;
          for (int k : signedby) extra |= std::find(w.begin(), w.end(), k) == w.end();
          if (!all) bad(z, 0, w, hid(z.period()), "witness-missing", d);
          else if (clean && !extra && signedby.size() == (size_t) len) good(z, 0, w, d); // exactly the configured ones, once each
        }
      }
  }
  if (section("zk/link")) // the signed checkpoint must be linked to the attested header
    for (int n : {-1, 0, 1, 2, 3})
      for (int h = 0; h <= n + 1; h++)
        for (int i = 0; i < 112; i++) {
          if (h < n && i >= 16 && i < 48) continue; // the parents are not part of the headers in between
          if (n < 0 && h > 0) continue;
          if (!next()) continue;
          Zk z = honest(1, per(1)); link(z, n);
          Header* t = n < 0 || h == n ? &z.cp : h < n ? &z.mid[h] : nullptr;
          if (!t) { // a checkpoint that has nothing to do with the attested header
            link(z, n); z.cp = data_header(*z.ch, z.att.slot + 50 + i, "unrelated"); if (i % 2) z.mid.clear();
          }
          else { Bytes b = ser(t->v()); b[i] ^= 1; memcpy(&t->slot, &b[0], 8); memcpy(&t->proposer, &b[8], 8); t->parent = Bytes(&b[16], &b[48]); t->state = Bytes(&b[48], &b[80]); t->body = Bytes(&b[80], &b[80] + 32); }
          std::string d = "distance=" + I(n + 1) + " header=" + I(h) + " byte=" + I(i);
          // the witness signs what was linked before the edit of a header in between; an edited last header is signed as it is
          Header cp = z.cp; z.sigs.push_back(witness_sig(1, cp.root()));
          if (t == &z.cp && n >= 0 && !(i >= 16 && i < 48)) good(z, 0, {1}, d); // any child of the chain may be the checkpoint
          else bad(z, 0, {1}, hid(z.period()), "link", d);
        }
  if (section("zk/checkpoint-kind"))
    for (int hp : {0, 1, 2})
      for (int st = 0; st < 5; st++)
        for (int w = 0; w < 2; w++) {
          if (!next()) continue;
          Zk z = honest(0, per(0)); z.hp = hp; std::vector<int> ws;
          if (w) { ws = {2}; z.sigs.push_back(witness_sig(2, z.cp.root())); }
          std::string d = "kind=" + I(hp) + " state=" + I(st) + " witnesses=" + I(w);
          if (hp == 2) good(z, st, ws, d); else if (w) bad(z, st, ws, hid(z.period()), "checkpoint-kind", d);
        }
  finish();
}
