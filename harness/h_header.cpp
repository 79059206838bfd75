// C09: acceptance of beacon headers by sync committee signatures: all participation counts, single-bit differences,
// committees, fork boundaries, header chains, historic proofs, and their forgeries.
#include "carrier.hpp"
using namespace mc;
using namespace world;
static std::string EXPECT;
static void expect(bool want, const Bytes& rq, const Chain& ch, const std::string& sig, const std::string& detail) {
  Res r = verify(rq, "eth_blockNumber", "[]", ch);
  outcome(hash64(r.accepted ? "ok" : r.error, hash64(cur_section)));
  if (r.pending) { violation(sig + ":asks-for-data", detail + " url=" + (r.reqs.empty() ? "" : r.reqs[0].url)); return; }
  if (r.accepted != want) violation(sig + (want ? ":honest-rejected" : ":forgery-accepted"), detail + " error=" + r.error);
  else if (want && r.json != "0x1312d00" && r.json != "\"0x1312d00\"") violation(sig + ":wrong-result", detail + " result=" + r.json);
}
static void fresh(const Chain& ch, const std::vector<std::pair<uint32_t, int>>& p) { reset_store(); put_periods(ch, p); }
static std::string I(uint64_t x) { return std::to_string(x); }
int main(int argc, char** argv) {
  init(argc, argv);
  quiet_stderr();
  init_store();
  const Chain& M = chain(0);
  // the salt makes every signed message of a case unique, so no earlier case can have left a trace of it
  auto salt = []() { return cur_section + I(cur_case); };
  if (section("sig/participation")) // every number of participants, first ones and last ones
    for (int k = 0; k <= 512; k++)
      for (int from : {0, 512 - k, 171}) {
        if (!next()) continue;
        uint64_t slot = M.forks[4] * 32 + 100;
        Header   h    = data_header(M, slot, salt());
        fresh(M, {{(uint32_t) M.period(slot), 1}});
        put_periods(M, {{(uint32_t) M.period(slot) - 1, 9}, {(uint32_t) M.period(slot), 1}});
        Bits b = bits(k, from);
        expect(3 * k >= 2 * 512, req(M, h, sig_proof(b, sign_header(M, h, committee(1), b))), M, "participation", "participants=" + I(k) + " first=" + I(from % 512));
      }
  if (section("sig/bit-edits")) // claimed participants differ from the signers in one position
    for (int i = 0; i < 512; i++)
      for (int base : {400, 512}) {
        if (!next()) continue;
        uint64_t slot = M.forks[4] * 32 + 100;
        Header   h    = data_header(M, slot, salt());
        put_periods(M, {{(uint32_t) M.period(slot) - 1, 9}, {(uint32_t) M.period(slot), 1}});
        Bits b = bits(base), c = b;
        c[i]   = !c[i];
        expect(false, req(M, h, sig_proof(c, sign_header(M, h, committee(1), b))), M, "participants-edited", "bit " + I(i) + " of " + I(base));
      }
  if (section("sig/signature-edits")) { // every bit of the signature
    for (int i = 0; i < 96 * 8; i++) {
      if (!next()) continue;
      uint64_t slot = M.forks[4] * 32 + 100;
      Header   h    = data_header(M, slot, salt());
      put_periods(M, {{(uint32_t) M.period(slot) - 1, 9}, {(uint32_t) M.period(slot), 1}});
      Bits  b = bits(512);
      Bytes s = sign_header(M, h, committee(1), b);
      s[i / 8] ^= 1 << (i % 8);
      expect(false, req(M, h, sig_proof(b, s)), M, "signature-edited", "bit " + I(i));
    }
    for (int k = 0; k < 3; k++) { // degenerate signatures and an empty participant set
      if (!next()) continue;
      uint64_t slot = M.forks[4] * 32 + 100;
      Header   h    = data_header(M, slot, salt());
      put_periods(M, {{(uint32_t) M.period(slot) - 1, 9}, {(uint32_t) M.period(slot), 1}});
      Bytes s(96);
      if (k == 1) { s[0] = 0xa0; }
      if (k == 2) { s[0] = 0xc0; }
      expect(false, req(M, h, sig_proof(bits(0), s)), M, "empty-signature", "kind " + I(k));
    }
  }
  if (section("sig/header-edits")) // the header presented differs from the signed one in one bit (112 bytes)
    for (int i = 0; i < 112 * 8; i++) {
      if (!next()) continue;
      uint64_t slot = M.forks[4] * 32 + 100;
      Header   h    = data_header(M, slot, salt()), g = h;
      int      by = i / 8, m = 1 << (i % 8);
      if (by < 8) g.slot ^= (uint64_t) m << (8 * by);
      else if (by < 16) g.proposer ^= (uint64_t) m << (8 * (by - 8));
      else if (by < 48) g.parent[by - 16] ^= m;
      else if (by < 80) g.state[by - 48] ^= m;
      else g.body[by - 80] ^= m;
      std::vector<std::pair<uint32_t, int>> st = {{(uint32_t) M.period(slot) - 1, 9}, {(uint32_t) M.period(slot), 1}};
      uint32_t gp = (uint32_t) M.period(g.slot + 1);
      reset_store();
      put_periods(M, st);
      Bits b = bits(512);
      Bytes rq = req(M, g, sig_proof(b, sign_header(M, h, committee(1), b)));
      Res  r  = verify(rq, "eth_blockNumber", "[]", M);
      outcome(hash64(r.accepted ? "ok" : r.error, hash64(cur_section)));
      if (r.accepted) violation("header-edited:forgery-accepted", "bit " + I(i) + " period " + I(gp));
    }
  if (section("sig/committees")) // which committee may sign for which slot
    for (int ci = 0; ci < 4; ci++)
      for (int off = -2; off <= 2; off++)        // slot relative to the start of a period
        for (int signer = -3; signer <= 2; signer++) // committee of the period of slot 'start'+signer
          for (int known = 0; known < 2; known++) {  // storage order of the known periods
            if (!next()) continue;
            const Chain& ch = chain(ci);
            uint64_t     p  = ((ch.forks[4] >> ch.epp) + 3);
            uint64_t     slot = p * ch.slots_per_period() + off;
            Header       h    = data_header(ch, slot, salt());
            std::vector<std::pair<uint32_t, int>> st;
            for (int d = -3; d <= 2; d++) st.push_back({(uint32_t) (p + d), 10 + d});
            if (known) std::reverse(st.begin(), st.end());
            reset_store();
            put_periods(ch, st);
            Bits b  = bits(512);
            int  sp = (int) (ch.period(slot + 1) - p); // the period whose committee signs: that of the following slot
            // documented: the committee of the preceding period is still accepted (delayed finality at the period boundary)
            bool want = signer == sp || signer == sp - 1;
            expect(want, req(ch, h, sig_proof(b, sign_header(ch, h, committee(10 + signer), b))), ch, "committee", "chain " + I(ch.id) + " slot offset " + I(off) + " signed by period offset " + I(signer));
          }
  if (section("sig/domains")) // fork versions around every fork boundary, other chains, other domain types
    for (int ci = 0; ci < 4; ci++)
      for (size_t f = 3; f < chain(ci).forks.size(); f++)
        for (int off = -33; off <= 33; off++) {
          if (abs(off) > 2 && abs(off) < 15) continue;
          for (int sf = 0; sf <= 7; sf++)
            for (int sc = 0; sc < 4; sc++)
              for (int ty : {7, 0, 8, 4}) {
                if (sc != ci && sf != 4 + (int) f % 3 && sf != chain(ci).fork(chain(ci).forks[f] << chain(ci).spe)) continue;
                if (ty != 7 && sc != ci) continue;
                if (f == 3 && off < 0) continue; // before deneb: no payload proofs
                if (!next()) continue;
                const Chain& ch = chain(ci);
                uint64_t slot = (ch.forks[f] << ch.spe) + off;
                Header h = data_header(ch, slot, salt());
                reset_store();
                uint64_t p = ch.period(slot + 1);
                put_periods(ch, {{(uint32_t) p - 1, 9}, {(uint32_t) p, 1}});
                Bits b = bits(512);
                Bytes sig = sign(committee(1), b, signing_root(h.root(), domain(chain(sc), sf, B({ty, 0, 0, 0}))));
                // compare the domain itself: different descriptions may denote the same one
                bool want = domain(chain(sc), sf, B({ty, 0, 0, 0})) == domain(ch, ch.fork(slot));
                expect(want, req(ch, h, sig_proof(b, sig)), ch, "domain", "chain " + I(ch.id) + " fork " + I(f + 1) + " slot offset " + I(off) + " signed as fork " + I(sf) + " of chain " + I(chain(sc).id) + " type " + I(ty));
              }
        }
  if (section("sig/history")) // what was accepted before must not make anything unsigned acceptable
    for (int seq = 0; seq < (thorough ? 4096 : 1024); seq++)
      for (int fill : {0, 9, 10, 11}) {
        if (!next()) continue;
        uint64_t slot = M.forks[4] * 32 + 100;
        uint32_t per = (uint32_t) M.period(slot);
        Header   h[2] = {data_header(M, slot, salt() + "a"), data_header(M, slot + 1, salt() + "b")};
        Bits     b = bits(400);
        bool     seen[2] = {false, false};
        std::string hist;
        for (int d = 0; d < (thorough ? 6 : 5); d++) {
          int op = (seq >> (2 * d)) & 3, i = op & 1;
          reset_store();
          put_periods(M, {{per - 1, 9}, {per, 1}});
          if (d == 1) for (int k = 0; k < fill; k++) { Header x = data_header(M, slot + 2 + k, salt()); verify(req(M, x, sig_proof(b, sign_header(M, x, committee(1), b))), "eth_blockNumber", "[]", M); }
          if (op & 2) { // a header with a signature of strangers
            Res r = verify(req(M, h[i], sig_proof(b, sign_header(M, h[i], committee(3), b))), "eth_blockNumber", "[]", M);
            hist += i ? " forgedB" : " forgedA";
            if (r.accepted && !seen[i]) violation("history:forgery-accepted", "after" + hist + " fill " + I(fill));
          }
          else {
            Res r = verify(req(M, h[i], sig_proof(b, sign_header(M, h[i], committee(1), b))), "eth_blockNumber", "[]", M);
            hist += i ? " honestB" : " honestA";
            if (!r.accepted) violation("history:honest-rejected", "after" + hist + " fill " + I(fill) + ": " + r.error);
            seen[i] = true;
          }
          outcome(hash64(hist, fill));
        }
      }
  if (section("sig/history-chains")) // a header accepted for one network vouches for nothing in another one
    for (int ci = 0; ci < 4; ci++)
      for (int cj = 0; cj < 4; cj++)
        for (int who = 0; who < 3; who++)
          for (int rounds = 1; rounds <= 2; rounds++) {
            if (ci == cj || !next()) continue;
            const Chain &a = chain(ci), &o = chain(cj);
            uint64_t     slot = std::max(a.forks[4] << a.spe, o.forks[4] << o.spe) + 100;
            Header       h    = data_header(a, slot, salt());
            Bits         b    = bits(512);
            reset_store();
            auto known = [&](const Chain& c, int k) { uint32_t p = (uint32_t) c.period(slot + 1); put_periods(c, {{p - 1, k + 1}, {p, k}}); };
            known(a, 1); known(o, 3);
            Bytes sig = sign_header(a, h, committee(1), b);
            for (int r = 0; r < rounds; r++) expect(true, req(a, h, sig_proof(b, sig)), a, "chains", "signed header of chain " + I(a.id) + " slot " + I(slot));
            // the other network: the same signature, one by the other network's committee for the first network, one by strangers
            Bytes other = who == 0 ? sig : who == 1 ? sign_header(a, h, committee(3), b) : sign_header(o, h, committee(7), b);
            expect(false, req(o, h, sig_proof(b, other)), o, "chains", "chain " + I(o.id) + " after the same header was accepted for chain " + I(a.id) + " signer " + I(who));
            expect(true, req(o, h, sig_proof(b, sign_header(o, h, committee(3), b))), o, "chains", "chain " + I(o.id) + " signed by its own committee");
          }
  if (section("bls/aggregate")) { // the aggregation itself: all subsets of small key lists with repeated keys, every mode
    static int order; // how the host runs the parallel chunks
    auto pf = +[](int from, int to, c4_parallel_for_body_fn fn, void* ctx) {
      if (order == 1) for (int i = from; i < to; i++) fn(i, ctx);
      else if (order == 2) for (int i = to - 1; i >= from; i--) fn(i, ctx);
      else { for (int i = from; i < to; i += 2) fn(i, ctx); for (int i = from + 1; i < to; i += 2) fn(i, ctx); }
    };
    for (int n : {1, 2, 3, 5, 8, 9, 128, 130, 512})
      for (int pattern = 0; pattern < 4; pattern++)
        for (int sub = 0; sub < (n <= 9 ? 1 << n : 40); sub++)
          for (int mode = 0; mode < 8; mode++)  // deserialized x parallel order
            for (int edit = 0; edit < 3; edit++) {
              if (!next()) continue;
              Bytes keys;
              std::vector<uint64_t> el;
              for (int i = 0; i < n; i++) {
                int   v = pattern == 0 ? i : pattern == 1 ? 0 : pattern == 2 ? i / 2 : (i % 3 ? i : 0);
                Bytes k(48, 5);
                k[0] = 0x80; memcpy(&k[20], &v, 4);
                app(keys, k);
                el.push_back(toy_pk_element(k.data()));
              }
              std::vector<bool> use(n);
              for (int i = 0; i < n; i++) use[i] = n <= 9 ? sub >> i & 1 : sub < 10 ? true : sub < 20 ? i == (sub - 10) * n / 10 : sub < 30 ? i / ((n + 7) / 8) != sub - 20 : (i * 7 + sub) % 3;
              Bytes bb((n + 7) / 8), msg = tag32(salt());
              uint64_t s = 0; int cnt = 0;
              for (int i = 0; i < n; i++) if (use[i]) { bb[i / 8] |= 1 << (i % 8); s = toy_add(s, el[i]); cnt++; }
              static const char dst[] = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
              if (edit == 1) s = toy_add(s, 1);
              Bytes sig(96), m2 = msg;
              if (edit == 2) m2[31] ^= 1;
              toy_sig_encode(sig.data(), toy_mul(s, toy_msg_element(m2.data(), 32, (const byte*) dst, sizeof(dst) - 1)));
              bool want = cnt > 0 && !edit;
              order = mode >> 1;
              c4_set_parallel_for(order ? pf : nullptr);
              bool got;
              if (mode & 1) {
                bytes_t d = blst_deserialize_p1_affine(keys.data(), n, NULL);
                if (d.len != (uint32_t) n * 96) { violation("bls:deserialize-failed", "n=" + I(n)); continue; }
                got = blst_verify(msg.data(), sig.data(), d.data, n, bytes(bb.data(), (uint32_t) bb.size()), true);
                free(d.data);
              }
              else got = blst_verify(msg.data(), sig.data(), keys.data(), n, bytes(bb.data(), (uint32_t) bb.size()), false);
              step();
              outcome(hash64(I(got) + I(mode) + I(edit) + I(cnt)));
              if (got != want) violation(want ? "bls:honest-rejected" : "bls:forgery-accepted", "keys=" + I(n) + " pattern " + I(pattern) + " subset " + I(sub) + " mode " + I(mode) + " edit " + I(edit));
              // wrong bitmap lengths are refused
              Bytes b2 = bb; b2.push_back(0);
              if (blst_verify(msg.data(), sig.data(), keys.data(), n, bytes(b2.data(), (uint32_t) b2.size()), false)) violation("bls:long-bitmap-accepted", I(n));
            }
    c4_set_parallel_for(nullptr);
  }
  if (section("chain/links")) // header chains of every length with one fault each
    for (int n = 0; n <= (thorough ? 12 : 6); n++)
      for (int fault = 0; fault <= n * 5 + 7; fault++) {
        if (!next()) continue;
        uint64_t slot = M.forks[4] * 32 + 100;
        Header   h    = data_header(M, slot, salt());
        std::vector<Header> hs;
        Bytes last = h.root();
        for (int i = 0; i < n; i++) {
          Header x;
          x.slot = slot + 1 + i; x.proposer = i; x.parent = last; x.state = tag32("s" + I(i)); x.body = tag32("b" + I(i));
          last = x.root();
          hs.push_back(x);
        }
        Header s;
        s.slot = slot + 1 + n; s.proposer = 3; s.parent = last; s.state = tag32("ss"); s.body = tag32("sb");
        reset_store();
        put_periods(M, {{(uint32_t) M.period(slot) - 1, 9}, {(uint32_t) M.period(slot), 1}});
        Bits  b   = bits(400);
        Bytes sig = sign_header(M, s, committee(1), b);
        bool  want = true;
        Header hd = h;
        std::string what = "none";
        if (fault && fault <= n * 5) {
          int i = (fault - 1) / 5;
          want  = false;
          switch ((fault - 1) % 5) {
            case 0: hs[i].slot ^= 1; what = "slot"; break;
            case 1: hs[i].proposer ^= 1ull << 63; what = "proposer"; break;
            case 2: hs[i].state[31] ^= 1; what = "state"; break;
            case 3: hs[i].body[0] ^= 1; what = "body"; break;
            case 4: if (i + 1 < n) { std::swap(hs[i], hs[i + 1]); what = "swap"; } else { hs.erase(hs.begin() + i); what = "drop"; } break;
          }
        }
        else if (fault > n * 5) switch (fault - n * 5) {
          case 1: hd.state[0] ^= 1; want = false; what = "start header"; break;
          case 2: s.parent[5] ^= 1; want = false; what = "signed header parent"; break;
          case 3: s.state[5] ^= 1; want = false; what = "signed header state"; break;
          case 4: hs.push_back(s); want = false; what = "extra header"; break;
          case 5: b = bits(341); sig = sign_header(M, s, committee(1), b); want = false; what = "too few participants"; break;
          case 6: sig = sign_header(M, h, committee(1), b); want = false; what = "signature of the start header"; break;
          case 7: sig = sign_header(M, s, committee(9), b, -1); want = true; what = "previous committee"; break;
        }
        expect(want, req(M, hd, header_chain_proof(hs, s, b, sig)), M, "header-chain", "length " + I(n) + " fault " + what + " (" + I(fault) + ")");
      }
  // historic proofs: the data header's root inside the state of a signed header
  for (int el = 0; el < 2; el++) {
    static V br, hsum; static std::vector<Bytes> roots; static Header target;
    std::string suffix = el ? "electra" : "deneb";
    if (!(section("historic/" + suffix))) continue;
    uint64_t sslot = (el ? M.forks[4] : M.forks[3]) * 32 + 8192 * 40 + 17;
    uint64_t dslot = sslot - 8192 * 6 - 100;
    target = data_header(M, dslot, suffix);
    // period store: 8192 block roots, a run of different and equal ones, the target at its slot
    std::vector<V> rv;
    for (int i = 0; i < 8192; i++) rv.push_back(bv(i == (int) (dslot % 8192) ? target.root() : tag32("root" + I(i / 3))));
    V        blocks = vec(rv);
    NodeMap  bm;
    Bytes    broot = htr(blocks, &bm);
    std::vector<V> sums;
    for (int i = 0; i < 5; i++) sums.push_back(cont({{"block_summary_root", bv(i == 2 ? broot : tag32("bs" + I(i)))}, {"state_summary_root", bv(tag32("ss" + I(i)))}}));
    State st;
    st.fields               = el ? 37 : 28;
    st.salt                 = suffix;
    st.historical_summaries = list(sums, 1 << 24, true, 64, false);
    st.block_roots          = blocks;
    Bytes forged_root; Header forged = data_header(M, dslot, "forged");
    // an attacker's validator with the forged header's root as withdrawal credentials
    std::vector<V> vals;
    for (int i = 0; i < 3; i++) vals.push_back(cont({{"pubkey", bv(Bytes(48, i))}, {"withdrawal_credentials", bv(i == 1 ? forged.root() : tag32("wc"))}, {"effective_balance", u(32, 8)}, {"slashed", u(0, 1)}, {"a", u(0, 8)}, {"b", u(0, 8)}, {"c", u(0, 8)}, {"d", u(0, 8)}}));
    st.validators = list(vals, 1ull << 40, true, 121, false);
    StateTree T = make_state(st);
    Header s; s.slot = sslot; s.proposer = 5; s.parent = tag32("sp"); s.state = T.root; s.body = tag32("sb");
    put_periods(M, {{(uint32_t) M.period(sslot) - 1, 9}, {(uint32_t) M.period(sslot), 1}});
    Bits  b   = bits(512);
    // path of the target below historical_summaries[2].block_summary_root
    std::string gsum = T.g({"historical_summaries", "2", "block_summary_root"}), gb = walk(blocks, {I(dslot % 8192)}).g;
    std::vector<Bytes> pf = branch(bm, gb);
    for (auto& x : T.br(gsum)) pf.push_back(x);
    std::string g = gsum + gb.substr(1);
    // signer 0: as it should be, 1: signature of the data header, 2: unknown committee, 3: header edited after signing
    auto run = [&](bool want, const Header& h, const std::vector<Bytes>& p, const std::string& gi_, const Header& sh0, int signer, const std::string& what) {
      if (!next()) return;
      Header sh = sh0;
      sh.proposer = cur_case + 1000; // every signed message is unique: a header accepted once may be remembered
      Bytes sg = signer == 1 ? sign_header(M, h, committee(1), b) : sign_header(M, sh, committee(signer == 2 ? 2 : 1), b);
      if (signer == 3) sh.body[0] ^= 1;
      reset_store();
      put_periods(M, {{(uint32_t) M.period(sslot) - 1, 9}, {(uint32_t) M.period(sslot), 1}});
      expect(want, req(M, h, historic_proof(p, sh, gi(gi_), b, sg)), M, "historic", suffix + " " + what);
    };
    run(true, target, pf, g, s, 0, "honest summary proof");
    { // block root of the current period
      std::string g2 = T.g({"block_roots", I(dslot % 8192)});
      run(true, target, T.br(g2), g2, s, 0, "honest block_roots proof");
    }
    for (size_t i = 0; i < pf.size(); i++)
      for (int by : {0, 31}) { auto p = pf; p[i][by] ^= 1; run(false, target, p, g, s, 0, "witness " + I(i) + " byte " + I(by)); }
    for (size_t i = 1; i < g.size(); i++) { std::string x = g; x[i] ^= 1; run(false, target, pf, x, s, 0, "gindex bit " + I(i)); }
    for (size_t i = 0; i < pf.size(); i++) { auto p = pf; p.erase(p.begin() + i); run(false, target, p, g, s, 0, "missing witness " + I(i)); }
    for (size_t i = 0; i + 1 < pf.size(); i++) { auto p = pf; std::swap(p[i], p[i + 1]); run(pf[i] == pf[i + 1], target, p, g, s, 0, "swapped witnesses " + I(i)); }
    { auto p = pf; p.push_back(Bytes(32)); run(false, target, p, g, s, 0, "extra witness"); }
    { Header t = target; t.state[0] ^= 1; run(false, t, pf, g, s, 0, "other header"); }
    run(false, target, pf, g, s, 3, "signed header edited");
    { Header x = s; x.state[0] ^= 1; run(false, target, pf, g, x, 0, "other state"); }
    run(false, target, pf, g, s, 1, "signature of the data header");
    run(false, target, pf, g, s, 2, "unknown committee");
    // the forged header's root sits in the signed state, but not as the root of a block
    { std::string fg = T.g({"validators", "1", "withdrawal_credentials"}); run(false, forged, T.br(fg), fg, s, 0, "forged root in withdrawal credentials"); }
    // the header whose root is the state root itself or any inner node cannot exist; a proof without steps must fail
    { Header x = target; run(false, x, {}, "1", s, 0, "empty proof"); run(false, x, {}, "0", s, 0, "gindex 0"); }
    { auto p = pf; run(false, target, p, "0", s, 0, "gindex 0 with proof"); }
  }
  // state summary roots and other state fields hold attacker-independent hashes; a root listed there is no block root
  if (section("historic/other-locations"))
    for (int el = 0; el < 2; el++)
      for (int field = 0; field < (el ? 37 : 28); field++)
        for (int deep = 0; deep < 2; deep++) {
          if (!next()) continue;
          uint64_t sslot = (el ? M.forks[4] : M.forks[3]) * 32 + 8192 * 40 + 17;
          Header   t     = data_header(M, sslot - 8192 * 3, salt());
          std::vector<std::pair<std::string, V>> f;
          for (int i = 0; i < (el ? 37 : 28); i++) {
            V leaf = bv(i == field ? t.root() : tag32("o" + I(i)));
            if (deep) { // a composite field whose second part is the header root
              V x = cont({{"a", bv(tag32("x"))}, {"b", leaf}});
              leaf = x;
            }
            f.push_back({"f" + I(i), leaf});
          }
          V sv = cont(f);
          NodeMap m;
          Bytes root = htr(sv, &m);
          Header s; s.slot = sslot; s.proposer = 5; s.parent = tag32("sp"); s.state = root; s.body = tag32("sb");
          reset_store();
          put_periods(M, {{(uint32_t) M.period(sslot) - 1, 9}, {(uint32_t) M.period(sslot), 1}});
          Bits b = bits(512);
          std::string g = deep ? walk(sv, {"f" + I(field), "b"}).g : walk(sv, {"f" + I(field)}).g;
          expect(false, req(M, t, historic_proof(branch(m, g), s, gi(g), b, sign_header(M, s, committee(1), b))), M, "historic-location", std::string(el ? "electra" : "deneb") + " state field " + I(field) + (deep ? " (nested)" : ""));
        }
  finish();
}
