// The prover of /repo answers questions about a simulated chain; a verifier with the client's state checks the proof.
#include "prv.hpp"
using namespace prv;
int main(int c, char** v) {
  init(c, v);
  quiet_stderr();
  init_store(5);
  // ---- every kind of question about every block, every client, both fork layouts
  for (int ci = 0; ci < 4; ci++)
    for (int kind = 0; kind < 2; kind++)
      for (int mask : {0x000, 0x068, 0x100}) { // blocks without a signature: none, 3+5+6, the head
        std::string lay = std::string(kind ? "electra" : "deneb") + " mask " + I(mask);
        bool        small = ci || kind;
        if (mask && ci % 2 && !thorough) continue;
        const Sim*  sp = nullptr;
        auto S_ = [&]() -> const Sim& { if (!sp) sp = &the_sim(ci, kind, mask); return *sp; };
        auto clients = [&](const std::string& fam, const std::function<void(const Client&, uint32_t)>& f) {
          for (int cl = 0; cl < 7; cl++)
            for (uint32_t fl : {0u, F_UV}) {
              if (fl && cl > 1) continue;
              if (!section(fam + "/" + CL[cl])) continue;
              f(client(S_(), cl, S_().ch->period(base_slot(*S_().ch, kind))), fl);
            }
        };
        clients("account", [&](const Client& cl, uint32_t fl) {
          auto& s = S_();
          bool few = small || cl.flags || fl || cl.net || mask;
          for (size_t i = 1; i < s.head; i++)
            for (auto& ref : refs(s, i))
              for (auto& a : account_asks(s, i, ref, few)) {
                if (!next()) continue;
                clear_caches();
                ask(s, a, cl, fl, s.provable(i), "account", lay + " block " + I(i));
              }
        });
        clients("tx", [&](const Client& cl, uint32_t fl) {
          auto& s = S_();
          for (size_t i = 1; i < s.head; i++)
            for (auto& ref : refs(s, i))
              for (size_t t = 0; t < s.b[i].r.txs.size(); t++) {
                if (t > 6 && t != 127 && t != 128 && t != 129) continue;
                for (auto& a : tx_asks(s, i, t, ref)) {
                  if (a.method != "eth_getTransactionByBlockNumberAndIndex" && ref != refs(s, i)[1]) continue;
                  if (!next()) continue;
                  clear_caches();
                  ask(s, a, cl, fl, s.provable(i) && ref[1] == '0', "tx", lay + " block " + I(i) + " tx " + I(t));
                }
              }
        });
        clients("block", [&](const Client& cl, uint32_t fl) {
          auto& s = S_();
          for (size_t i = 1; i < s.head; i++)
            for (auto& ref : refs(s, i))
              for (auto& a : block_asks(s, i, ref)) {
                if (!next()) continue;
                clear_caches();
                ask(s, a, cl, fl, s.provable(i), "block", lay + " block " + I(i));
              }
        });
        clients("logs", [&](const Client& cl, uint32_t fl) {
          auto& s = S_();
          for (size_t lo = 1; lo < s.head; lo++)
            for (size_t hi = lo; hi < s.head; hi++) {
              if (hi != lo && hi != lo + 1 && !(lo == 1 && hi == s.head - 1)) continue;
              bool ok = true; for (size_t i = lo; i <= hi; i++) ok = ok && s.provable(i);
              auto fs = filters(s, lo, hi);
              bool plain = !(small || cl.flags || fl || cl.net);
              for (size_t k = 0; k < fs.size(); k++) {
                if (!plain && !thorough && k % 5 && k + 2 < fs.size()) continue;
                if (!next()) continue;
                clear_caches();
                Ask a = logs_ask(s, fs[k]);
                ask(s, a, cl, fl, ok && !a.any, "logs", lay);
              }
              { // the logs of the range, and each of them alone, handed over by the client
                std::string f = "{\"fromBlock\":" + refs(s, lo)[0] + ",\"toBlock\":" + refs(s, hi)[0] + "}";
                auto h = s.logs(f, true);
                for (size_t k = 0; k <= h.size(); k++) {
                  if (h.empty() || (k && (!plain || lo != hi))) break;
                  if (!next()) continue;
                  clear_caches();
                  std::vector<Sim::Hit> l = k ? std::vector<Sim::Hit>{h[k - 1]} : h;
                  Ask a{"eth_verifyLogs", s.jlogs(l), [&s, l](const Res& z) { return z.json == "true" || z.json.empty() ? "" : logs_diff(s, l, z); }, hi};
                  ask(s, a, cl, fl, ok, "verify-logs", lay);
                }
              }
            }
        });
      }
  // ---- blocks older than everything the client knows: proven by the summaries in the state of a recent block
  for (int ci = 0; ci < 4; ci++)
    for (int kind = 0; kind < 2; kind++)
      for (uint64_t off : {uint64_t(0), uint64_t(4000), uint64_t(8180)}) {
        if (ci % 2 && off && !thorough) continue;
        if (!section("historic")) continue;
        Sim s = make_historic(ci, kind, off);
        for (int k = 0; k < 2; k++) {
          Client cl; cl.name = k ? "newer periods, sync data" : "newer period"; cl.flags = F_STORE | (k ? F_SYNC : 0);
          std::vector<uint64_t> ps = k ? std::vector<uint64_t>{s.period(s.head) - 1} : std::vector<uint64_t>{s.period(s.head)};
          cl.state = periods_state(ps); const Sim* sp = &s;
          cl.net = k; // only the newest committee is missing
          cl.store = [=] { know(*sp->ch, ps); };
          for (size_t i = 1; i < 4; i++) {
            auto ref = refs(s, i)[0];
            std::vector<Ask> l = account_asks(s, i, ref, true);
            for (auto& a : block_asks(s, i, ref)) l.push_back(a);
            for (size_t t = 0; t < s.b[i].r.txs.size(); t++) for (auto& a : tx_asks(s, i, t, ref)) l.push_back(a);
            for (size_t j = i; j < 4; j++) for (auto& f : filters(s, i, j)) { Ask a = logs_ask(s, f); if (!a.any) l.push_back(a); }
            for (auto& a : l) {
              if (!next()) continue;
              clear_caches();
              ask(s, a, cl, 0, true, "historic", std::string(kind ? "electra" : "deneb") + " offset " + I(off) + " block " + I(i));
            }
          }
        }
      }
  // ---- blocks around the end of a period: the block in the last slot is signed by the next committee
  for (int ci = 0; ci < 4; ci++)
    for (int kind = 0; kind < 2; kind++)
      for (int k = 1; k <= 12; k++) {
        if (ci % 2 && k % 4 && !thorough) continue;
        if (!section("boundary")) continue;
        const Chain& ch = chain(ci);
        uint64_t p = ch.period(base_slot(ch, kind)) + 1, start = (p + 1) * 8192 - k;
        if (ch.fork(start) != ch.fork(base_slot(ch, kind)) || ch.fork(start + 20) != ch.fork(start)) continue;
        Sim s = make_sim(ci, kind, 0, start - base_slot(ch, kind), 9, "bound" + I(ci) + I(kind) + I(k));
        const Sim* sp = &s;
        for (int c = 0; c < 3; c++) {
          Client cl; cl.name = c == 0 ? "both periods" : c == 1 ? "first period, sync data" : "first period, fetches itself";
          cl.flags = c == 1 ? F_SYNC : 0; cl.net = c == 2;
          cl.state = c == 0 ? periods_state({p, p + 1}) : periods_state({p});
          cl.store = [=] { if (c) know(*sp->ch, {p}); else know(*sp->ch, {p, p + 1}); };
          for (size_t i = 1; i < s.head; i++) {
            auto ref = refs(s, i)[0];
            std::vector<Ask> l = block_asks(s, i, ref); l.resize(1);
            auto aa = account_asks(s, i, ref, true); l.push_back(aa[0]);
            if (s.b[i].r.txs.size()) { auto t = tx_asks(s, i, 0, ref); l.push_back(t[0]); l.push_back(t[2]); }
            Ask g = logs_ask(s, "{\"fromBlock\":" + ref + ",\"toBlock\":" + refs(s, i + 1 < s.head ? i + 1 : i)[0] + "}"); if (!g.any) l.push_back(g);
            // the last block of a period whose following slot was missed is signed by the next committee only
            auto skipped = [&](size_t j) { return s.period(j) != s.period(j + 1) && s.b[j].x().h.slot % 8192 != 8191; };
            for (auto& a : l) {
              if (!next()) continue;
              clear_caches();
              bool sk = skipped(i) || (a.method == "eth_getLogs" && i + 1 < s.head && skipped(i + 1));
              ask(s, a, cl, 0, true, sk ? "last-slot-missed" : "boundary", std::string(kind ? "electra" : "deneb") + " " + I(k) + " slots before the end, block " + I(i) + " slot " + I(s.b[i].x().h.slot % 8192));
            }
          }
        }
      }
  // ---- nodes with other habits: storage keys without leading zeros, beacon blocks as JSON
  for (int ci = 0; ci < 4; ci += 2)
    for (int kind = 0; kind < 2; kind++)
      for (int st = 0; st < 2; st++) {
        if (!section(st ? "style/json-blocks" : "style/compact-keys")) continue;
        Sim s = the_sim(ci, kind, 0x008);
        if (st) s.style.json_blocks = true; else s.style.compact_keys = true;
        auto cl = client(s, 0, s.period(1));
        for (size_t i = 1; i < s.head; i++) {
          std::vector<Ask> l = account_asks(s, i, refs(s, i)[0], st);
          if (st) { auto b = block_asks(s, i, refs(s, i)[0]); l.insert(l.end(), b.begin(), b.end()); }
          for (auto& a : l) {
            if (!next()) continue;
            clear_caches();
            ask(s, a, cl, 0, true, st ? "json-block" : "compact-key", std::string(kind ? "electra" : "deneb") + " block " + I(i));
          }
        }
      }
  finish();
}
