// A signed execution block: body, beacon header, header proof and proofs below the body.
#pragma once
#include "world.hpp"
namespace world {
struct Exec {
  const Chain* ch = nullptr;
  Block        blk;
  Body         body;
  Header       h;
  V            hp;
};
inline int the_committee(const Chain& ch) { return 10 + (int) (ch.id % 50); }
// slot kinds: 0 deneb, 1 electra (mainnet)
inline uint64_t exec_slot(const Chain& ch, int kind) {
  uint64_t e = kind ? ch.forks[ELECTRA - 1] : ch.forks[DENEB - 1];
  return ((e + 3) << ch.spe) + 5;
}
inline Exec make_exec(const Chain& ch, uint64_t slot, Block b, const std::string& salt) {
  Exec x;
  x.ch = &ch;
  b.gnosis = ch.spe == 4;
  b.body_fields = ch.fork(slot) >= ELECTRA ? 13 : 12;
  x.blk  = b;
  x.body = make_body(b);
  x.h.slot = slot; x.h.proposer = 4711; x.h.parent = tag32("exec-parent" + salt); x.h.state = tag32("exec-state" + salt); x.h.body = x.body.root;
  Bits bt = bits(512);
  x.hp = sig_proof(bt, sign_header(ch, x.h, committee(the_committee(ch)), bt));
  return x;
}
// the client knows the committee of the block's period
inline void trust(const Exec& x) {
  reset_store();
  put_periods(*x.ch, {{(uint32_t) x.ch->period(x.h.slot), the_committee(*x.ch)}});
}
inline V proof_below(const Exec& x, const std::vector<std::vector<std::string>>& names, uint64_t limit = 256) {
  std::vector<std::string> g;
  for (auto& n : names) g.push_back(pg(x.body, n));
  return h32list(mproof(x.body, g), limit);
}
// ref: 0 none (latest), 1 block hash, 2 block number
inline V state_proof(const Exec& x, int ref) {
  std::vector<std::vector<std::string>> n = {{"stateRoot"}};
  if (ref == 1) n.push_back({"blockHash"});
  if (ref == 2) n.push_back({"blockNumber"});
  return cont({{"block", ref == 0 ? none() : ref == 1 ? un(1, bv(x.blk.hash)) : un(2, u(x.blk.number, 8))}, {"proof", proof_below(x, n)}, {"header", x.h.v()}, {"header_proof", x.hp}});
}
inline V copy(const V& v) { // deep copy
  auto r = std::make_shared<Val>(*v);
  for (auto& k : r->kids) k = copy(k);
  return r;
}
// every place in a value tree holding bytes
inline void leaves(const V& v, const std::string& path, std::vector<std::pair<std::string, V>>& out) {
  if (v->k == UINT || v->k == BVEC || v->k == BLIST) out.push_back({path, v});
  for (size_t i = 0; i < v->kids.size(); i++) leaves(v->kids[i], path + "." + (v->names.size() ? v->names[i] : std::to_string(i)), out);
}
inline std::string hx(const Bytes& b) { return "0x" + mc::hex(b); }
inline std::string hxn(const Bytes& be) { // minimal hex number
  std::string h = mc::hex(be);
  size_t      i = h.find_first_not_of('0');
  return i == std::string::npos ? "0x0" : "0x" + h.substr(i);
}
inline std::string hxu(uint64_t v) { return hxn(ref::be(v, 8)); }
} // namespace world
