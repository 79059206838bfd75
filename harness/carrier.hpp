// The smallest carrier of a beacon header and its header proof: a block number proof.
#pragma once
#include "world.hpp"
namespace world {
struct Carrier { Block blk; Body body; V proof; };
// a block number proof is the smallest carrier of a header and its header proof
inline Carrier& carrier(int fields) {
  static std::map<int, Carrier> c;
  auto it = c.find(fields);
  if (it != c.end()) return it->second;
  Carrier x;
  x.blk.body_fields = fields;
  x.body  = make_body(x.blk);
  x.proof = h32list(mproof(x.body, {pg(x.body, {"blockNumber"}), pg(x.body, {"timestamp"})}), 256);
  return c[fields] = x;
}
inline Header data_header(const Chain& ch, uint64_t slot, const std::string& salt = "") {
  Header h;
  h.slot = slot; h.proposer = 77; h.parent = tag32("parent" + salt); h.state = tag32("state" + salt); h.body = carrier(ch.fork(slot) >= ELECTRA ? 13 : 12).body.root;
  return h;
}
inline Bytes req(const Chain& ch, const Header& h, V hp) {
  Carrier& c = carrier(ch.fork(h.slot) >= ELECTRA ? 13 : 12);
  return request(nullptr, un(P_BLOCKNUMBER, cont({{"blockNumber", u(c.blk.number, 8)}, {"timestamp", u(c.blk.timestamp, 8)}, {"proof", c.proof}, {"header", h.v()}, {"header_proof", hp}})));
}
} // namespace world
