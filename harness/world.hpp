// A simulated Ethereum chain (beacon + execution layer) built only from the specifications: committees with an ideal
// BLS scheme, headers, states, execution payloads, light client data and the proofs a prover would send. The clients'
// storage and network are in memory. Nothing here uses code of the repository except its public entry points.
#pragma once
#include "leak.hpp"
#include "mc.hpp"
#include "ref.hpp"
#include "repo.hpp"
#include <algorithm>
#include <csetjmp>
#include <optional>
#include "blst.h"
extern "C" {
#include "logger.h"
#include "beacon_types.h"
#include "sync_committee.h"
}
#undef bytes32
namespace world {
using namespace ref;
using mc::Bytes;
// ---- chain constants, from the consensus specifications / client configurations
struct Chain {
  uint64_t              id;
  int                   spe, epp; // log2 slots per epoch, epochs per period
  std::vector<uint64_t> forks;    // activation epochs of altair, bellatrix, capella, deneb, electra, fulu
  Bytes                 gvr;
  int                   kind; // 0 mainnet 1 sepolia 2 gnosis 3 chiado
  uint64_t              wsp;
  chain_id_t            cid() const { return id; }
  uint64_t              slots_per_period() const { return 1ull << (spe + epp); }
  uint64_t              period(uint64_t slot) const { return slot >> (spe + epp); }
  int                   fork(uint64_t slot) const { int f = 0; for (auto e : forks) if ((slot >> spe) >= e) f++; return f; }
  Bytes                 version(int f) const {
    switch (kind) {
      case 0: return B({f, 0, 0, 0});
      case 1: return B({0x90, 0, 0, f == 0 ? 0x69 : 0x6f + f});
      case 2: return B({f, 0, 0, 0x64});
      default: return B({f, 0, 0, 0x6f});
    }
  }
};
inline const Chain& chain(int i) {
  static const Chain c[] = {
      {1, 5, 8, {74240, 144896, 194048, 269568, 364032, 411392}, unhex("4b363db94e286120d76eb905340fdd4e54bfe9f06bf33ff6cf5ad27f511bfe95"), 0, 3682},
      {11155111, 5, 8, {50, 100, 56832, 132608, 222464, 272640}, unhex("d8ea171f3c94aea21ebc42a1ed61052acf3f9209c00e4efbaaddac09ed9b8078"), 1, 3682},
      {100, 4, 9, {512, 385536, 648704, 889856, 1337856}, unhex("f5dcb5564e829aab27264b9becd5dfaa017085611224cb3036f573368dbb9d47"), 2, 1500},
      {10200, 4, 9, {90, 180, 244224, 516608, 948224}, unhex("9d642dac73058fbf39c0ae41ab1e34e4d889043cb199851ded7095bc99eb4c1e"), 3, 1500}};
  return c[i];
}
enum { DENEB = 4, ELECTRA = 5, FULU = 6 };
inline Bytes tag32(const std::string& s) { return keccak(Bytes(s.begin(), s.end())); } // deterministic distinct 32-byte values
// ---- committees
struct Committee {
  Bytes                 keys; // 512 * 48
  std::vector<uint64_t> el;
  Bytes                 agg;
};
inline const Committee& committee(int id) {
  static std::map<int, Committee> cache;
  auto it = cache.find(id);
  if (it != cache.end()) return it->second;
  Committee c;
  for (int i = 0; i < 512; i++) {
    Bytes k(48);
    // like on small networks, one validator sits in the committee several times
    int v = (i == 100 || i == 101 || i == 260) ? 7 : i;
    memcpy(&k[8], &id, 4); memcpy(&k[12], &v, 4);
    k[0] = 0x80 | (v & 0x1f); k[47] = v * 7 + id;
    app(c.keys, k);
    c.el.push_back(toy_pk_element(k.data()));
  }
  c.agg = Bytes(48, 0x81);
  memcpy(&c.agg[4], &id, 4);
  return cache[id] = c;
}
typedef std::vector<bool> Bits;
inline Bits bits(int n, int from = 0) { Bits b(512); for (int i = 0; i < n; i++) b[(from + i) % 512] = true; return b; }
inline Bytes sign(const Committee& c, const Bits& b, const Bytes& msg) {
  static const char dst[] = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_";
  uint64_t s = 0;
  for (int i = 0; i < 512; i++) if (b[i]) s = toy_add(s, c.el[i]);
  Bytes r(96);
  toy_sig_encode(r.data(), toy_mul(s, toy_msg_element(msg.data(), msg.size(), (const byte*) dst, sizeof(dst) - 1)));
  return r;
}
inline Bytes domain(const Chain& ch, int fork, Bytes type = B({7, 0, 0, 0})) {
  V     f  = cont({{"v", bv(ch.version(fork))}, {"r", bv(ch.gvr)}});
  Bytes fr = htr(f), d = type;
  d.insert(d.end(), fr.begin(), fr.begin() + 28);
  return d;
}
inline Bytes signing_root(const Bytes& root, const Bytes& dom) { return sha2(root, dom); }
// ---- beacon header
struct Header {
  uint64_t slot = 0, proposer = 0;
  Bytes    parent = Bytes(32), state = Bytes(32), body = Bytes(32);
  V        v() const { return cont({{"slot", u(slot, 8)}, {"proposerIndex", u(proposer, 8)}, {"parentRoot", bv(parent)}, {"stateRoot", bv(state)}, {"bodyRoot", bv(body)}}); }
  Bytes    root() const { return htr(v()); }
};
inline Bytes sign_header(const Chain& ch, const Header& h, const Committee& c, const Bits& b, int fork = -1) {
  return sign(c, b, signing_root(h.root(), domain(ch, fork < 0 ? ch.fork(h.slot) : fork)));
}
// ---- header proofs (ETH_HEADER_PROOFS_UNION)
inline V sig_proof(const Bits& b, const Bytes& sig) { return un(0, cont({{"sync_committee_bits", bitv(b)}, {"sync_committee_signature", bv(sig)}})); }
inline V historic_proof(const std::vector<Bytes>& proof, const Header& h, uint64_t gindex, const Bits& b, const Bytes& sig) {
  std::vector<V> p; for (auto& x : proof) p.push_back(bv(x));
  return un(1, cont({{"proof", list(p, 128, true, 32, false)}, {"header", h.v()}, {"gindex", u(gindex, 8)}, {"sync_committee_bits", bitv(b)}, {"sync_committee_signature", bv(sig)}}));
}
inline V header_chain_proof(const std::vector<Header>& hs, const Header& h, const Bits& b, const Bytes& sig) {
  std::vector<V> p;
  for (auto& x : hs) p.push_back(cont({{"slot", u(x.slot, 8)}, {"proposerIndex", u(x.proposer, 8)}, {"stateRoot", bv(x.state)}, {"bodyRoot", bv(x.body)}}));
  return un(2, cont({{"headers", list(p, 128, true, 80, false)}, {"header", h.v()}, {"sync_committee_bits", bitv(b)}, {"sync_committee_signature", bv(sig)}}));
}
// ---- execution payload and block body
struct Block {
  bool               gnosis = false;
  int                body_fields = 12; // 13 since electra
  Bytes              parentHash = tag32("ph"), feeRecipient = Bytes(20, 0xfe), stateRoot = tag32("sr"), receiptsRoot = tag32("rr"), bloom = Bytes(256, 0x11), randao = tag32("rd");
  uint64_t           number = 20000000, gasLimit = 30000000, gasUsed = 12345678, timestamp = 1740000000;
  Bytes              extra = S("extra"), baseFee = le(7000000000ull, 32), hash = tag32("bh");
  std::vector<Bytes> txs;
  struct Wd { uint64_t i, v; Bytes a; uint64_t amt; };
  std::vector<Wd>    wds;
  uint64_t           blobGasUsed = 131072, excessBlobGas = 262144;
  std::string        salt = "body";
  std::map<int, Bytes> fields; // other fields of the body, as 32-byte values
  V payload() const {
    std::vector<V> t, w;
    for (auto& x : txs) t.push_back(bl(x, 1073741824));
    for (auto& x : wds) w.push_back(cont({{"index", u(x.i, 8)}, {"validatorIndex", u(x.v, 8)}, {"address", bv(x.a)}, {"amount", u(x.amt, 8)}}));
    return cont({{"parentHash", bv(parentHash)}, {"feeRecipient", bv(feeRecipient)}, {"stateRoot", bv(stateRoot)}, {"receiptsRoot", bv(receiptsRoot)}, {"logsBloom", bv(bloom)}, {"prevRandao", bv(randao)},
                 {"blockNumber", u(number, 8)}, {"gasLimit", u(gasLimit, 8)}, {"gasUsed", u(gasUsed, 8)}, {"timestamp", u(timestamp, 8)}, {"extraData", bl(extra, 32)}, {"baseFeePerGas", u256(baseFee)}, {"blockHash", bv(hash)},
                 {"transactions", list(t, 1048576, false, 0, false)}, {"withdrawals", list(w, gnosis ? 8 : 16, true, 44, false)}, {"blobGasUsed", u(blobGasUsed, 8)}, {"excessBlobGas", u(excessBlobGas, 8)}});
  }
  V body() const {
    std::vector<std::pair<std::string, V>> f;
    for (int i = 0; i < body_fields; i++) f.push_back({i == 9 ? "executionPayload" : "f" + std::to_string(i), i == 9 ? payload() : bv(fields.count(i) ? fields.at(i) : tag32(salt + std::to_string(i)))});
    return cont(f);
  }
};
struct Body { V v; NodeMap m; Bytes root; };
inline Body make_body(const Block& b) { Body r; r.v = b.body(); r.root = htr(r.v, &r.m); return r; }
inline std::string pg(const Body& b, const std::vector<std::string>& names) { std::vector<std::string> n = {"executionPayload"}; n.insert(n.end(), names.begin(), names.end()); return walk(b.v, n).g; }
// multi proof of the given gindexes below the body root
inline std::vector<Bytes> mproof(const Body& b, const std::vector<std::string>& gs) { std::vector<Bytes> r; for (auto& h : helper_indices(gs)) r.push_back(node_at(b.m, h)); return r; }
inline V h32list(const std::vector<Bytes>& l, uint64_t limit) { std::vector<V> p; for (auto& x : l) p.push_back(bv(x)); return list(p, limit, true, 32, false); }
inline V nodelist(const std::vector<Bytes>& l, uint64_t limit) { std::vector<V> p; for (auto& x : l) p.push_back(bl(x, 1073741824)); return list(p, limit, false, 0, false); }
// ---- beacon state: the fields a light client needs, the rest opaque
struct State {
  int                fields = 28; // 37 since electra (padded to 64 leaves)
  const Committee *  cur = nullptr, *next = nullptr;
  uint64_t           fin_epoch = 0;
  Bytes              fin_root = Bytes(32);
  V                  block_roots, historical_summaries, validators;
  std::string        salt = "state";
  static V comm(const Committee& c) { std::vector<V> k; for (int i = 0; i < 512; i++) k.push_back(bv(Bytes(c.keys.begin() + 48 * i, c.keys.begin() + 48 * i + 48))); return cont({{"pubkeys", vec(k)}, {"aggregatePubkey", bv(c.agg)}}); }
  V v() const {
    std::vector<std::pair<std::string, V>> f;
    for (int i = 0; i < fields; i++) {
      V x = bv(tag32(salt + std::to_string(i)));
      std::string n = "f" + std::to_string(i);
      if (i == 5) { n = "block_roots"; if (block_roots) x = block_roots; }
      if (i == 11) { n = "validators"; if (validators) x = validators; }
      if (i == 20) { n = "finalized_checkpoint"; x = cont({{"epoch", u(fin_epoch, 8)}, {"root", bv(fin_root)}}); }
      if (i == 22) { n = "current_sync_committee"; if (cur) x = comm(*cur); }
      if (i == 23) { n = "next_sync_committee"; if (next) x = comm(*next); }
      if (i == 27) { n = "historical_summaries"; if (historical_summaries) x = historical_summaries; }
      f.push_back({n, x});
    }
    return cont(f);
  }
};
struct StateTree { V v; NodeMap m; Bytes root; std::string g(const std::vector<std::string>& n) const { return walk(v, n).g; } std::vector<Bytes> br(const std::string& g) const { return branch(m, g); } };
inline StateTree make_state(const State& s) { StateTree t; t.v = s.v(); t.root = htr(t.v, &t.m); return t; }
// ---- light client data
inline V lc_header(const Header& h) {
  Block b;
  V     exec = cont({{"parentHash", bv(b.parentHash)}, {"feeRecipient", bv(b.feeRecipient)}, {"stateRoot", bv(b.stateRoot)}, {"receiptsRoot", bv(b.receiptsRoot)}, {"logsBloom", bv(b.bloom)}, {"prevRandao", bv(b.randao)}, {"blockNumber", u(b.number, 8)}, {"gasLimit", u(1, 8)}, {"gasUsed", u(1, 8)}, {"timestamp", u(1, 8)}, {"extraData", bl({}, 32)}, {"baseFeePerGas", u256({})}, {"blockHash", bv(b.hash)}, {"transactionsRoot", bv(Bytes(32))}, {"withdrawalsRoot", bv(Bytes(32))}, {"blobGasUsed", u(0, 8)}, {"excessBlobGas", u(0, 8)}});
  std::vector<V> eb;
  for (int i = 0; i < 4; i++) eb.push_back(bv(Bytes(32)));
  return cont({{"beacon", h.v()}, {"execution", exec}, {"executionBranch", vec(eb)}});
}
inline V h32vec(const std::vector<Bytes>& l) { std::vector<V> p; for (auto& x : l) p.push_back(bv(x)); return vec(p); }
inline V lc_bootstrap(const Header& h, const Committee& c, const std::vector<Bytes>& branch) { return cont({{"header", lc_header(h)}, {"currentSyncCommittee", State::comm(c)}, {"currentSyncCommitteeBranch", h32vec(branch)}}); }
inline V lc_update(const Header& att, const Committee& next, const std::vector<Bytes>& nb, const Header& fin, const std::vector<Bytes>& fb, const Bits& b, const Bytes& sig, uint64_t sigslot) {
  return cont({{"attestedHeader", lc_header(att)}, {"nextSyncCommittee", State::comm(next)}, {"nextSyncCommitteeBranch", h32vec(nb)}, {"finalizedHeader", lc_header(fin)}, {"finalityBranch", h32vec(fb)},
               {"syncAggregate", cont({{"syncCommitteeBits", bitv(b)}, {"syncCommitteeSignature", bv(sig)}})}, {"signatureSlot", u(sigslot, 8)}});
}
// ---- request
enum { D_NONE, D_HASH, D_BYTES, D_UINT256, D_TX, D_RECEIPT, D_LOGS, D_BLOCK, D_PROOF, D_SIM };
enum { P_NONE, P_ACCOUNT, P_TX, P_RECEIPT, P_LOGS, P_CALL, P_SYNC, P_BLOCK, P_BLOCKNUMBER, P_WITNESS };
inline V none() { return un(0, nullptr); }
inline Bytes request(V data, V proof, V sync = nullptr) { return ser(cont({{"version", bv(B({0, 0, 1, 0}))}, {"data", data ? data : none()}, {"proof", proof ? proof : none()}, {"sync_data", sync ? sync : none()}})); }
inline V lc_sync(V bootstrap /*union or null*/, const std::vector<V>& updates /*unions*/) { return un(1, cont({{"bootstrap", bootstrap ? bootstrap : none()}, {"update", list(updates, 1024, false, 0, false)}})); }

// ---- storage (in memory, with an operation log and an optional crash point)
inline jmp_buf crash_point; // where the client ends up when it is killed in the middle of a storage operation
inline bool    crash_armed = false;
inline std::map<std::string, Bytes> store;
inline std::vector<std::string>     store_log;
inline int                          store_budget = -1;  // number of mutations until the process "dies" (-1: never)
inline bool                         store_dead = false; // after the crash point nothing reaches the disk
inline int                          torn_len = -1;      // the write at the crash point reaches the disk only up to this length
inline uint64_t                     store_ops = 0;
inline bool st_get(char* k, buffer_t* b) {
  store_ops++;
  auto it = store.find(k);
  if (it == store.end()) return false;
  buffer_append(b, bytes((uint8_t*) it->second.data(), (uint32_t) it->second.size()));
  return true;
}
inline bool st_mutate() {
  if (store_dead) return false;
  if (store_budget == 0) { store_dead = true; return false; }
  if (store_budget > 0) store_budget--;
  store_ops++;
  return true;
}
inline void st_set(char* k, bytes_t v) {
  bool was_dead = store_dead;
  if (!st_mutate()) {
    if (!was_dead && torn_len >= 0 && (uint32_t) torn_len < v.len) store[k] = Bytes(v.data, v.data + torn_len);
    if (crash_armed) longjmp(crash_point, 1);
    return;
  }
  store[k] = Bytes(v.data, v.data + v.len); store_log.push_back("set " + std::string(k)); }
inline void st_del(char* k) {
  if (!st_mutate()) { if (crash_armed) longjmp(crash_point, 1); return; }
  store.erase(k); store_log.push_back("del " + std::string(k)); }
inline void init_store(uint32_t max = 3) {
  storage_plugin_t p = {st_get, st_set, st_del, max};
  c4_set_storage_config(&p);
  if (mc::log_all) c4_set_log_level((log_level_t) 6);
}
inline void reset_store() { store.clear(); store_log.clear(); store_budget = -1; store_dead = false; }
inline std::string skey(const Chain& c, uint64_t p) { return "sync_" + std::to_string(c.cid()) + "_" + std::to_string(p); }
inline std::string stkey(const Chain& c) { return "states_" + std::to_string(c.cid()); }
inline void put_periods(const Chain& c, const std::vector<std::pair<uint32_t, int>>& pc) { // period, committee id
  Bytes st = B({1});
  for (auto& p : pc) {
    app(st, le(p.first, 4));
    store[skey(c, p.first)] = cat(committee(p.second).keys, Bytes(32));
  }
  store[stkey(c)] = st;
}
inline void put_checkpoint(const Chain& c, const Bytes& root) { store[stkey(c)] = cat(B({2}), root); }
inline std::vector<uint32_t> stored_periods(const Chain& c) {
  std::vector<uint32_t> r;
  auto it = store.find(stkey(c));
  if (it == store.end() || it->second.empty() || it->second[0] != 1) return r;
  for (size_t i = 1; i + 4 <= it->second.size(); i += 4) r.push_back(it->second[i] | it->second[i + 1] << 8 | it->second[i + 2] << 16 | (uint32_t) it->second[i + 3] << 24);
  return r;
}
// ---- running the verifier
struct Req { std::string url, payload; int type, enc; uint64_t chain; };
struct Answer { bool ok; Bytes data; std::string err; };
typedef std::function<std::optional<Answer>(const Req&)> Net;
struct Res { bool accepted = false; bool pending = false; std::string error, json; std::vector<Req> reqs; int rounds = 0; };
inline Res verify_once(const Bytes& request, const char* method, const std::string& args, const Chain& ch, const Net& net = nullptr, const Bytes& witness = {}) {
  Res          r;
  uint8_t*     rb = (uint8_t*) malloc(request.size() ? request.size() : 1);
  if (request.size()) memcpy(rb, request.data(), request.size());
  char*        m = method ? strdup(method) : nullptr;
  char*        a = strdup(args.c_str());
  verify_ctx_t ctx{};
  leak::on++;
  c4_status_t  s = c4_verify_init(&ctx, bytes(rb, (uint32_t) request.size()), m, json_parse(a), ch.cid());
  if (s == C4_SUCCESS && witness.size()) { ctx.witness_keys = bytes((uint8_t*) malloc(witness.size()), (uint32_t) witness.size()); memcpy(ctx.witness_keys.data, witness.data(), witness.size()); }
  if (s == C4_SUCCESS) s = c4_verify(&ctx);
  leak::on--;
  mc::step();
  while (s == C4_PENDING && r.rounds++ < 24) {
    bool progress = false;
    for (data_request_t* q = ctx.state.requests; q; q = q->next) {
      if (!c4_state_is_pending(q)) continue;
      Req rq{q->url ? q->url : "", std::string((char*) q->payload.data, q->payload.len), q->type, q->encoding, q->chain_id};
      r.reqs.push_back(rq);
      std::optional<Answer> an = net ? net(rq) : std::optional<Answer>();
      if (!an) continue;
      progress = true;
      if (an->ok) { // responses are exact allocations; JSON text is terminated as hosts do
        size_t n = an->data.size();
        q->response = bytes((uint8_t*) malloc(n + (rq.enc == C4_DATA_ENCODING_JSON ? 1 : (n ? 0 : 1))), (uint32_t) n);
        if (n) memcpy(q->response.data, an->data.data(), n);
        if (rq.enc == C4_DATA_ENCODING_JSON) q->response.data[n] = 0;
      }
      else q->error = strdup(an->err.c_str());
    }
    if (!progress) break;
    leak::on++;
    s = c4_verify(&ctx);
    leak::on--;
    mc::step();
  }
  r.pending  = s == C4_PENDING;
  r.error    = ctx.state.error ? ctx.state.error : "";
  r.accepted = s == C4_SUCCESS; // hosts take this status for the verdict
  if (s == C4_SUCCESS && ctx.state.error) r.error = std::string("success with error: ") + ctx.state.error;
  if (r.accepted && ctx.data.def && ctx.data.def->type != SSZ_TYPE_NONE) {
    char* j = ssz_dump_to_str(ctx.data, false, true);
    if (j) { r.json = j; free(j); }
  }
  c4_verify_free_data(&ctx);
  free(rb); free(m); free(a);
  return r;
}
inline Res verify(const Bytes& request, const char* method, const std::string& args, const Chain& ch, const Net& net = nullptr, const Bytes& witness = {}) {
  if (!mc::only_leaks) return verify_once(request, method, args, ch, net, witness);
  leak::install();
  leak::reset();
  Res r = verify_once(request, method, args, ch, net, witness);
  if (leak::live) { // tables that stay are filled once; what is left by every repetition is lost
    leak::reset(); verify_once(request, method, args, ch, net, witness);
    if (leak::live) {
      leak::reset(); leak::traces = true;
      Res z = verify_once(request, method, args, ch, net, witness);
      leak::traces = false;
      auto st = leak::sites();
      if (st.size()) { std::sort(st.begin(), st.end()); mc::violation("leak:" + st[0].substr(0, 120), std::to_string(st.size()) + " allocations left by verifying " + (method ? method : "(null)") + args.substr(0, 200) + (z.accepted ? " accepted" : z.pending ? " pending" : " rejected: " + z.error.substr(0, 200))); }
    }
  }
  leak::reset();
  return r;
}
} // namespace world
