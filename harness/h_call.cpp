// C30: eth_call and colibri_simulateTransaction: the machine sees exactly the proven state with the changes of the frames that were not
// reverted; what is not proven is never taken for a value. The machine itself (evmone is not part of the repository) is a stand-in that
// executes a small language given as call data; the same stand-in runs on a reference host which holds the whole state.
#include "exec.hpp"
extern "C" {
#include "evmone_c_wrapper.h"
}
using namespace mc;
using namespace world;
static std::string I(uint64_t x) { return std::to_string(x); }
static const Bytes EMPTY_CODE = keccak(Bytes()), EMPTY_TRIE = keccak(B({0x80}));
static Bytes adr(const std::string& s) { Bytes t = tag32(s); return Bytes(t.begin() + 12, t.end()); }
static Bytes k32(uint64_t i) { return be(i, 32); }
static Bytes pad(const Bytes& v) { Bytes r(32 - v.size()); app(r, v); return r; }
static Bytes strip(const Bytes& v) { size_t i = 0; while (i < v.size() && !v[i]) i++; return Bytes(v.begin() + i, v.end()); }
// ---------------------------------------------------------------- state
struct RAcc {
  Bytes                  balance = Bytes(32), code;
  uint64_t               nonce = 0;
  std::map<Bytes, Bytes> st; // 32-byte key -> 32-byte value, no zero values
  Trie                   trie() const { Trie t; for (auto& p : st) t.set(keccak(p.first), rlp_str(strip(p.second))); return t; }
  Bytes                  shash() const { return st.empty() ? EMPTY_TRIE : trie().root(); }
  Bytes                  rlp() const { return rlp_list({rlp_u64(nonce), rlp_str(strip(balance)), rlp_str(shash()), rlp_str(keccak(code))}); }
};
typedef std::map<Bytes, RAcc> St;
enum { aA, aB, aC, aD, aE, NADDR }; // two contracts, a wallet, nothing, a contract with the code of the second one
static const Bytes& AD(int i) { static std::vector<Bytes> v = {adr("cA"), adr("cB"), adr("cC"), adr("cD"), adr("cE")}; return v[i]; }
static const St& base() {
  static St s;
  if (s.empty()) {
    RAcc a; a.balance = k32(5); a.code = S("Acode"); a.nonce = 1; a.st[k32(0)] = k32(1); a.st[k32(1)] = Bytes(32, 0xee); s[AD(aA)] = a;
    RAcc b; b.balance = k32(700); b.code = S("Bcode of another length"); b.nonce = 1; b.st[k32(0)] = k32(9); s[AD(aB)] = b;
    RAcc c; c.balance = k32(100); c.nonce = 3; s[AD(aC)] = c;
    RAcc e; e.code = b.code; e.nonce = 1; s[AD(aE)] = e;
    for (int i = 0; i < 12; i++) { RAcc f; f.balance = k32(i); f.nonce = i + 1; s[adr("filler" + I(i))] = f; }
  }
  return s;
}
static const Trie& tree() { static Trie t; static bool done = false; if (!done) { done = true; for (auto& p : base()) t.set(keccak(p.first), p.second.rlp()); } return t; }
static const Exec& block_() { static Exec x; static bool done = false; if (!done) { done = true; Block b; b.stateRoot = tree().root(); b.number = 21000077; b.hash = tag32("callblk"); x = make_exec(chain(0), exec_slot(chain(0), 1), b, "call"); } return x; }
// ---------------------------------------------------------------- the machine
enum { SLOAD = 1, SSTORE, BAL, CSIZE, CHASH, CCOPY, LOG, CALL, DCALL, SDESTR, REVERT, FAIL, EXISTS, PRECOMP, VCALL, BHASH, CREATE };
struct Ev { Bytes addr, data; std::vector<Bytes> topics; bool operator==(const Ev& o) const { return addr == o.addr && data == o.data && topics == o.topics; } };
static int results_live, results_twice, executors_live;
struct Owned { uint8_t* data; bool freed; };
static Bytes A20(const evmc_address* a) { return Bytes(a->bytes, a->bytes + 20); }
static evmc_address EA(const Bytes& b) { evmc_address a; memcpy(a.bytes, b.data(), 20); return a; }
static evmc_bytes32 E32(const Bytes& b) { evmc_bytes32 a; memcpy(a.bytes, b.data(), 32); return a; }
static Bytes U32(const evmc_bytes32& b) { return Bytes(b.bytes, b.bytes + 32); }
struct Out { int status; Bytes data; };
static Bytes lastblock_hash() { return tag32("parent block"); }
static Out interpret(const evmone_host_interface* h, void* c, const evmone_message* m, const uint8_t* code, size_t code_size) {
  if (!code_size) return {0, {}}; // no code: nothing happens
  Bytes o = {code[0], (uint8_t) code_size, code[code_size - 1], m->sender.bytes[0], m->value.bytes[31]};
  const uint8_t *p = m->input_data, *e = p + m->input_size;
  auto arg = [&]() -> uint8_t { return p < e ? *p++ : 0; };
  auto who = [&](uint8_t i) { return EA(AD(i % NADDR)); };
  while (p < e) {
    uint8_t op = *p++;
    switch (op) {
      case SLOAD: { auto k = E32(k32(arg())); h->access_storage(c, &m->destination, &k); app(o, U32(h->get_storage(c, &m->destination, &k))); break; }
      case SSTORE: { auto k = E32(k32(arg())), v = E32(k32(arg())); if (m->is_static) return {11, {}}; h->set_storage(c, &m->destination, &k, &v); break; }
      case BAL: { auto a = who(arg()); h->access_account(c, &a); app(o, U32(h->get_balance(c, &a))); break; }
      case CSIZE: { auto a = who(arg()); app(o, be(h->get_code_size(c, &a), 4)); break; }
      case CHASH: { auto a = who(arg()); app(o, U32(h->get_code_hash(c, &a))); break; }
      case EXISTS: { auto a = who(arg()); o.push_back(h->account_exists(c, &a)); break; }
      case CCOPY: { auto a = who(arg()); size_t off = arg(), len = arg(); uint8_t* b = (uint8_t*) malloc(len ? len : 1); memset(b, 0x77, len); size_t n = h->copy_code(c, &a, off, b, len); o.push_back((uint8_t) (n > 255 ? 255 : n)); app(o, Bytes(b, b + std::min(n, len))); free(b); break; }
      case LOG: {
        size_t n = arg(); if (m->is_static) return {11, {}};
        std::vector<evmc_bytes32> t; for (size_t i = 0; i < n; i++) t.push_back(E32(k32(n * 16 + i)));
        Bytes d(n, (uint8_t) n); h->emit_log(c, &m->destination, n ? d.data() : nullptr, n, n ? t.data() : nullptr, n); break;
      }
      case CALL: case DCALL: case VCALL: {
        evmone_message x{}; auto a = who(arg());
        uint8_t v = op == VCALL ? arg() : 0;
        size_t l = arg(); l = std::min<size_t>(l, e - p);
        x.kind = op == DCALL ? evmone_message::EVMONE_DELEGATECALL : evmone_message::EVMONE_CALL;
        x.depth = m->depth + 1; x.gas = 1000; x.code_address = a; x.is_static = m->is_static;
        x.destination = op == DCALL ? m->destination : a; x.sender = op == DCALL ? m->sender : m->destination; x.value = op == DCALL ? m->value : E32(k32(v));
        x.input_data = p; x.input_size = l; p += l;
        if (op == VCALL) { // evmone asks for the balance before the host gets the call
          Bytes bal = U32(h->get_balance(c, &m->destination));
          if (bal < k32(v)) { o.push_back(0xfe); break; }
        }
        evmone_result r{}; h->call(c, &x, nullptr, 0, &r);
        o.push_back((uint8_t) (r.status_code == 0)); o.push_back((uint8_t) r.output_size);
        if (r.status_code == 0 || r.status_code == 2) app(o, Bytes(r.output_data, r.output_data + r.output_size));
        break;
      }
      case PRECOMP: {
        evmone_message x{}; x.code_address.bytes[19] = 4; x.destination = x.code_address; x.sender = m->destination; x.gas = 1000; x.depth = m->depth + 1;
        size_t l = arg(); l = std::min<size_t>(l, e - p); x.input_data = p; x.input_size = l; p += l;
        evmone_result r{}; h->call(c, &x, nullptr, 0, &r);
        o.push_back((uint8_t) (r.status_code == 0)); app(o, Bytes(r.output_data, r.output_data + r.output_size));
        break;
      }
      case CREATE: {
        evmone_message x{}; x.kind = evmone_message::EVMONE_CREATE; x.sender = m->destination; x.gas = 1000; x.depth = m->depth + 1; x.input_data = p; x.input_size = e - p; p = e;
        evmone_result r{}; h->call(c, &x, nullptr, 0, &r);
        o.push_back((uint8_t) (r.status_code == 0)); app(o, r.create_address ? A20(r.create_address) : Bytes(20));
        break;
      }
      case BHASH: app(o, U32(h->get_block_hash(c, (int64_t) block_().blk.number - 1))); break;
      case SDESTR: { auto a = who(arg()); if (m->is_static) return {11, {}}; h->selfdestruct(c, &m->destination, &a); return {0, o}; }
      case REVERT: return {2, o};
      case FAIL: return {1, {}};
      default: return {5, {}};
    }
  }
  return {0, o};
}
static void rel(void*) {}
extern "C" void* evmone_create_executor() { executors_live++; return &executors_live; }
extern "C" void evmone_destroy_executor(void*) { executors_live--; }
extern "C" evmone_result evmone_execute(void*, const evmone_host_interface* h, void* c, int, const evmone_message* m, const uint8_t* code, size_t n) {
  leak::on--; // what the stand-in keeps is not the repository's
  Out o;
  { struct W { ~W() {} } w; leak::on++; o = interpret(h, c, m, code, n); leak::on--; }
  evmone_result r{};
  r.status_code = o.status; r.gas_left = 1; r.output_size = o.data.size();
  if (o.data.size()) { uint8_t* d = (uint8_t*) malloc(o.data.size()); memcpy(d, o.data.data(), o.data.size()); r.output_data = d; }
  Owned* w = new Owned{(uint8_t*) r.output_data, false};
  r.release_callback = (void*) rel; r.release_context = w; results_live++;
  leak::on++;
  return r;
}
extern "C" void evmone_release_result(evmone_result* r) {
  if (r->release_callback && r->release_context) { Owned* w = (Owned*) r->release_context; free(w->data); delete w; results_live--; }
  r->output_data = nullptr; r->output_size = 0; r->release_callback = nullptr; r->release_context = nullptr;
}
extern "C" {
#include "precompiles.h"
pre_result_t eth_execute_precompile(const uint8_t* a, const bytes_t in, buffer_t* out, uint64_t* gas) {
  *gas = 15;
  if (a[19] != 4) return PRE_NOT_SUPPORTED;
  buffer_append(out, in);
  return PRE_SUCCESS;
}
}
// ---------------------------------------------------------------- the reference host: the whole state, copied for every frame
struct R { St s; std::vector<Ev> logs; std::vector<std::vector<uint8_t>*> keep; };
static std::map<Bytes, std::set<Bytes>>* rec = nullptr; // what a call touches: accounts and their storage keys
static void touch(const Bytes& a, const Bytes* k = nullptr) { if (rec) { auto& x = (*rec)[a]; if (k) x.insert(*k); } }
static RAcc* rget(R* r, const evmc_address* a) { auto i = r->s.find(A20(a)); return i == r->s.end() ? nullptr : &i->second; }
static Bytes add256(const Bytes& a, const Bytes& b) { Bytes r(32); int c = 0; for (int i = 31; i >= 0; i--) { c += a[i] + b[i]; r[i] = (uint8_t) c; c >>= 8; } return r; }
static Bytes sub256(const Bytes& a, const Bytes& b) { Bytes r(32); int c = 0; for (int i = 31; i >= 0; i--) { c = a[i] - b[i] - c; r[i] = (uint8_t) c; c = c < 0; } return r; }
static void rmove(R* r, const Bytes& from, const Bytes& to, const Bytes& v) { if (v == Bytes(32)) return; r->s[from].balance = sub256(r->s[from].balance, v); r->s[to].balance = add256(r->s[to].balance, v); }
static bool r_exists(void* c, const evmc_address* a) { touch(A20(a)); RAcc* x = rget((R*) c, a); return x && (x->nonce || x->code.size() || x->balance != Bytes(32)); }
static evmc_bytes32 r_sload(void* c, const evmc_address* a, const evmc_bytes32* k) { Bytes kk = U32(*k); touch(A20(a), &kk); RAcc* x = rget((R*) c, a); if (!x) return E32(Bytes(32)); auto i = x->st.find(U32(*k)); return E32(i == x->st.end() ? Bytes(32) : i->second); }
static evmone_storage_status r_sstore(void* c, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { Bytes kk = U32(*k); touch(A20(a), &kk); RAcc& x = ((R*) c)->s[A20(a)]; if (U32(*v) == Bytes(32)) x.st.erase(U32(*k)); else x.st[U32(*k)] = U32(*v); return EVMONE_STORAGE_MODIFIED; }
static evmc_bytes32 r_bal(void* c, const evmc_address* a) { touch(A20(a)); RAcc* x = rget((R*) c, a); return E32(x ? x->balance : Bytes(32)); }
static size_t r_csize(void* c, const evmc_address* a) { touch(A20(a)); RAcc* x = rget((R*) c, a); return x ? x->code.size() : 0; }
static evmc_bytes32 r_chash(void* c, const evmc_address* a) { RAcc* x = rget((R*) c, a); return E32(r_exists(c, a) ? keccak(x->code) : Bytes(32)); }
static size_t r_ccopy(void* c, const evmc_address* a, size_t off, uint8_t* b, size_t n) { touch(A20(a)); RAcc* x = rget((R*) c, a); size_t l = x ? x->code.size() : 0; if (off >= l) return 0; size_t k = std::min(n, l - off); if (k) memcpy(b, x->code.data() + off, k); return k; }
static void r_sd(void* c, const evmc_address* a, const evmc_address* b) { touch(A20(b)); R* r = (R*) c; if (A20(a) == A20(b)) return; RAcc* x = rget(r, a); if (x) rmove(r, A20(a), A20(b), Bytes(x->balance)); }
static const evmone_host_interface& rhost();
static void r_call(void* c, const evmone_message* m, const uint8_t*, size_t, evmone_result* res) {
  R* r = (R*) c; Out o;
  touch(A20(&m->code_address));
  if (m->kind == evmone_message::EVMONE_CREATE) { static evmc_address na = EA(adr("created")); res->status_code = 0; res->create_address = &na; return; }
  if (m->code_address.bytes[19] == 4 && Bytes(m->code_address.bytes, m->code_address.bytes + 19) == Bytes(19)) o = {0, Bytes(m->input_data, m->input_data + m->input_size)};
  else {
    St save = r->s; auto lg = r->logs;
    if (m->kind == evmone_message::EVMONE_CALL) rmove(r, A20(&m->sender), A20(&m->destination), U32(m->value));
    Bytes code; if (RAcc* x = rget(r, &m->code_address)) code = x->code;
    o = interpret(&rhost(), r, m, code.data(), code.size());
    if (o.status) { r->s = save; r->logs = lg; }
  }
  auto* k = new std::vector<uint8_t>(o.data); r->keep.push_back(k);
  res->status_code = o.status; res->output_data = k->data(); res->output_size = k->size();
}
static evmc_bytes32 r_tx(void*) { return {}; }
static evmc_bytes32 r_bh(void*, int64_t) { return E32(lastblock_hash()); }
static void r_log(void* c, const evmc_address* a, const uint8_t* d, size_t n, const evmc_bytes32 t[], size_t tn) { Ev e; e.addr = A20(a); if (n) e.data.assign(d, d + n); for (size_t i = 0; i < tn; i++) e.topics.push_back(U32(t[i])); ((R*) c)->logs.push_back(e); }
static void r_acc(void*, const evmc_address*) {}
static void r_acs(void*, const evmc_address*, const evmc_bytes32*) {}
static const evmone_host_interface& rhost() { static evmone_host_interface h = {r_exists, r_sload, r_sstore, r_bal, r_csize, r_chash, r_ccopy, r_sd, r_call, r_tx, r_bh, r_log, r_acc, r_acs}; return h; }
// ---------------------------------------------------------------- requests
struct Ov { int addr; bool bal = false, code = false; int storage = 0 /*0 none, 1 state, 2 stateDiff*/; Bytes balance = Bytes(32), codev; std::vector<std::pair<int, int>> st; };
struct Rq { int to = aA, from = -1; uint64_t value = 0; Bytes prog; std::vector<Ov> ov; std::string blockref = "\"latest\"";
  std::string args() const {
    std::string s = "[{\"to\":\"" + hx(AD(to)) + "\",\"data\":\"" + hx(prog) + "\"";
    if (value) s += ",\"value\":\"" + hxu(value) + "\"";
    if (from >= 0) s += ",\"from\":\"" + hx(AD(from)) + "\"";
    s += "}," + blockref;
    if (ov.size()) {
      s += ",{";
      for (size_t i = 0; i < ov.size(); i++) {
        auto& o = ov[i]; std::string f;
        auto put = [&](const std::string& t) { f += (f.empty() ? "" : ",") + t; };
        if (o.bal) put("\"balance\":\"" + hxn(strip(o.balance)) + "\"");
        if (o.code) put("\"code\":\"" + hx(o.codev) + "\"");
        if (o.storage) { std::string z; for (auto& p : o.st) z += (z.empty() ? "\"" : ",\"") + hx(k32(p.first)) + "\":\"" + hx(k32(p.second)) + "\""; put(std::string(o.storage == 1 ? "\"state\":{" : "\"stateDiff\":{") + z + "}"); }
        s += (i ? ",\"" : "\"") + hx(AD(o.addr)) + "\":{" + f + "}";
      }
      s += "}";
    }
    return s + "]";
  }
};
struct Truth { int status; Bytes out; std::vector<Ev> logs; };
static Truth truth(const Rq& q) {
  R r; r.s = base();
  for (auto& o : q.ov) {
    RAcc& a = r.s[AD(o.addr)];
    if (o.bal) a.balance = o.balance;
    if (o.code) a.code = o.codev;
    if (o.storage == 1) a.st.clear();
    for (auto& p : o.st) { if (p.second) a.st[k32(p.first)] = k32(p.second); else a.st.erase(k32(p.first)); }
  }
  Bytes from = q.from >= 0 ? AD(q.from) : Bytes(20);
  if (q.value && q.from < 0) r.s[from].balance = Bytes(32, 0x10); // the funds of a sender which is not part of the proof are not questioned
  if (q.value) { Bytes fb = r.s.count(from) ? r.s[from].balance : Bytes(32); if (fb < k32(q.value)) return {17, {}, {}}; rmove(&r, from, AD(q.to), k32(q.value)); }
  evmone_message m{}; m.destination = m.code_address = EA(AD(q.to)); m.sender = EA(from); m.value = E32(k32(q.value)); m.input_data = q.prog.data(); m.input_size = q.prog.size();
  Bytes code; if (r.s.count(AD(q.to))) code = r.s[AD(q.to)].code;
  Out o = interpret(&rhost(), &r, &m, code.data(), code.size());
  Truth t{o.status, o.data, o.status ? std::vector<Ev>() : r.logs};
  for (auto* k : r.keep) delete k;
  return t;
}
// ---------------------------------------------------------------- proofs
enum { UNUSED, USED, GIVEN };
struct PA { int addr; int form; std::vector<int> keys; std::optional<Bytes> code; };
static V acc_proof_(const PA& p) {
  std::vector<V> sp;
  auto i = base().find(AD(p.addr));
  for (int k : p.keys) sp.push_back(cont({{"key", bv(k32(k))}, {"proof", nodelist(i == base().end() || i->second.st.empty() ? std::vector<Bytes>() : i->second.trie().prove(keccak(k32(k))), 1024)}}));
  Bytes code = p.code ? *p.code : i == base().end() ? Bytes() : i->second.code;
  return cont({{"accountProof", nodelist(tree().prove(keccak(AD(p.addr))), 256)}, {"address", bv(AD(p.addr))}, {"code", p.form == GIVEN ? un(1, bl(code, 4194304)) : un(0, u(p.form == USED, 1))}, {"storageProof", list(sp, 4096, false, 0, false)}});
}
static V acc_proof(const PA& p) {
  if (p.code) return acc_proof_(p);
  static std::map<std::string, V> memo;
  std::string k = I(p.addr) + "/" + I(p.form); for (int x : p.keys) k += "," + I(x);
  V& v = memo[k];
  if (!v) v = acc_proof_(p);
  return v;
}
static V call_proof(const std::vector<PA>& l, int ref = 0) { static V sp[3] = {state_proof(block_(), 0), state_proof(block_(), 1), state_proof(block_(), 2)}; std::vector<V> a; for (auto& p : l) a.push_back(acc_proof(p)); return cont({{"accounts", list(a, 256, false, 0, false)}, {"state_proof", sp[ref]}}); }
static std::vector<PA> full(int form) { return {{aA, form, {0, 1, 2}}, {aB, form, {0, 1, 2}}, {aC, UNUSED, {0}}, {aD, UNUSED, {0}}, {aE, form, {0, 1, 2}}}; }
static Bytes enc(V proof, V data = nullptr) { return request(data, un(P_CALL, proof)); }
static std::string sim_json(const Truth& t) {
  std::string s = "{\"gasUsed\":\"0x5208\",\"logs\":[";
  for (size_t i = 0; i < t.logs.size(); i++) {
    s += std::string(i ? "," : "") + "{\"raw\":{\"address\":\"" + hx(t.logs[i].addr) + "\",\"data\":\"" + hx(t.logs[i].data) + "\",\"topics\":[";
    for (size_t k = 0; k < t.logs[i].topics.size(); k++) s += (k ? ",\"" : "\"") + hx(t.logs[i].topics[k]) + "\"";
    s += "]}}";
  }
  return s + "],\"status\":\"0x1\",\"returnValue\":\"" + hx(t.out) + "\"}";
}
static std::string nows(const std::string& s) { std::string r; for (char c : s) if (c != ' ' && c != '\n') r += c; return r; }
static Answer code_answer(const Bytes& code) { std::string s = "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"" + hx(code) + "\"}"; return {true, S(s), ""}; }
// an honest node for eth_getCode
static std::optional<Answer> node(const Req& r) {
  for (int i = 0; i < NADDR; i++) if (r.payload.find(hx(AD(i))) != std::string::npos && r.payload.find("eth_getCode") != std::string::npos) { auto a = base().find(AD(i)); return code_answer(a == base().end() ? Bytes() : a->second.code); }
  return std::nullopt;
}
static std::string show(const Bytes& p) { return hx(p); }
// the verdict may be "not accepted", but never a wrong answer; if must is set, it has to be accepted
static Res run(const Rq& q, const Bytes& rq, bool sim, bool must, const std::string& what, const std::string& detail, const Net& net = node, bool fresh = true) {
  if (fresh) trust(block_());
  results_live = executors_live = 0;
  Truth t = truth(q);
  Res   r = verify(rq, sim ? "colibri_simulateTransaction" : "eth_call", q.args(), *block_().ch, net);
  std::string want = sim ? sim_json(t) : "\"" + hx(t.out) + "\"", got = nows(r.json);
  outcome(hash64(r.accepted ? "ok" + got : r.error.substr(0, 40), hash64(cur_section)));
  if (r.accepted && t.status) violation(what + ":failed-call-accepted", detail + " " + q.args() + " answer " + got.substr(0, 300));
  else if (r.accepted && got != want) violation(what + ":wrong-result", detail + " " + q.args() + " answer " + got.substr(0, 400) + " expected " + want.substr(0, 400));
  else if (must && !t.status && !r.accepted) violation(what + ":honest-rejected", detail + " " + q.args() + " error=" + r.error + (r.pending ? " pending" : ""));
  if (results_live || executors_live) violation(what + ":results-not-released", detail + " " + q.args() + " results " + I(results_live));
  return r;
}
static Bytes cat_(const std::vector<Bytes>& l) { Bytes r; for (auto& x : l) app(r, x); return r; }
static Bytes sub(int op, int a, const Bytes& p) { Bytes r = {(uint8_t) op, (uint8_t) a, (uint8_t) p.size()}; app(r, p); return r; }
int main(int argc, char** argv) {
  init(argc, argv);
  init_store();
  const Bytes honest_given = enc(call_proof(full(GIVEN))), honest_used = enc(call_proof(full(USED)));
  // every single operation in every frame
  if (section("call/operations")) {
    std::vector<Bytes> ops;
    for (int k = 0; k < 3; k++) { ops.push_back(B({SLOAD, (uint8_t) k})); for (int v = 0; v < 3; v++) ops.push_back(B({SSTORE, (uint8_t) k, (uint8_t) v})); }
    for (int a = 0; a < NADDR; a++) {
      for (int o : {BAL, CSIZE, CHASH, EXISTS}) ops.push_back(B({(uint8_t) o, (uint8_t) a}));
      for (int off : {0, 1, 4, 5, 6, 22, 23, 24, 255}) for (int len : {0, 1, 5, 30}) ops.push_back(B({CCOPY, (uint8_t) a, (uint8_t) off, (uint8_t) len}));
      ops.push_back(B({SDESTR, (uint8_t) a}));
    }
    for (int n = 0; n < 5; n++) ops.push_back(B({LOG, (uint8_t) n}));
    ops.push_back(B({PRECOMP, 0})); ops.push_back(B({PRECOMP, 3, 1, 2, 3}));
    ops.push_back(B({REVERT})); ops.push_back(B({FAIL})); ops.push_back({});
    for (int to = 0; to < NADDR; to++)
      for (auto& op : ops)
        for (int wrap = 0; wrap < 3; wrap++)
          for (int form : {USED, GIVEN})
            for (int sim = 0; sim < 2; sim++) {
              if (!next()) continue;
              Rq q; q.to = to; q.from = aC;
              Bytes again = to == aA || to == aB || to == aE ? op : Bytes();
              q.prog = wrap == 0 ? op : wrap == 1 ? cat_({sub(CALL, aB, op), again}) : cat_({sub(DCALL, aB, op), again});
              run(q, form == GIVEN ? honest_given : honest_used, sim, true, "operations", show(q.prog));
            }
  }
  // all programs of a few operations in nested frames, committed or reverted
  if (section("call/programs")) {
    std::vector<Bytes> leaf = {B({SLOAD, 0}), B({SSTORE, 0, 1}), B({SSTORE, 0, 5}), B({SSTORE, 0, 0}), B({SSTORE, 2, 6}), B({LOG, 1})}, tail = {{}, B({REVERT}), B({FAIL})};
    std::vector<Bytes> inner; // bodies of the inner frame
    for (auto& a : leaf) { inner.push_back(a); for (auto& b : leaf) if (b != leaf[0]) inner.push_back(cat_({a, b})); }
    std::vector<Bytes> before = {{}, B({SSTORE, 0, 5}), B({SSTORE, 2, 6}), B({LOG, 2}), sub(CALL, aB, B({SSTORE, 0, 7})), sub(DCALL, aB, B({SSTORE, 0, 8, LOG, 3}))};
    Bytes look = cat_({B({SLOAD, 0, SLOAD, 2}), sub(CALL, aB, B({SLOAD, 0, SLOAD, 2})), B({CSIZE, 0, CSIZE, 1, CHASH, 1, BAL, 0, LOG, 4})});
    for (auto& bf : before)
      for (auto& in : inner)
        for (auto& tl : tail)
          for (int kind : {CALL, DCALL})
            for (int self : {aA, aB})
              for (int mid = 0; mid < 4; mid++) {
                if (!next()) continue;
                Bytes body = cat_({in, tl});
                Bytes c1 = sub(kind, self, body);
                Bytes c = mid == 0 ? c1 : mid == 1 ? sub(CALL, aB, cat_({c1, B({SLOAD, 0})})) : mid == 2 ? sub(CALL, aB, cat_({c1, B({REVERT})})) : sub(DCALL, aE, cat_({B({SSTORE, 0, 3}), c1, B({SLOAD, 0})}));
                Rq q; q.from = aC; q.prog = cat_({bf, c, look});
                bool sim = in.size() && (q.prog.size() & 1);
                run(q, mid & 1 ? honest_given : honest_used, sim, true, "programs", show(q.prog));
              }
  }
  // two calls one after the other or one in the other
  if (section("call/pairs")) {
    std::vector<Bytes> leaf = {B({SLOAD, 0}), B({SSTORE, 0, 1}), B({SSTORE, 0, 5}), B({SSTORE, 0, 0}), B({SSTORE, 2, 6}), B({LOG, 1})}, tail = {{}, B({REVERT}), B({FAIL})};
    if (thorough) { leaf.push_back(B({SSTORE, 1, 0, SLOAD, 1})); leaf.push_back(B({SSTORE, 0, 5, LOG, 2, SSTORE, 0, 1})); leaf.push_back(B({CSIZE, aA, CSIZE, aB, BAL, aE})); leaf.push_back(B({VCALL, aD, 2, 0, BAL, aD})); }
    std::vector<Bytes> before = {{}, B({SSTORE, 0, 5}), B({SSTORE, 2, 6, LOG, 2}), sub(CALL, aB, B({SSTORE, 0, 7}))};
    Bytes look = cat_({B({SLOAD, 0, SLOAD, 2}), sub(CALL, aB, B({SLOAD, 0, SLOAD, 2})), sub(CALL, aE, B({SLOAD, 0})), B({CSIZE, 0, CSIZE, 1})});
    struct C { int kind, who; size_t l, t; };
    std::vector<C> cs;
    for (int kind : {CALL, DCALL}) for (int who : {aA, aB, aE}) for (size_t l = 0; l < leaf.size(); l++) for (size_t t = 0; t < tail.size(); t++) { if (who == aE && !thorough && kind == CALL) continue; cs.push_back({kind, who, l, t}); }
    for (auto& bf : before)
      for (auto& x : cs)
        for (auto& y : cs)
          for (int nest = 0; nest < 3; nest++) {
            if (!next()) continue;
            Bytes cy = sub(y.kind, y.who, cat_({leaf[y.l], tail[y.t]})), mine = leaf[x.l];
            Rq q; q.from = aC;
            q.prog = cat_({bf, nest == 0 ? cat_({sub(x.kind, x.who, cat_({mine, tail[x.t]})), cy}) : nest == 1 ? sub(x.kind, x.who, cat_({mine, cy, B({SLOAD, 0}), tail[x.t]})) : sub(x.kind, x.who, cat_({cy, mine, tail[x.t]})), look});
            run(q, nest ? honest_given : honest_used, nest == 1, true, "pairs", show(q.prog));
          }
  }
  // every subset of the proof
  if (section("call/missing")) {
    std::vector<Bytes> progs = {B({SLOAD, 0}), B({SLOAD, 2}), B({BAL, aB}), B({CSIZE, aB}), B({CHASH, aB}), B({CCOPY, aB, 0, 8}), B({EXISTS, aD}), B({BAL, aD}), B({SSTORE, 0, 5, SLOAD, 0, CSIZE, aA}), sub(CALL, aB, B({SLOAD, 0})), sub(DCALL, aB, B({SLOAD, 0})), sub(CALL, aC, {}), sub(CALL, aD, {}), cat_({sub(CALL, aB, B({SSTORE, 0, 4})), B({CSIZE, aB}), sub(CALL, aB, B({SLOAD, 0}))}), B({CSIZE, aC}), cat_({sub(CALL, aE, B({SSTORE, 0, 4})), sub(CALL, aE, B({SLOAD, 0})), B({CSIZE, aE})})};
    for (size_t pi = 0; pi < progs.size(); pi++)
      for (int fa = 0; fa < 4; fa++) // absent, unused, used, given
        for (int fb = 0; fb < 4; fb++)
          for (int fe = 0; fe < 4; fe++)
            for (int cd = 0; cd < 4; cd++)
              for (int ka = 0; ka < 4; ka++)
                for (int sim = 0; sim < 2; sim++) {
                  if (!next()) continue;
                  std::vector<PA> l;
                  if (fa) l.push_back({aA, fa - 1, ka & 1 ? std::vector<int>{0} : std::vector<int>{2}});
                  if (fb) l.push_back({aB, fb - 1, ka & 2 ? std::vector<int>{0} : std::vector<int>{}});
                  if (cd & 1) l.push_back({aC, UNUSED, {}});
                  if (cd & 2) l.push_back({aD, UNUSED, {}});
                  if (fe) l.push_back({aE, fe - 1, {0}});
                  Rq q; q.prog = progs[pi]; q.from = aC;
                  run(q, enc(call_proof(l)), sim, false, "missing", show(q.prog) + " forms " + I(fa) + I(fb) + I(fe) + " cd " + I(cd) + " keys " + I(ka));
                }
  }
  // overridden accounts of which nothing or only a part is proven
  if (section("call/unproven")) {
    std::vector<Bytes> progs = {B({SLOAD, 0}), B({SLOAD, 2}), B({BAL, aB}), B({CSIZE, aB}), B({CHASH, aB}), B({EXISTS, aB}), B({BAL, aD}), B({EXISTS, aD}), B({CHASH, aD}), B({SSTORE, 0, 5, SLOAD, 0, CSIZE, aA, BAL, aA}), sub(CALL, aB, B({SLOAD, 0, BAL, aB})), sub(CALL, aB, B({SSTORE, 0, 4, SLOAD, 0, CSIZE, aB, BAL, aB})), cat_({B({VCALL, aB, 2, 0}), B({BAL, aB})}), sub(CALL, aB, B({SDESTR, aD})), sub(DCALL, aB, B({SLOAD, 0}))};
    for (int who : {aA, aB, aD})
      for (int m = 1; m < 20; m++) // balance, code, storage 0..4
        for (int fa = 0; fa < 4; fa++)
          for (int fb = 0; fb < 4; fb++)
            for (int fd = 0; fd < 2; fd++)
              for (auto& p : progs) {
                if (!next()) continue;
                std::vector<PA> l;
                if (fa) l.push_back({aA, fa - 1, {0}});
                if (fb) l.push_back({aB, fb - 1, {0}});
                if (fd) l.push_back({aD, UNUSED, {}});
                Ov o; o.addr = who; o.bal = m & 1; o.code = m & 2; o.balance = k32(3); o.codev = S("zcode");
                int s = m / 4; if (s) { o.storage = s < 3 ? 1 : 2; if (s & 1) o.st.push_back({2, 44}); }
                Rq q; q.prog = p; q.from = aC; q.ov = {o};
                run(q, enc(call_proof(l)), m & 1, false, "unproven", show(p) + " forms " + I(fa) + I(fb) + I(fd));
              }
  }
  // codes: what is delivered, what is fetched and what earlier, also rejected, proofs left in the cache
  if (section("call/codes")) {
    auto evil = [](int k) { Bytes c = k == 1 ? S("Xcode of another length") : k == 2 ? S("Acode") : k == 3 ? Bytes() : k == 4 ? S("Bcode") : Bytes(); return c; };
    std::vector<Bytes> progs = {sub(CALL, aB, B({SLOAD, 0})), B({CSIZE, aB, CHASH, aB, CCOPY, aB, 0, 30}), sub(CALL, aE, B({SLOAD, 0})), B({CSIZE, aE})};
    for (int k1 = 0; k1 < 5; k1++)        // first proof: code of B
      for (int at = 0; at < 2; at++)      // of B or E
        for (int ovr = 0; ovr < 3; ovr++) // with the code of this account overridden in the first request / in the second one too
          for (int order = 0; order < 2; order++)
            for (size_t p1 = 0; p1 < progs.size(); p1++)
              for (size_t p2 = 0; p2 < progs.size(); p2++)
                for (int f2 : {USED, GIVEN})
                  for (int k2 = 0; k2 < 3; k2++) {
                    if (!next()) continue;
                    auto mk = [&](int k, int form) {
                      auto l = full(form);
                      if (k) { l[at ? 4 : 1].form = GIVEN; l[at ? 4 : 1].code = evil(k); }
                      if (order) std::swap(l[1], l[4]);
                      return enc(call_proof(l));
                    };
                    Rq q1, q2; q1.prog = progs[p1]; q2.prog = progs[p2]; q1.from = q2.from = aC;
                    Ov o; o.addr = at ? aE : aB; o.code = true; o.codev = S("override");
                    if (ovr >= 1) q1.ov = {o};
                    if (ovr == 2) q2.ov = {o};
                    std::string d = "first code " + I(k1) + " of " + (at ? "E" : "B") + " override " + I(ovr) + " order " + I(order) + " second code " + I(k2) + " form " + I(f2);
                    run(q1, mk(k1, k1 ? USED : GIVEN), false, false, "codes", "first " + d);
                    run(q2, mk(k2, f2), false, k2 == 0, "codes", "second " + d, node, false);
                  }
    // answers of the node
    std::vector<std::optional<Answer>> as = {std::nullopt, code_answer(S("Bcode of another length")), code_answer(S("Xcode of another length")), code_answer({}), Answer{true, S("{\"result\":null}"), ""}, Answer{true, S("{\"error\":{\"code\":1,\"message\":\"no\"}}"), ""}, Answer{true, S("{\"result\":\"0x" + std::string(600, '1') + "\"}"), ""}, Answer{true, S(""), ""}, Answer{true, S("nonsense " + std::string(500, 'n')), ""}, Answer{false, {}, "offline"}, Answer{true, S("{\"result\":\"0x4\"}"), ""}, Answer{true, S("{\"result\":\"zz\"}"), ""}};
    for (size_t i = 0; i < as.size(); i++)
      for (size_t j = 0; j < as.size(); j++)
        for (auto& p : progs) {
          if (!next()) continue;
          Rq q; q.prog = p; q.from = aC;
          Net n = [&](const Req& r) -> std::optional<Answer> { if (r.payload.find(hx(AD(aB))) != std::string::npos) return as[i]; if (r.payload.find(hx(AD(aE))) != std::string::npos) return as[j]; return node(r); };
          run(q, honest_used, false, i == 1 && j == 1, "codes", "answers " + I(i) + "," + I(j), n);
          run(q, honest_used, false, true, "codes", "after answers " + I(i) + "," + I(j), node, false);
        }
  }
  // overrides of the request
  if (section("call/overrides")) {
    std::vector<Ov> os;
    for (int a : {aA, aB, aC, aD})
      for (int b = 0; b < 3; b++)
        for (int c = 0; c < 3; c++)
          for (int s = 0; s < 7; s++) {
            Ov o; o.addr = a;
            if (b) { o.bal = true; o.balance = b == 1 ? k32(0) : Bytes(32, 0xab); }
            if (c) { o.code = true; o.codev = c == 1 ? Bytes() : S("other"); }
            if (s) { o.storage = s < 4 ? 1 : 2; int m = (s - 1) % 3; if (m >= 1) o.st.push_back({0, 33}); if (m == 2) { o.st.push_back({2, 44}); o.st.push_back({1, 0}); } }
            if (b || c || s) os.push_back(o);
          }
    std::vector<Bytes> progs = {B({SLOAD, 0, SLOAD, 1, SLOAD, 2, BAL, 0, CSIZE, 0, CHASH, 0}), cat_({B({SSTORE, 1, 9}), sub(CALL, aB, B({SLOAD, 0, SLOAD, 1, SLOAD, 2, BAL, 1, CSIZE, 1, SSTORE, 0, 1, SLOAD, 0, SLOAD, 1})), B({SLOAD, 0, SLOAD, 1})}), cat_({sub(DCALL, aB, B({SSTORE, 0, 2, REVERT})), B({SLOAD, 0, BAL, aC, CSIZE, aC, BAL, aD, CSIZE, aD, EXISTS, aD, CHASH, aC}), sub(CALL, aC, B({SLOAD, 0})), sub(CALL, aD, B({SLOAD, 0, SLOAD, 1}))})};
    auto l = full(GIVEN);
    l[2].keys = l[3].keys = {0, 1, 2};
    Bytes pg = enc(call_proof(l));
    for (auto& o : os)
      for (auto& p : progs)
        for (int sim = 0; sim < 2; sim++) {
          if (!next()) continue;
          Rq q; q.prog = p; q.from = aC; q.ov = {o};
          run(q, pg, sim, o.storage == 0 || o.st.size() || o.storage == 1 || o.storage == 2, "overrides", "");
        }
    for (size_t i = 0; i < os.size(); i += 5)
      for (size_t j = 0; j < os.size(); j += 7) {
        if (os[i].addr == os[j].addr) continue;
        for (auto& p : progs) { if (!next()) continue; Rq q; q.prog = p; q.from = aC; q.ov = {os[i], os[j]}; run(q, pg, false, true, "overrides", "two"); }
      }
  }
  // the block of the request, the data of the prover
  if (section("call/request")) {
    Rq q; q.prog = B({SLOAD, 0}); q.from = aC;
    std::vector<std::pair<std::string, int>> refs = {{"\"latest\"", 0}, {"\"" + hxu(block_().blk.number) + "\"", 2}, {"\"" + hx(block_().blk.hash) + "\"", 1}, {"\"0x1\"", -1}, {"\"" + hx(tag32("other")) + "\"", -1}, {"\"" + hxu(block_().blk.number + 1) + "\"", -1}};
    for (auto& rf : refs)
      for (int ref = 0; ref < 3; ref++)
        for (int sim = 0; sim < 2; sim++) {
          if (!next()) continue;
          q.blockref = rf.first;
          Res r = run(q, enc(call_proof(full(GIVEN), ref)), sim, rf.second == ref, "request", "block reference " + I(ref));
          if (r.accepted && rf.second < 0) violation("request:other-block", q.args() + " reference " + I(ref));
        }
    q.blockref = "\"latest\"";
    Truth t = truth(q);
    for (int w = 0; w < 6; w++) {
      if (!next()) continue;
      Bytes d = t.out;
      if (w == 1) d.back() ^= 1;
      if (w == 2) d.pop_back();
      if (w == 3) d.push_back(0);
      if (w == 4) d.clear();
      if (w == 5) d[0] ^= 0x80;
      run(q, enc(call_proof(full(GIVEN)), un(D_BYTES, bl(d, 1 << 30))), false, w == 0, "request", "data " + I(w));
    }
    Rq e = q; e.to = aC; e.prog = B({1});
    for (int w = 0; w < 3; w++) { if (!next()) continue; run(e, enc(call_proof(full(GIVEN)), w ? un(D_BYTES, bl(w == 1 ? Bytes() : B({1}), 1 << 30)) : nullptr), false, w < 2, "request", "call without code, data " + I(w)); }
  }
  // overrides nobody can understand are not ignored
  if (section("call/malformed")) {
    std::string A = hx(AD(aA)), K = hx(k32(0)), W = hx(k32(7)), good = "\"" + hx(AD(aB)) + "\":{\"code\":\"0x0102\",\"balance\":\"0x1\",\"stateDiff\":{\"" + K + "\":\"" + W + "\"}}";
    std::vector<std::string> vals = {"null", "[]", "1", "\"0x\"", "\"0x0\"", "\"0x1\"", "\"0x01\"", "\"zz\"", "\"0x" + std::string(64, 'f') + "\"", "\"0x" + std::string(66, 'f') + "\"", "{}", "{\"" + K + "\":\"" + W + "\"}", "{\"" + K + "\":\"0x1\"}", "{\"0x1\":\"" + W + "\"}", "{\"" + K + "\":null}", "{\"" + K + "00\":\"" + W + "\"}", "{\"" + K + "\":\"" + W + "00\"}", "{\"" + K + "\":\"" + W + "\",\"zz\":\"" + W + "\"}", "true", "\"\"", "{\"\":{}}"};
    std::vector<std::string> props = {"balance", "code", "state", "stateDiff", "nonce", "movePrecompileToAddress", "blockOverrides", "Balance", "", "statediff"};
    std::vector<std::string> addrs = {A, A.substr(0, 40), A + "00", A.substr(2), "0x" + std::string(40, 'z'), "", "0x"};
    auto go = [&](const std::string& ov, bool valid) {
      if (!next()) return;
      trust(block_());
      Rq q; q.prog = B({SLOAD, 0, SLOAD, 1, BAL, aA, CSIZE, aA}); q.from = aC;
      std::string args = q.args(); args.pop_back(); args += "," + ov + "]";
      for (int sim = 0; sim < 2; sim++) {
        Res r = verify(honest_given, sim ? "colibri_simulateTransaction" : "eth_call", args, *block_().ch, node);
        outcome(hash64(r.accepted ? "ok" : r.error.substr(0, 60), hash64(cur_section)));
        if (r.accepted && !valid && r.json.find(hx(truth(q).out)) != std::string::npos) violation("malformed:ignored", args + " answer " + r.json.substr(0, 200));
      }
    };
    for (size_t pi = 0; pi < props.size(); pi++)
      for (size_t vi = 0; vi < vals.size(); vi++)
        for (int w = 0; w < 3; w++) {
          std::string o = "\"" + A + "\":{" + (w == 2 ? "\"code\":\"0x5b\"," : "") + "\"" + props[pi] + "\":" + vals[vi] + "}";
          bool none = vi == 0 || (pi == 3 && vi == 10); // null and no differences leave everything as it is
          go("{" + (w == 1 ? good + "," : std::string()) + o + "}", none || w == 2);
        }
    for (auto& ad : addrs) for (auto& v : vals) go("{\"" + ad + "\":" + v + "," + good + "}", ad == A && v == "{}");
    for (auto& v : vals) go(v, v == "null" || v == "{}");
    go("{\"" + A + "\":{\"state\":{},\"stateDiff\":{}}}", false);
    go("{\"" + A + "\":{\"code\":\"0x01\",\"state\":{\"" + K + "\":\"" + W + "\"},\"stateDiff\":{}}}", false);
  }
  // values that move with calls
  if (section("call/value")) {
    for (int to : {aA, aB, aC})
      for (int from : {-1, (int) aC, (int) aB})
        for (uint64_t v : {0, 1, 5, 100, 101, 700})
          for (int inner = 0; inner < 6; inner++)
            for (int v2 : {0, 1, 5, 6, 105, 200})
              for (int sim = 0; sim < 2; sim++) {
                if (!next()) continue;
                Rq q; q.to = to; q.from = from; q.value = v;
                Bytes look = B({BAL, 0, BAL, 1, BAL, 2, BAL, 3, EXISTS, 3});
                auto vc = [&](int a, const Bytes& p) { Bytes r = {VCALL, (uint8_t) a, (uint8_t) v2, (uint8_t) p.size()}; app(r, p); return r; };
                q.prog = cat_({look, inner == 0 ? vc(aB, look) : inner == 1 ? vc(aC, {}) : inner == 2 ? vc(aD, {}) : inner == 3 ? vc(aB, cat_({look, B({REVERT})})) : inner == 4 ? sub(CALL, aB, cat_({vc(aA, look), B({SDESTR, aC})})) : sub(DCALL, aB, cat_({vc(aD, {}), look, B({SDESTR, aD})})), look});
                auto l = full(GIVEN);
                run(q, enc(call_proof(l)), sim, true, "value", show(q.prog));
              }
  }
  // every bit of the proof
  if (section("call/edits")) {
    Rq q; q.from = aC; q.prog = cat_({B({SLOAD, 0, SLOAD, 2, BAL, aB, CHASH, aB, BAL, aD}), sub(CALL, aB, B({SLOAD, 0, SSTORE, 0, 3, SLOAD, 0})), B({CSIZE, aB})});
    for (int form : {USED, GIVEN}) {
      Bytes rq = enc(call_proof({{aA, form, {0, 2}}, {aB, form, {0}}, {aC, UNUSED, {}}, {aD, UNUSED, {}}}));
      for (size_t i = 0; i < rq.size(); i++)
        for (int b = 0; b < 8; b++) {
          if (!next()) continue;
          Bytes e = rq; e[i] ^= 1 << b;
          run(q, e, false, false, "edits", "byte " + I(i) + " bit " + I(b));
          if (form == GIVEN && b == 0) run(q, honest_used, false, true, "edits", "honest after byte " + I(i), node, false);
        }
    }
  }
  // known not to be available to the machine
  if (section("call/context")) {
    std::vector<std::pair<std::string, Bytes>> ps = {{"blockhash", B({BHASH})}, {"create", B({CREATE, 1})}};
    for (auto& p : ps) { if (!next()) continue; Rq q; q.prog = p.second; q.from = aC; run(q, honest_given, false, false, "context:" + p.first, ""); }
  }
  finish();
}
