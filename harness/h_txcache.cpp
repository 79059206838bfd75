// Transaction-location cache: every operation sequence up to a bound, against a plain map + FIFO of blocks.
#include "mc.hpp"
#include "repo.hpp"
extern "C" {
#include "tx_cache.h"
}
using namespace mc;
struct Model {
  std::map<int, std::pair<uint64_t, uint32_t>>        kv;
  std::vector<std::pair<uint64_t, std::vector<int>>> fifo;
  size_t                                              max = 10000;
  void evict(size_t add) {
    while (kv.size() + add > max && !fifo.empty()) {
      for (int k : fifo[0].second) kv.erase(k);
      fifo.erase(fifo.begin());
    }
  }
  void set(int k, uint64_t bn, uint32_t i) {
    if (kv.size() >= max) evict(1);
    bool isnew = !kv.count(k);
    kv[k]      = {bn, i};
    if (isnew) {
      if (fifo.empty() || fifo.back().first != bn) fifo.push_back({bn, {}});
      fifo.back().second.push_back(k);
    }
  }
};
// keys chosen so that probe sequences collide, overlap and wrap around the table end
static const uint16_t HOME[] = {0, 0, 2, 1, 16383, 16383, 0, 1, 16382};
static int NK = 6;
static void key(int k, bytes32_t out) {
  memset(out, 0, 32);
  if (k < 0) { out[31] = 0xee; return; } // absent key, home 0
  if (k >= 100) { uint64_t h = (uint64_t) (k - 100); memcpy(out, &h, 8); out[20] = 7; return; }
  out[0]  = HOME[k] & 0xff;
  out[1]  = HOME[k] >> 8;
  out[31] = k + 1; // equal first 8 bytes, different key
}
static bool table_clean = false;
static void cmp(Model& m, const std::string& hist) {
  std::string obs;
  for (int k = -1; k < NK; k++) {
    bytes32_t kk;
    key(k, kk);
    uint64_t bn = 77; uint32_t ix = 78;
    bool     f = c4_eth_tx_cache_get(kk, &bn, &ix);
    step();
    auto it = m.kv.find(k);
    if (f != (it != m.kv.end())) violation(f ? "lookup-finds-evicted-entry" : "lookup-misses-stored-entry", "key=" + std::to_string(k) + " after " + hist);
    else if (f && (bn != it->second.first || ix != it->second.second)) violation("lookup-returns-wrong-location", "key=" + std::to_string(k) + " got " + std::to_string(bn) + "/" + std::to_string(ix) + " after " + hist);
    obs += f ? std::to_string(bn) + "," + std::to_string(ix) + ";" : "-;";
  }
  size_t s = c4_eth_tx_cache_size(), c = c4_eth_tx_cache_capacity();
  step(2);
  if (s != m.kv.size()) violation("size-wrong", "size=" + std::to_string(s) + " expected " + std::to_string(m.kv.size()) + " after " + hist);
  if (c != m.max) violation("capacity-wrong", "capacity=" + std::to_string(c) + " expected " + std::to_string(m.max) + " after " + hist);
  obs += std::to_string(s) + "/" + std::to_string(c);
  outcome(hash64(obs));
}
struct Op { int kind; int a; uint64_t b; };
static std::string show(const Op& o) {
  switch (o.kind) {
    case 0: return "set(k" + std::to_string(o.a) + ",block" + std::to_string(o.b) + ")";
    case 1: return "reserve(" + std::to_string(o.a) + ")";
    case 2: return "set_max(" + std::to_string(o.a) + ")";
    default: return "reset";
  }
}
static void apply(Model& m, const Op& o, uint32_t seq) {
  bytes32_t k;
  step();
  switch (o.kind) {
    case 0: key(o.a, k); c4_eth_tx_cache_set(k, o.b, seq); m.set(o.a, o.b, seq); break;
    case 1: c4_eth_tx_cache_reserve(o.a); if (o.a > 0) m.evict(o.a); break;
    case 2: c4_eth_tx_cache_set_max_size(o.a); m.max = o.a ? o.a : 1; m.evict(0); break;
    default: c4_eth_tx_cache_reset(); m.kv.clear(); m.fifo.clear();
  }
}
static void start(Model& m) {
  c4_eth_tx_cache_reset();
  c4_eth_tx_cache_set_max_size(10000);
  m = Model();
}
static void run_seq(const std::vector<Op>& ops) {
  Model m;
  start(m);
  std::string h;
  for (size_t i = 0; i < ops.size(); i++) {
    h += show(ops[i]) + " ";
    apply(m, ops[i], (uint32_t) i + 1);
    cmp(m, h);
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  if (section("sequences")) {
    std::vector<Op> al;
    for (int k = 0; k < 4; k++) for (int b = 1; b <= 2; b++) al.push_back({0, k == 3 ? 4 : k, (uint64_t) b});
    al.push_back({1, 1, 0}); al.push_back({1, 2, 0}); al.push_back({2, 2, 0}); al.push_back({2, 3, 0}); al.push_back({2, 1, 0}); al.push_back({2, 0, 0}); al.push_back({3, 0, 0}); al.push_back({1, 0, 0});
    int D = thorough ? 6 : 5;
    for (int d = 1; d <= D; d++) {
      std::vector<int> ix(d, 0);
      while (true) {
        if (next()) {
          std::vector<Op> ops;
          for (int i : ix) ops.push_back(al[i]);
          run_seq(ops);
          if (cur_case < 3000) { std::string s; for (auto& o : ops) s += show(o) + " "; if (cur_case % 1000 == 0) sample(s); }
        }
        int p = d - 1;
        while (p >= 0 && ++ix[p] == (int) al.size()) ix[p--] = 0;
        if (p < 0) break;
      }
    }
  }
  // all insertion orders of colliding keys, all groupings into blocks, evicted one block after the other; then re-inserted
  if (section("evict-orders")) {
    int n = thorough ? 8 : 7;
    NK    = n;
    std::vector<int> perm(n);
    for (int i = 0; i < n; i++) perm[i] = i;
    do {
      for (int g = 0; g < (1 << (n - 1)); g++) {
        if (!next()) continue;
        Model m;
        start(m);
        std::string h;
        uint64_t    bn = 1;
        for (int i = 0; i < n; i++) {
          if (i && (g >> (i - 1) & 1)) bn++;
          Op o{0, perm[i], bn};
          h += show(o) + " ";
          apply(m, o, i + 1);
        }
        cmp(m, h);
        for (int mx = n - 1; mx >= 1; mx--) {
          Op o{2, mx, 0};
          h += show(o) + " ";
          apply(m, o, 0);
          cmp(m, h);
        }
        Op o2{2, 10000, 0};
        apply(m, o2, 0);
        for (int i = 0; i < n; i++) { Op o{0, i, 50}; h += show(o) + " "; apply(m, o, 100 + i); }
        cmp(m, h);
      }
    } while (std::next_permutation(perm.begin(), perm.end()));
    NK = 6;
  }
  if (section("key-identity")) { // keys that differ in a single byte are different keys
    for (int p = 0; p < 32; p++)
      for (int bit = 0; bit < 8; bit++) {
        if (!next()) continue;
        c4_eth_tx_cache_reset();
        c4_eth_tx_cache_set_max_size(100);
        bytes32_t a, b;
        for (int i = 0; i < 32; i++) a[i] = b[i] = (uint8_t) (0x11 * (i & 15) + 3);
        b[p] ^= 1 << bit;
        uint64_t bn = 0; uint32_t ix = 0;
        c4_eth_tx_cache_set(a, 5, 6);
        if (c4_eth_tx_cache_get(b, &bn, &ix)) violation("lookup-confuses-keys", "byte " + std::to_string(p));
        c4_eth_tx_cache_set(b, 7, 8);
        step(5);
        if (!c4_eth_tx_cache_get(a, &bn, &ix) || bn != 5 || ix != 6) violation("lookup-confuses-keys", "first key, byte " + std::to_string(p));
        if (!c4_eth_tx_cache_get(b, &bn, &ix) || bn != 7 || ix != 8) violation("lookup-confuses-keys", "second key, byte " + std::to_string(p));
        outcome(hash64(b, 32));
      }
  }
  // limits around the physical table size: the cache must stay bounded and every operation must return
  if (section("large-limits")) {
    for (uint32_t mx : {100u, 16382u, 16383u, 16384u, 16385u, 20000u, 0xffffffffu})
      for (int per : {1, 7, 300}) {
        if (!next()) continue;
        c4_eth_tx_cache_reset();
        c4_eth_tx_cache_set_max_size(mx);
        size_t cap = c4_eth_tx_cache_capacity();
        if (cap > mx || cap == 0) violation("capacity-wrong", "max=" + std::to_string(mx) + " capacity=" + std::to_string(cap));
        const int N = 17000;
        for (int i = 0; i < N; i++) {
          bytes32_t k;
          key(100 + i, k);
          c4_eth_tx_cache_set(k, 1 + i / per, i);
          step();
          if (c4_eth_tx_cache_size() > cap) { violation("size-exceeds-capacity", "max=" + std::to_string(mx)); break; }
        }
        size_t found = 0;
        int    oldest = -1;
        for (int i = 0; i < N; i++) {
          bytes32_t k; key(100 + i, k);
          uint64_t bn; uint32_t ix;
          step();
          bool f = c4_eth_tx_cache_get(k, &bn, &ix);
          if (f) { found++; if (oldest < 0) oldest = i; if (bn != 1u + i / per || ix != (uint32_t) i) violation("lookup-returns-wrong-location", "large i=" + std::to_string(i)); }
          else if (oldest >= 0) violation("lookup-misses-stored-entry", "newer entry evicted before older, max=" + std::to_string(mx) + " i=" + std::to_string(i));
        }
        if (found != c4_eth_tx_cache_size()) violation("size-wrong", "max=" + std::to_string(mx) + " found=" + std::to_string(found) + " size=" + std::to_string(c4_eth_tx_cache_size()));
        if (found + per < cap && cap <= N - (size_t) per) violation("evicts-more-than-needed", "max=" + std::to_string(mx) + " found=" + std::to_string(found));
        outcome(hash64(&found, 8, mx));
      }
  }
  finish();
}
