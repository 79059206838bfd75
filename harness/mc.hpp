// Shared scaffolding of the explorers: case numbering, sharding, replay, counters, violation reporting.
// A harness enumerates its bounded space in a fixed order; every execution is "section:index".
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <thread>
#include <atomic>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

namespace mc {
typedef std::vector<uint8_t> Bytes;
inline int                  shard = 0, nshards = 1;
inline bool                 thorough = false, only_leaks = false, log_all = false; // log_all: the code under test writes all it can to its log; only_leaks: report what is not released, nothing else
inline std::string          only_section;
inline int64_t              only_case = -1;
inline std::string          want_prefix;    // run only sections with this prefix
inline std::string          want_section;   // run only this section if set
inline std::string          cur_section = "init";
inline std::atomic<int64_t> cur_case{-1};
inline uint64_t             cases = 0, steps = 0;
inline std::map<std::string, std::pair<uint64_t, uint64_t>> per_section; // cases, total enumerated
inline std::unordered_set<uint64_t>          outcomes;
inline std::map<std::string, int>            viol_count;
inline std::vector<std::string>              samples;
inline int                                   nviol   = 0;
inline bool                                  capped  = false;
inline std::string                           outfile;   // stats + distinct hashes
inline char*                                 pos_map = nullptr; // where we are, survives a crash

inline uint64_t hash64(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t* b = (const uint8_t*) p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; h ^= h >> 29; }
  return h;
}
inline uint64_t hash64(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash64(s.data(), s.size(), h); }
inline uint64_t hash64(const Bytes& s, uint64_t h = 1469598103934665603ull) { return hash64(s.data(), s.size(), h); }

inline std::string hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string        r;
  for (size_t i = 0; i < n; i++) { r += d[((const uint8_t*) p)[i] >> 4]; r += d[((const uint8_t*) p)[i] & 15]; }
  return r;
}
inline std::string hex(const Bytes& b) { return hex(b.data(), b.size()); }

inline std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

inline void note_pos() {
  if (pos_map) snprintf(pos_map, 256, "%s:%lld", cur_section.c_str(), (long long) cur_case.load());
}

// starts a section; returns false if it is not wanted in this run
inline bool section(const std::string& name) {
  if (name.compare(0, want_prefix.size(), want_prefix)) return false;
  if (!want_section.empty() && want_section != name) return false;
  if (!only_section.empty() && only_section != name) return false;
  cur_section = name;
  cur_case    = (int64_t) per_section[name].second - 1; // a section may be entered several times
  return true;
}
// announces the next case of the enumeration; returns true if this process has to run it
inline bool next() {
  int64_t i = ++cur_case;
  per_section[cur_section].second++;
  if (only_case >= 0) {
    if (i != only_case) return false;
  }
  else if ((i % nshards) != shard) return false;
  cases++;
  per_section[cur_section].first++;
  if (pos_map) { // cheap position note
    memcpy(pos_map + 256, &i, 8);
    if (strncmp(pos_map, cur_section.c_str(), 200)) { strncpy(pos_map, cur_section.c_str(), 200); }
  }
  return true;
}
inline void step(uint64_t n = 1) { steps += n; }
inline void outcome(uint64_t h) { if (outcomes.size() < 3000000) outcomes.insert(h); }
inline void sample(const std::string& s) { if (samples.size() < 4 && shard == 0) samples.push_back(s.substr(0, 600)); }

// sig: stable identification of what fails (without case numbers); detail: the concrete input
inline void violation(const std::string& sig, const std::string& detail) {
  if (only_leaks && sig.compare(0, 5, "leak:")) return;
  nviol++;
  static const int cap_ = getenv("MC_VCAP") ? atoi(getenv("MC_VCAP")) : 2;
  if (viol_count[sig]++ < cap_ && viol_count.size() < 60) {
    printf("V\t%s\t%s:%lld\t%s\n", sig.c_str(), cur_section.c_str(), (long long) cur_case.load(), detail.substr(0, 3000).c_str());
    fflush(stdout);
  }
}
#define MC_CHECK(cond, sig, detail) do { if (!(cond)) mc::violation(sig, detail); } while (0)

inline void finish() {
  std::string j = "{\"cases\":" + std::to_string(cases) + ",\"steps\":" + std::to_string(steps) + ",\"violations\":" + std::to_string(nviol) + ",\"capped\":" + (capped ? "true" : "false") + ",\"sections\":{";
  bool f = true;
  for (auto& p : per_section) { j += (f ? "" : ",") + jstr(p.first) + ":[" + std::to_string(p.second.first) + "," + std::to_string(p.second.second) + "]"; f = false; }
  j += "},\"samples\":[";
  f = true;
  for (auto& s : samples) { j += (f ? "" : ",") + jstr(s); f = false; }
  j += "]}";
  if (!outfile.empty()) {
    FILE* o = fopen((outfile + ".hash").c_str(), "wb");
    for (uint64_t h : outcomes) fwrite(&h, 8, 1, o);
    fclose(o);
  }
  printf("STATS\t%s\n", j.c_str());
  fflush(stdout);
  _exit(0);
}

// silence what the code under test prints; sanitizer reports still go to the real stderr
inline void quiet_stderr() {
  int fd = dup(2);
  if (fd < 0) return;
#if __has_feature(address_sanitizer)
  __sanitizer_set_report_fd((void*) (intptr_t) fd);
#endif
  if (freopen("/dev/null", "w", stderr)) {}
}

// for exploration that must survive an abort: run f in a child; returns the raw wait status
inline int in_child(const std::function<void()>& f, unsigned timeout = 20) {
  fflush(stdout);
  pid_t p = fork();
  if (!p) { alarm(timeout); if (freopen("/dev/null", "w", stderr)) {} f(); fflush(stdout); _exit(0); }
  int st = 0;
  waitpid(p, &st, 0);
  return st;
}

inline void init(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--shard") { std::string s = v(); sscanf(s.c_str(), "%d/%d", &shard, &nshards); }
    else if (a == "--thorough") thorough = true;
    else if (a == "--leaks") only_leaks = true;
    else if (a == "--log") log_all = true;
    else if (a == "--only") { std::string s = v(); auto p = s.rfind(':'); only_section = s.substr(0, p); only_case = atoll(s.c_str() + p + 1); }
    else if (a == "--prefix") want_prefix = v();
    else if (a == "--section") want_section = v();
    else if (a == "--out") outfile = v();
  }
  if (!outfile.empty()) {
    FILE* f = fopen((outfile + ".pos").c_str(), "w+b");
    std::vector<char> z(4096);
    fwrite(z.data(), 1, 4096, f); fflush(f);
    pos_map = (char*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fileno(f), 0);
    fclose(f);
    if (pos_map == MAP_FAILED) pos_map = nullptr;
  }
}
} // namespace mc
// LeakSanitizer is off: lifetime is checked where a property asks for it
extern "C" inline __attribute__((used)) const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0"; }
