// What the code of /repo allocates while a Guard is active and has not released again (only in builds with ASan).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <execinfo.h>
#include <string>
#include <vector>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define LEAK_ON 1
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#endif
namespace leak {
struct E { const void* p; size_t n; void* bt[14]; int d; };
inline constexpr size_t CAP = 1 << 17;
inline E    tab[CAP];
inline int  on = 0;
inline bool installed = false, busy = false, traces = false;
inline size_t live = 0;
inline size_t slot(const void* p) { size_t h = ((uintptr_t) p >> 4) * 0x9e3779b97f4a7c15ull >> 47; return h & (CAP - 1); }
inline void hook_malloc(const volatile void* vp, size_t n) {
  const void* p = const_cast<const void*>(vp);
  if (!on || busy || !p || live > CAP / 2) return;
  busy = true;
  size_t i = slot(p);
  while (tab[i].p && tab[i].p != (void*) 1) i = (i + 1) & (CAP - 1);
  tab[i].p = p; tab[i].n = n; tab[i].d = 0;
  if (traces) tab[i].d = backtrace(tab[i].bt, 14);
  live++;
  busy = false;
}
inline void hook_free(const volatile void* vp) {
  const void* p = const_cast<const void*>(vp);
  if (!live || busy || !p) return;
  for (size_t i = slot(p), k = 0; tab[i].p && k < CAP; i = (i + 1) & (CAP - 1), k++) if (tab[i].p == p) { tab[i].p = (void*) 1; live--; return; }
}
inline void reset() { memset(tab, 0, sizeof tab); live = 0; }
struct Guard {
  Guard() { on++; }
  ~Guard() { on--; }
};
inline void install() {
#ifdef LEAK_ON
  if (!installed) { void* b[4]; backtrace(b, 4); __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free); installed = true; }
#endif
}
// the functions that allocated what is left, innermost first
inline std::vector<std::string> sites() {
  std::vector<std::string> r;
#ifdef LEAK_ON
  busy = true;
  for (auto& e : tab) {
    if (!e.p || e.p == (void*) 1) continue;
    std::string s;
    for (int i = 0; i < e.d; i++) {
      char b[256]; __sanitizer_symbolize_pc(e.bt[i], "%f", b, sizeof b);
      std::string f = b;
      if (f.find("leak") != std::string::npos || f == "backtrace" || f.find("sanitizer") != std::string::npos || f.find("alloc") != std::string::npos || f.find("strdup") != std::string::npos || f.find("asan") != std::string::npos) continue;
      if (f.find("prv::") != std::string::npos || f == "main" || f.find("world::") != std::string::npos) break;
      s += (s.empty() ? "" : "<") + f;
    }
    if (s.rfind("operator new", 0)) r.push_back(s); // the code is C: operator new belongs to the storage of the harness
  }
  busy = false;
#endif
  return r;
}
} // namespace leak
