// every bit of an encoded answer changed (offsets, selectors and lengths included), every byte zero or full,
// cut at every byte and extended
#pragma once
#include "mc.hpp"
template <class F> static void wire_edits(const ref::Bytes& honest, F f) {
  ref::Bytes rq = honest;
  for (size_t i = 0; i < honest.size(); i++) {
    for (int e = 0; e < 10; e++) {
      if (!mc::next()) continue;
      uint8_t o = honest[i], n = e < 8 ? o ^ (1 << e) : e == 8 ? 0 : 0xff;
      if (o == n) continue;
      rq[i] = n;
      f(rq, "byte " + std::to_string(i) + " " + std::to_string(o) + " to " + std::to_string(n));
      rq[i] = o;
    }
    if (mc::next()) f(ref::Bytes(honest.begin(), honest.begin() + i), "cut at " + std::to_string(i));
  }
  for (int e = 1; e <= 40; e++)
    for (int v : {0, 0xff}) {
      if (!mc::next()) continue;
      ref::Bytes r2 = honest; r2.insert(r2.end(), e, v);
      f(r2, "extended by " + std::to_string(e));
    }
}
