// 256-bit arithmetic stand-in for libs/intx (the intx library itself is not available offline).
#include "intx_c_api.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <cstring>
#include <string>
#include <algorithm>
namespace mp = boost::multiprecision;
using U = mp::number<mp::cpp_int_backend<256, 256, mp::unsigned_magnitude, mp::unchecked, void>>;
using W = mp::number<mp::cpp_int_backend<512, 512, mp::unsigned_magnitude, mp::unchecked, void>>;
static U ld(const intx_uint256_t* v) {
  uint64_t l[4];
  for (int i = 0; i < 4; i++) { uint64_t x = 0; for (int j = 0; j < 8; j++) x = x << 8 | v->bytes[(3 - i) * 8 + j]; l[i] = x; }
  U u = 0; mp::import_bits(u, l, l + 4, 64, false); return u;
}
static void st(const U& u, intx_uint256_t* v) {
  uint64_t l[4] = {0, 0, 0, 0};
  for (int i = 0; i < 4; i++) l[i] = (uint64_t) ((u >> (64 * i)) & U(~0ULL));
  for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) v->bytes[(3 - i) * 8 + j] = (unsigned char) (l[i] >> (56 - 8 * j));
}
extern "C" {
void intx_init(intx_uint256_t* v) { memset(v->bytes, 0, 32); }
void intx_init_value(intx_uint256_t* v, unsigned long long x) { st(U(x), v); }
int  intx_from_string(intx_uint256_t* v, const char* s, int base) {
  if (!v || !s) return 0;
  intx_init(v);
  if (base != 10 && base != 16) return 0;
  if (base == 16 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s += 2;
  U a = 0; bool d = false;
  for (; *s; s++) {
    unsigned x; char c = *s;
    if (c >= '0' && c <= '9') x = c - '0';
    else if (base == 16 && c >= 'a' && c <= 'f') x = c - 'a' + 10;
    else if (base == 16 && c >= 'A' && c <= 'F') x = c - 'A' + 10;
    else return 0;
    d = true; a = a * base + x;
  }
  if (!d) return 0;
  st(a, v); return 1;
}
void intx_to_string(const intx_uint256_t* v, char* o, int n, int base) {
  U u = ld(v); std::string s;
  if (u == 0) s = "0";
  while (u != 0) { int d = (int) (unsigned) (u % base); s.push_back("0123456789abcdef"[d]); u /= base; }
  std::reverse(s.begin(), s.end());
  size_t l = std::min((size_t) (n - 1), s.size()); memcpy(o, s.data(), l); o[l] = 0;
}
#define OP(name, e) void intx_##name(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b) { U x = ld(a), y = ld(b); st(e, r); }
OP(add, x + y) OP(sub, x - y) OP(mul, x* y) OP(div, y == 0 ? ~U(0) : U(x / y)) OP(mod, y == 0 ? U(0) : U(x % y)) OP(and, x& y) OP(or, x | y) OP(xor, x ^ y)
void intx_not(intx_uint256_t* r, const intx_uint256_t* a) { st(~ld(a), r); }
void intx_shl(intx_uint256_t* r, const intx_uint256_t* a, unsigned int s) { st(s > 255 ? U(0) : U(ld(a) << s), r); }
void intx_shr(intx_uint256_t* r, const intx_uint256_t* a, unsigned int s) { st(s > 255 ? U(0) : U(ld(a) >> s), r); }
int  intx_eq(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) == 0; }
int  intx_lt(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) < 0; }
int  intx_gt(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) > 0; }
int  intx_lte(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) <= 0; }
int  intx_gte(const intx_uint256_t* a, const intx_uint256_t* b) { return memcmp(a->bytes, b->bytes, 32) >= 0; }
void intx_exp(intx_uint256_t* r, const intx_uint256_t* base, const intx_uint256_t* ex) { U b = ld(base), e = ld(ex), s = 1; while (e > 0) { if ((e & 1) != 0) s *= b; e >>= 1; b *= b; } st(s, r); }
int  intx_is_zero(const intx_uint256_t* v) { for (int i = 0; i < 32; i++) if (v->bytes[i]) return 0; return 1; }
void intx_modexp(intx_uint256_t* r, const intx_uint256_t* base, const intx_uint256_t* ex, const intx_uint256_t* mod) {
  U m = ld(mod), e = ld(ex); if (m == 0) { intx_init(r); return; }
  W mm(m), b = W(ld(base)) % mm, s = 1; while (e > 0) { if ((e & 1) != 0) s = s * b % mm; e >>= 1; b = b * b % mm; } st(U(s), r);
}
void intx_from_bytes(intx_uint256_t* r, const bytes_t b) { memset(r->bytes, 0, 32); if (b.len <= 32) memcpy(r->bytes + (32 - b.len), b.data, b.len); else memcpy(r->bytes, b.data + (b.len - 32), 32); }
void intx_add_mod(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b, const intx_uint256_t* m) { st(U((W(ld(a)) + W(ld(b))) % W(ld(m))), r); }
void intx_sub_mod(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b, const intx_uint256_t* m) { U x = ld(a), y = ld(b), d = x - y; if (x < y) d += ld(m); st(d, r); }
void intx_mul_mod(intx_uint256_t* r, const intx_uint256_t* a, const intx_uint256_t* b, const intx_uint256_t* m) { st(U(W(ld(a)) * W(ld(b)) % W(ld(m))), r); }
}
