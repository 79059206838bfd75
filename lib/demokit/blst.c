#include "blst.h"
#include <string.h>
#define P ((1ULL << 61) - 1)
#define TAG 0x70316f6bULL
uint64_t toy_pairings = 0;
static uint64_t fnv(const byte* d, size_t n, uint64_t h) {
  for (size_t i = 0; i < n; i++) { h ^= d[i]; h *= 0x100000001b3ULL; h ^= h >> 29; }
  h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32; h *= 0x94d049bb133111ebULL; h ^= h >> 29;
  return h;
}
uint64_t toy_add(uint64_t a, uint64_t b) { return (a + b) % P; }
uint64_t toy_mul(uint64_t a, uint64_t b) { return (uint64_t) (((unsigned __int128) a * b) % P); }
uint64_t toy_pk_element(const byte pk[48]) { return 1 + fnv(pk, 48, 0xcbf29ce484222325ULL) % (P - 1); }
uint64_t toy_msg_element(const byte* m, size_t l, const byte* d, size_t dl) { return 1 + fnv(m, l, fnv(d, dl, 0x1234567)) % (P - 1); }
void toy_sig_encode(byte out[96], uint64_t v) {
  memset(out, 0, 96);
  out[0] = 0xa0;
  for (int i = 0; i < 8; i++) out[88 + i] = (byte) (v >> (56 - 8 * i));
}
BLST_ERROR blst_p1_uncompress(blst_p1_affine* o, const byte in[48]) {
  memset(o, 0, sizeof *o);
  if (!(in[0] & 0x80)) return BLST_BAD_ENCODING;
  o->v = toy_pk_element(in); o->tag = TAG;
  return BLST_SUCCESS;
}
BLST_ERROR blst_p2_uncompress(blst_p2_affine* o, const byte in[96]) {
  memset(o, 0, sizeof *o);
  if (in[0] != 0xa0) return BLST_BAD_ENCODING;
  for (int i = 1; i < 88; i++) if (in[i]) return BLST_POINT_NOT_ON_CURVE;
  uint64_t v = 0;
  for (int i = 0; i < 8; i++) v = v << 8 | in[88 + i];
  if (v >= P) return BLST_BAD_ENCODING;
  o->v = v; o->tag = TAG;
  return BLST_SUCCESS;
}
static void setp(blst_p1* o, uint64_t v) { memset(o, 0, sizeof *o); o->v = v; o->tag = TAG; }
void blst_p1_from_affine(blst_p1* o, const blst_p1_affine* i) { uint64_t v = i->v, t = i->tag; setp(o, v); o->tag = t; }
void blst_p1_to_affine(blst_p1_affine* o, const blst_p1* i) { uint64_t v = i->v, t = i->tag; memset(o, 0, sizeof *o); o->v = v; o->tag = t; }
void blst_p1_add_or_double(blst_p1* o, const blst_p1* a, const blst_p1* b) { int ok = a->tag == TAG && b->tag == TAG; setp(o, toy_add(a->v, b->v)); if (!ok) o->tag = 0; }
void blst_p1_add(blst_p1* o, const blst_p1* a, const blst_p1* b) { if (a->v == b->v) setp(o, 0); else blst_p1_add_or_double(o, a, b); }
void blst_p1_add_or_double_affine(blst_p1* o, const blst_p1* a, const blst_p1_affine* b) { int ok = a->tag == TAG && b->tag == TAG; setp(o, toy_add(a->v, b->v)); if (!ok) o->tag = 0; }
/* blst documents blst_p1_add_affine as incomplete: equal operands give garbage */
void blst_p1_add_affine(blst_p1* o, const blst_p1* a, const blst_p1_affine* b) { if (a->v == b->v) setp(o, 0); else blst_p1_add_or_double_affine(o, a, b); }
void blst_p1s_add(blst_p1* r, const blst_p1_affine* const pts[], size_t n) {
  uint64_t s = 0; int ok = n > 0;
  for (size_t i = 0; i < n; i++) { s = toy_add(s, pts[i]->v); if (pts[i]->tag != TAG) ok = 0; }
  setp(r, s); if (!ok) r->tag = 0;
}
bool blst_p1_is_inf(const blst_p1* a) { return a->v == 0; }
bool blst_p1_affine_is_inf(const blst_p1_affine* a) { return a->v == 0; }
bool blst_p1_affine_in_g1(const blst_p1_affine* a) { return a->tag == TAG; }
bool blst_p2_affine_in_g2(const blst_p2_affine* a) { return a->tag == TAG; }
bool blst_p2_affine_is_inf(const blst_p2_affine* a) { return a->v == 0; }
typedef struct { int init, ncommit, n; byte dst[128]; size_t dl; uint64_t lhs, rhs; } pctx;
size_t blst_pairing_sizeof(void) { return sizeof(pctx); }
void blst_pairing_init(blst_pairing* c, bool h, const byte* dst, size_t dl) { pctx* p = (pctx*) c; memset(p, 0, sizeof *p); p->init = h ? 1 : 2; p->dl = dl < 128 ? dl : 128; memcpy(p->dst, dst, p->dl); }
void blst_pairing_commit(blst_pairing* c) { ((pctx*) c)->ncommit++; }
BLST_ERROR blst_pairing_chk_n_aggr_pk_in_g1(blst_pairing* c, const blst_p1_affine* pk, bool g1, const blst_p2_affine* sig, bool g2, const byte* m, size_t ml, const byte* aug, size_t al) {
  (void) aug; (void) al; (void) g1; (void) g2;
  pctx* p = (pctx*) c;
  if (pk->tag != TAG || pk->v == 0) return BLST_PK_IS_INFINITY;
  p->n++;
  p->lhs = toy_add(p->lhs, toy_mul(pk->v, toy_msg_element(m, ml, p->dst, p->dl)));
  if (sig) p->rhs = toy_add(p->rhs, sig->v);
  return BLST_SUCCESS;
}
BLST_ERROR blst_pairing_aggregate_pk_in_g1(blst_pairing* c, const blst_p1_affine* pk, const blst_p2_affine* sig, const byte* m, size_t ml, const byte* aug, size_t al) { return blst_pairing_chk_n_aggr_pk_in_g1(c, pk, 0, sig, 0, m, ml, aug, al); }
bool blst_pairing_finalverify(const blst_pairing* c, const blst_fp12* g) { (void) g; const pctx* p = (const pctx*) c; toy_pairings++; return p->ncommit && p->n && p->lhs == p->rhs && p->init == 1; }
BLST_ERROR blst_core_verify_pk_in_g1(const blst_p1_affine* pk, const blst_p2_affine* sig, bool h, const byte* m, size_t ml, const byte* dst, size_t dl, const byte* aug, size_t al) {
  pctx p; blst_pairing_init((blst_pairing*) &p, h, dst, dl);
  BLST_ERROR e = blst_pairing_chk_n_aggr_pk_in_g1((blst_pairing*) &p, pk, 1, sig, 1, m, ml, aug, al);
  if (e) return e;
  blst_pairing_commit((blst_pairing*) &p);
  return blst_pairing_finalverify((blst_pairing*) &p, 0) ? BLST_SUCCESS : BLST_VERIFY_FAIL;
}
