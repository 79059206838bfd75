/* Ideal (toy) BLS functionality used by the checks instead of the real blst library, which is not
 * available in the sandbox. Group elements are integers mod 2^61-1; a public key's element is a
 * hash of its 48 bytes, a signature over m by a set S is (sum of elements) * H(dst,m). */
#ifndef BLST_H
#define BLST_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint8_t byte;
typedef enum { BLST_SUCCESS = 0, BLST_BAD_ENCODING, BLST_POINT_NOT_ON_CURVE, BLST_POINT_NOT_IN_GROUP, BLST_AGGR_TYPE_MISMATCH, BLST_VERIFY_FAIL, BLST_PK_IS_INFINITY, BLST_BAD_SCALAR } BLST_ERROR;
typedef struct { uint64_t v; uint64_t tag; uint64_t pad[10]; } blst_p1_affine; /* 96 bytes, as in blst */
typedef struct { uint64_t v; uint64_t tag; uint64_t pad[16]; } blst_p1;        /* 144 bytes */
typedef struct { uint64_t v; uint64_t tag; uint64_t pad[22]; } blst_p2_affine; /* 192 bytes */
typedef struct { uint64_t v; uint64_t tag; uint64_t pad[34]; } blst_p2;
typedef struct blst_opaque { int x; } blst_pairing;
typedef struct { uint64_t v; } blst_fp12;
BLST_ERROR blst_p1_uncompress(blst_p1_affine* out, const byte in[48]);
BLST_ERROR blst_p2_uncompress(blst_p2_affine* out, const byte in[96]);
void blst_p1_from_affine(blst_p1* out, const blst_p1_affine* in);
void blst_p1_to_affine(blst_p1_affine* out, const blst_p1* in);
void blst_p1_add(blst_p1* out, const blst_p1* a, const blst_p1* b);
void blst_p1_add_or_double(blst_p1* out, const blst_p1* a, const blst_p1* b);
void blst_p1_add_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b);
void blst_p1_add_or_double_affine(blst_p1* out, const blst_p1* a, const blst_p1_affine* b);
void blst_p1s_add(blst_p1* ret, const blst_p1_affine* const points[], size_t npoints);
bool blst_p1_is_inf(const blst_p1* a);
bool blst_p1_affine_is_inf(const blst_p1_affine* a);
bool blst_p1_affine_in_g1(const blst_p1_affine* a);
bool blst_p2_affine_in_g2(const blst_p2_affine* a);
bool blst_p2_affine_is_inf(const blst_p2_affine* a);
size_t blst_pairing_sizeof(void);
void blst_pairing_init(blst_pairing* ctx, bool hash_or_encode, const byte* dst, size_t dst_len);
void blst_pairing_commit(blst_pairing* ctx);
BLST_ERROR blst_pairing_chk_n_aggr_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* pk, bool pk_grpchk, const blst_p2_affine* sig, bool sig_grpchk, const byte* msg, size_t msg_len, const byte* aug, size_t aug_len);
BLST_ERROR blst_pairing_aggregate_pk_in_g1(blst_pairing* ctx, const blst_p1_affine* pk, const blst_p2_affine* sig, const byte* msg, size_t msg_len, const byte* aug, size_t aug_len);
bool blst_pairing_finalverify(const blst_pairing* ctx, const blst_fp12* gtsig);
BLST_ERROR blst_core_verify_pk_in_g1(const blst_p1_affine* pk, const blst_p2_affine* sig, bool hash_or_encode, const byte* msg, size_t msg_len, const byte* dst, size_t dst_len, const byte* aug, size_t aug_len);
/* harness side of the ideal functionality */
uint64_t toy_pk_element(const byte pk[48]);
uint64_t toy_msg_element(const byte* msg, size_t len, const byte* dst, size_t dst_len);
uint64_t toy_add(uint64_t a, uint64_t b);
uint64_t toy_mul(uint64_t a, uint64_t b);
void     toy_sig_encode(byte out[96], uint64_t v);
extern uint64_t toy_pairings; /* number of pairing checks executed */
#ifdef __cplusplus
}
#endif
#endif
