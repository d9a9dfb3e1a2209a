// curve- and tower-level entry points (arrays of field elements, little-endian limb order of the backend)
#include <gmlib/number/mont256.h>
#include <gmlib/sm2/internal/sm2p256v1.h>
#include <gmlib/sm9/internal/sm9_field.h>
#include <type_traits>
typedef std::remove_extent_t<number::uint256_t> L;
typedef std::uint8_t u8;
typedef std::size_t sz;
#define X extern "C"
using namespace sm2::internal;
using namespace sm9::internal;
#define FP(p)  ((L*)(p))
#define A1(p)  ((L(*)[sizeof(number::uint256_t) / sizeof(L)])(p))
#define A2(p)  ((sm9_fp2_t*)(p))
#define CURVE(n, pre, A)                                                                    \
    X void n##_cpy_a(void* r, void* p) { pre##_a_cpy(A(r), A(p)); }                         \
    X bool n##_check(void* p) { return pre##_a_check(A(p)); }                               \
    X void n##_neg_a(void* r, void* p) { pre##_a_neg(A(r), A(p)); }                         \
    X void n##_to04(u8* o, void* p) { pre##_a_to_bytes04(o, A(p)); }                        \
    X void n##_from04(void* r, const u8* i) { pre##_a_from_bytes04(A(r), i); }              \
    X void n##_tounc(u8* o, void* p) { pre##_a_to_bytes_uncompressed(o, A(p)); }            \
    X void n##_tocmp(u8* o, void* p) { pre##_a_to_bytes_compressed(o, A(p)); }              \
    X void n##_tomix(u8* o, void* p) { pre##_a_to_bytes_mix(o, A(p)); }                     \
    X int  n##_from(void* r, sz* n_, const u8* i, sz il) { return pre##_a_from_bytes(A(r), n_, i, il); } \
    X void n##_cpy(void* r, void* p) { pre##_j_cpy(A(r), A(p)); }                           \
    X bool n##_isinf(void* p) { return pre##_j_is_inf(A(p)); }                              \
    X void n##_setinf(void* r) { pre##_j_set_inf(A(r)); }                                   \
    X void n##_neg(void* r, void* p) { pre##_j_neg(A(r), A(p)); }                           \
    X void n##_add(void* r, void* p, void* q) { pre##_j_add(A(r), A(p), A(q)); }            \
    X void n##_adda(void* r, void* p, void* q) { pre##_j_add_a(A(r), A(p), A(q)); }         \
    X void n##_dbl(void* r, void* p) { pre##_j_dbl(A(r), A(p)); }                           \
    X void n##_mula(void* r, const u8* k, void* p) { pre##_j_mul_a(A(r), k, A(p)); }        \
    X void n##_mulg(void* r, const u8* k) { pre##_j_mul_g(A(r), k); }                       \
    X void n##_froma(void* r, void* p) { pre##_j_from_a(A(r), A(p)); }                      \
    X void n##_toa(void* r, void* p) { pre##_j_to_a(A(r), A(p)); }                          \
    X void n##_norm(void* r, void* p) { pre##_j_normal(A(r), A(p)); }                       \
    X bool n##_eq(void* p, void* q) { return pre##_j_equal(A(p), A(q)); }
CURVE(s2, sm2_ec, A1)
CURVE(g1, sm9_ec, A1)
CURVE(g2, sm9_ec2, A2)
#define T2(p)  ((L(*)[sizeof(number::uint256_t) / sizeof(L)])(p))
#define T4(p)  ((sm9_fp2_t*)(p))
#define T12(p) ((sm9_fp4_t*)(p))
#define TOWER(n, pre, A)                                                       \
    X void n##_add(void* r, void* a, void* b) { pre##_add(A(r), A(a), A(b)); } \
    X void n##_sub(void* r, void* a, void* b) { pre##_sub(A(r), A(a), A(b)); } \
    X void n##_mul(void* r, void* a, void* b) { pre##_mul(A(r), A(a), A(b)); } \
    X void n##_sqr(void* r, void* a) { pre##_sqr(A(r), A(a)); }                \
    X void n##_inv(void* r, void* a) { pre##_inv(A(r), A(a)); }                \
    X void n##_neg(void* r, void* a) { pre##_neg(A(r), A(a)); }                \
    X void n##_cpy(void* r, void* a) { pre##_cpy(A(r), A(a)); }                \
    X bool n##_eq(void* a, void* b) { return pre##_equal(A(a), A(b)); }        \
    X bool n##_eq0(void* a) { return pre##_equal_zero(A(a)); }                 \
    X bool n##_eq1(void* a) { return pre##_equal_one(A(a)); }                  \
    X void n##_set0(void* a) { pre##_set_zero(A(a)); }                         \
    X void n##_set1(void* a) { pre##_set_one(A(a)); }                          \
    X void n##_to(u8* o, void* a) { pre##_to_bytes(o, A(a)); }                 \
    X void n##_from(void* r, const u8* i) { pre##_from_bytes(A(r), i); }
TOWER(t2, sm9_fp2, T2)
TOWER(t4, sm9_fp4, T4)
TOWER(t12, sm9_fp12, T12)
X void t2_dbl(void* r, void* a) { sm9_fp2_dbl(T2(r), T2(a)); }
X void t2_tpl(void* r, void* a) { sm9_fp2_tpl(T2(r), T2(a)); }
X void t2_mulu(void* r, void* a) { sm9_fp2_mul_u(T2(r), T2(a)); }
X void t2_mulfp(void* r, void* a, void* b) { sm9_fp2_mul_fp(T2(r), T2(a), FP(b)); }
X void t4_mulv(void* r, void* a) { sm9_fp4_mul_v(T4(r), T4(a)); }
X void t4_mulfp(void* r, void* a, void* b) { sm9_fp4_mul_fp(T4(r), T4(a), FP(b)); }
X void t4_mulfp2(void* r, void* a, void* b) { sm9_fp4_mul_fp2(T4(r), T4(a), T2(b)); }
X void t12_mulfp4(void* r, void* a, void* b) { sm9_fp12_mul_fp4(T12(r), T12(a), T4(b)); }
X void t12_pow(void* r, void* a, const u8* e) { sm9_fp12_pow(T12(r), T12(a), e); }
X void pairing(void* r, void* p, void* q) { sm9_pairing(T12(r), A1(p), A2(q)); }
X void pairing_p1(void* r, void* q) { sm9_pairing_P1_Q(T12(r), A2(q)); }
X void pairing_p2(void* r, void* p) { sm9_pairing_P_P2(T12(r), A1(p)); }
X int fsqrt2(void* r, void* a) { return sm2_fp_sqrt(FP(r), FP(a)); }
X int fsqrt9(void* r, void* a) { return sm9_fp_sqrt(FP(r), FP(a)); }
