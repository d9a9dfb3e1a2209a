// field-level entry points: sm2/sm9 field API (real contexts) plus mont256_* on contexts
// built from the standards' moduli for the operations the field API does not expose
#include <gmlib/number/mont256.h>
#include <gmlib/sm2/internal/sm2p256v1.h>
#include <gmlib/sm9/internal/sm9_field.h>
#include <type_traits>
using namespace number;
typedef std::remove_extent_t<uint256_t> L;
#define X extern "C"
#include "consts.h"
using namespace sm2::internal;
using namespace sm9::internal;
#define CTX(m) static const Mont256CTX ctx_##m = {C_##m[0], C_##m[1], C_##m[2], C_##m[3], mont_compute_N_(C_##m[0][0])};
CTX(p2) CTX(n2) CTX(p9) CTX(n9)
#define API(m, pre)                                                                   \
    X void f_add_##m(L* r, const L* a, const L* b) { pre##_add(r, a, b); }            \
    X void f_sub_##m(L* r, const L* a, const L* b) { pre##_sub(r, a, b); }            \
    X void f_mul_##m(L* r, const L* a, const L* b) { pre##_mul(r, a, b); }            \
    X void f_sqr_##m(L* r, const L* a) { pre##_sqr(r, a); }                           \
    X void f_inv_##m(L* r, const L* a) { pre##_inv(r, a); }                           \
    X bool f_eq_##m(const L* a, const L* b) { return pre##_equal(a, b); }             \
    X bool f_eq0_##m(const L* a) { return pre##_equal_zero(a); }                      \
    X bool f_eq1_##m(const L* a) { return pre##_equal_one(a); }                       \
    X void f_cpy_##m(L* r, const L* a) { pre##_cpy(r, a); }                           \
    X void f_set0_##m(L* r) { pre##_set_zero(r); }                                    \
    X void f_set1_##m(L* r) { pre##_set_one(r); }                                     \
    X void f_from_##m(L* r, const std::uint8_t* b) { pre##_from_bytes(r, b); }        \
    X void f_to_##m(std::uint8_t* b, const L* a) { pre##_to_bytes(b, a); }
API(p2, sm2_fp) API(n2, sm2_fn) API(p9, sm9_fp) API(n9, sm9_fn)
#define API2(m, pre)                                           \
    X void f_dbl_##m(L* r, const L* a) { pre##_dbl(r, a); }    \
    X void f_tpl_##m(L* r, const L* a) { pre##_tpl(r, a); }    \
    X void f_neg_##m(L* r, const L* a) { pre##_neg(r, a); }    \
    X int  f_sqrt_##m(L* r, const L* a) { return pre##_sqrt(r, a); }
API2(p2, sm2_fp) API2(p9, sm9_fp)
#define API3(m)                                                              \
    X void f_dbl_##m(L* r, const L* a) { mont256_dbl(&ctx_##m, r, a); }      \
    X void f_tpl_##m(L* r, const L* a) { mont256_tpl(&ctx_##m, r, a); }      \
    X void f_neg_##m(L* r, const L* a) { mont256_neg(&ctx_##m, r, a); }
API3(n2) API3(n9)
#define API4(m)                                                                            \
    X void f_div2_##m(L* r, const L* a) { mont256_div2(&ctx_##m, r, a); }                  \
    X void f_pow_##m(L* r, const L* a, const L* e) { mont256_pow(&ctx_##m, r, a, e); }     \
    X void f_set32_##m(L* r, std::uint32_t k) { mont256_set_uint32(&ctx_##m, r, k); }      \
    X void f_fromx_##m(L* r, const std::uint8_t* b, std::size_t n) { mont256_from_bytes_ex(&ctx_##m, r, b, n); } \
    X void f_madd_##m(L* r, const L* a, const L* b) { uint256_mod_add(r, a, b, C_##m[0]); } \
    X void f_msub_##m(L* r, const L* a, const L* b) { uint256_mod_sub(r, a, b, C_##m[0]); } \
    X void f_mod_##m(L* r, const std::uint8_t* b, std::size_t n) { uint256_mod(r, b, n, C_##m[0]); }
API4(p2) API4(n2) API4(p9) API4(n9)
X void f_fromx_real_n2(L* r, const std::uint8_t* b, std::size_t n) { sm2_fn_from_bytes_ex(r, b, n); }
X void f_fromx_real_n9(L* r, const std::uint8_t* b, std::size_t n) { sm9_fn_from_bytes_ex(r, b, n); }
X void f_modn1_ex_n9(L* r, const std::uint8_t* b, std::size_t n) { sm9_bn_mod_n_sub1_ex(r, b, n); }
#define CONV(n, f) X void n(L* r, const L* a) { f(r, a); }
CONV(f_to_bn_p2, sm2_fp_to_bn) CONV(f_to_bn_n2, sm2_fn_to_bn) CONV(f_to_bn_p9, sm9_fp_to_bn) CONV(f_to_bn_n9, sm9_fn_to_bn)
CONV(f_from_bn_p2, sm2_fp_from_bn) CONV(f_from_bn_n2, sm2_fn_from_bn) CONV(f_from_bn_p9, sm9_fp_from_bn) CONV(f_from_bn_n9, sm9_fn_from_bn)
CONV(f_fn_from_fp_2, sm2_fn_from_fp) CONV(f_fn_to_fp_2, sm2_fn_to_fp) CONV(f_fn_from_fp_9, sm9_fn_from_fp) CONV(f_fn_to_fp_9, sm9_fn_to_fp)
