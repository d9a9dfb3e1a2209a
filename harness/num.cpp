#include <gmlib/number/uint256.h>
#include <gmlib/number/mpz.h>
#include <gmlib/number/mont256.h>
#include <type_traits>
using namespace number;
typedef std::remove_extent_t<uint256_t> L;
#define X extern "C"
X int h_add(L* r, const L* a, const L* b) { return uint256_add_carry(r, a, b); }
X int h_sub(L* r, const L* a, const L* b) { return uint256_sub_borrow(r, a, b); }
X int h_dbl(L* r, const L* a) { return uint256_dbl_carry(r, a); }
X int h_tpl(L* r, const L* a) { return uint256_tpl_carry(r, a); }
X void h_mul(L* r, const L* a, const L* b) { uint256_mul(r, a, b); }
X void h_sqr(L* r, const L* a) { uint256_sqr(r, a); }
X int h_add32(L* r, const L* a, std::uint32_t b) { return uint256_add_carry_uint32(r, a, b); }
X int h_sub32(L* r, const L* a, std::uint32_t b) { return uint256_sub_borrow_uint32(r, a, b); }
X std::uint32_t h_mul32(L* r, const L* a, std::uint32_t b) { return uint256_mul_carry_uint32(r, a, b); }
#ifdef X64
X std::uint64_t h_divL(L* r, const L* a, L b) { return uint256_div_uint64(r, a, b); }
X int h_addL(L* r, const L* a, L b) { return uint256_add_carry_uint64(r, a, b); }
X int h_subL(L* r, const L* a, L b) { return uint256_sub_borrow_uint64(r, a, b); }
X L h_mulL(L* r, const L* a, L b) { return uint256_mul_carry_uint64(r, a, b); }
X int h_cmpL(const L* a, L b) { return uint256_cmp_uint64(a, b); }
X void h_setL(L* r, L b) { uint256_set_uint64(r, b); }
#else
X std::uint32_t h_divL(L* r, const L* a, L b) { return uint256_div_uint32(r, a, b); }
#endif
X void h_modadd(L* r, const L* a, const L* b, const L* p) { uint256_mod_add(r, a, b, p); }
X void h_modsub(L* r, const L* a, const L* b, const L* p) { uint256_mod_sub(r, a, b, p); }
X void h_mod(L* r, const std::uint8_t* d, std::size_t n, const L* p) { uint256_mod(r, d, n, p); }
X int h_cmp(const L* a, const L* b) { return uint256_cmp(a, b); }
X int h_cmp32(const L* a, std::uint32_t b) { return uint256_cmp_uint32(a, b); }
X bool h_eq(const L* a, const L* b) { return uint256_equal(a, b); }
X bool h_eq0(const L* a) { return uint256_equal_zero(a); }
X bool h_eq1(const L* a) { return uint256_equal_one(a); }
X void h_cpy(L* r, const L* a) { uint256_cpy(r, a); }
X void h_set0(L* r) { uint256_set_zero(r); }
X void h_set1(L* r) { uint256_set_one(r); }
X void h_set32(L* r, std::uint32_t b) { uint256_set_uint32(r, b); }
X void h_from(L* r, const std::uint8_t* b) { uint256_from_bytes(r, b); }
X void h_to(std::uint8_t* b, const L* a) { uint256_to_bytes(b, a); }
X bool h_bit(const L* a, int i) { return uint256_bittest(a, i); }

X int z_add(L* r, const L* a, const L* b, int c, std::size_t n) { return mpz_add_carry(r, a, b, c, n); }
X int z_sub(L* r, const L* a, const L* b, int c, std::size_t n) { return mpz_sub_borrow(r, a, b, c, n); }
X void z_mul(L* r, const L* a, const L* b, std::size_t n) { mpz_mul(r, a, b, n); }
X int z_cmp(const L* a, const L* b, std::size_t n) { return mpz_cmp(a, b, n); }
X void z_cpy(L* r, const L* a, std::size_t n) { mpz_cpy(r, a, n); }
X void z_from(L* r, const std::uint8_t* a, std::size_t n) { mpz_from_bytes(r, a, n); }
X void z_to(std::uint8_t* r, const L* a, std::size_t n) { mpz_to_bytes(r, a, n); }
