#include <gmlib/sm3/sm3.h>
#include <cstring>
#include <cstdint>
typedef std::uint8_t u8;
typedef std::uint32_t u32;
typedef std::uint64_t u64;
namespace A = sm3::alg;
#ifndef X
#define X extern "C"
#endif
X void p_init(u32* st, u64* bits) { A::Sm3CTX c; A::sm3_init(&c); std::memcpy(st, c.state, 32); *bits = c.data_bits; }
X void p_reset(u32* st, u64* bits)
{
    A::Sm3CTX c; std::memcpy(c.state, st, 32); c.data_bits = *bits;
    A::sm3_reset(&c); std::memcpy(st, c.state, 32); *bits = c.data_bits;
}
X int p_upd(u32* st, u64* bits, const u8* in, std::size_t n)
{
    A::Sm3CTX c; std::memcpy(c.state, st, 32); c.data_bits = *bits;
    int r = A::sm3_update_blocks(&c, in, n);
    if (r) return r;
    std::memcpy(st, c.state, 32); *bits = c.data_bits; return 0;
}
X int p_updx(const u64* bits, const u8* in, std::size_t n)
{
    A::Sm3CTX c; std::memset(c.state, 0, 32); c.data_bits = *bits;
    return A::sm3_update_blocks(&c, in, n) ? 1 : 0;
}
X int p_fin(const u32* st, const u64* bits, u8* d, const u8* in, std::size_t n)
{
    A::Sm3CTX c; std::memcpy(c.state, st, 32); c.data_bits = *bits;
    return A::sm3_final_block(&c, d, in, n) ? 1 : 0;
}
X int p_finx(const u32* st, const u64* bits, const u8* in, std::size_t n)
{
    u8 d[32];
    A::Sm3CTX c; std::memcpy(c.state, st, 32); c.data_bits = *bits;
    return A::sm3_final_block(&c, d, in, n) ? 1 : 0;
}
