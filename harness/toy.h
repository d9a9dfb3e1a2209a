// keyed toy primitives: the checks replace them by uninterpreted functions; natively they are a fixed mixing function
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <stdexcept>
#define X extern "C"
static inline void toy_mix(std::uint8_t* out, std::size_t outl, int tag, const std::uint8_t* a, std::size_t al, const std::uint8_t* b, std::size_t bl)
{
    std::uint64_t h = 0xcbf29ce484222325ULL;
    h = (h ^ (std::uint64_t)(unsigned)tag) * 0x100000001b3ULL;
    for (std::size_t i = 0; i < al; i++) h = (h ^ a[i]) * 0x100000001b3ULL;
    for (std::size_t i = 0; i < bl; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
    for (std::size_t i = 0; i < outl; i++)
    {
        h ^= h >> 29;
        h = (h ^ i) * 0x100000001b3ULL;
        out[i] = (std::uint8_t)(h >> 40);
    }
}
X __attribute__((noinline)) void uf_block(std::uint8_t* out, std::size_t bs, int enc, const std::uint8_t* key, const std::uint8_t* in)
{
    std::uint8_t t[32];
    toy_mix(t, bs, enc, key, 8, in, bs);
    std::memcpy(out, t, bs);
}
template <std::size_t BS, std::size_t PAR>
struct Toy
{
    static constexpr int         ENCRYPTION   = 1;
    static constexpr int         DECRYPTION   = 0;
    static constexpr std::size_t BLOCK_SIZE   = BS;
    static constexpr std::size_t USER_KEY_LEN = 8;
    static constexpr std::size_t PARALLEL_NUM = PAR;
    std::uint8_t k[8];
    int dir;
    void set_key(const std::uint8_t* key, int enc) { std::memcpy(k, key, 8); dir = enc; }
    // a cipher keyed for one direction computes garbage (a different function) in the other
    void encrypt_block(std::uint8_t* out, const std::uint8_t* in) const { uf_block(out, BS, dir ? 1 : 3, k, in); }
    void decrypt_block(std::uint8_t* out, const std::uint8_t* in) const { uf_block(out, BS, dir ? 2 : 0, k, in); }
    void encrypt_blocks(std::uint8_t* out, const std::uint8_t* in, std::size_t n) const
    {
        for (std::size_t i = 0; i < n; i++) encrypt_block(out + i * BS, in + i * BS);
    }
    void decrypt_blocks(std::uint8_t* out, const std::uint8_t* in, std::size_t n) const
    {
        for (std::size_t i = 0; i < n; i++) decrypt_block(out + i * BS, in + i * BS);
    }
};
// toy hash built on the library's Hash template
X __attribute__((noinline)) void uf_comp(std::uint8_t* st, const std::uint8_t* in, std::size_t bs)
{
    std::uint8_t t[8];
    toy_mix(t, 8, 5, st, 8, in, bs);
    std::memcpy(st, t, 8);
}
X __attribute__((noinline)) void uf_fin(std::uint8_t* out, std::size_t dl, const std::uint8_t* st, const std::uint8_t* in, std::size_t inl)
{
    toy_mix(out, dl, 1000 + (int)inl, st, 8, in, inl);
}
