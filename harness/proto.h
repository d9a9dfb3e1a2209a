// a hash and a generator the checks control.  Symbolically uf_* are replaced (transcripts, fresh outputs); natively the hash is
// a fixed streaming mixing function whose n-th digest can be overridden, and the generator plays back a script
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <gmlib/rng/rng.h>
#define X extern "C"
using u8 = std::uint8_t;
struct UfCtx
{
    std::uint64_t h;
};
static u8          digest_script[64 * 16];
static int         digest_set[64], digest_no;
static u8          rng_script[4096];
static std::size_t rng_len, rng_pos;
X void proto_reset()
{
    std::memset(digest_set, 0, sizeof digest_set);
    digest_no = 0;
    rng_len = rng_pos = 0;
}
X void proto_digest(std::size_t n, const u8* d, std::size_t len)
{
    digest_set[n] = (int)len;
    std::memcpy(digest_script + 64 * n, d, len);
}
X void proto_rng(const u8* p, std::size_t n)
{
    std::memcpy(rng_script, p, n);
    rng_len = n;
}
X std::size_t proto_rng_used() { return rng_pos; }
X __attribute__((noinline)) void uf_init(UfCtx* c) { c->h = 0xcbf29ce484222325ULL; }
X __attribute__((noinline)) void uf_update(UfCtx* c, const u8* p, std::size_t n)
{
    std::uint64_t h = c->h;
    for (std::size_t i = 0; i < n; i++)
        h = (h ^ p[i]) * 0x100000001b3ULL;
    c->h = h;
}
X __attribute__((noinline)) void uf_final(u8* out, std::size_t dl, UfCtx* c)
{
    std::uint64_t h = c->h;
    for (std::size_t i = 0; i < dl; i++)
    {
        h ^= h >> 29;
        h = (h ^ i) * 0x100000001b3ULL;
        out[i] = (u8)(h >> 40);
    }
    if (digest_no < 16 && digest_set[digest_no])
        std::memcpy(out, digest_script + 64 * digest_no, dl);
    digest_no++;
    c->h = 0xcbf29ce484222325ULL;
}
X __attribute__((noinline)) void uf_rng(u8* out, std::size_t n)
{
    for (std::size_t i = 0; i < n; i++)
        out[i] = rng_pos < rng_len ? rng_script[rng_pos++] : (u8)(rng_pos++ * 37 + 11);
    if (rng_pos > 100000)
        throw std::runtime_error("generator exhausted");
}
template <std::size_t N>
struct UfHash
{
    static constexpr std::size_t DIGEST_SIZE = N;
    static constexpr std::size_t BLOCK_SIZE  = 64;
    UfCtx                        c;
    UfHash() { uf_init(&c); }
    void reset() { uf_init(&c); }
    void update(const u8* p, std::size_t n) { uf_update(&c, p, n); }
    void do_final(u8* out) { uf_final(out, N, &c); }
    void do_final(u8* out, const u8* p, std::size_t n)
    {
        uf_update(&c, p, n);
        uf_final(out, N, &c);
    }
};
struct UfRng : public rng::Rng
{
    const char* name() const override { return "uf"; }
    void        gen(void* out, std::size_t n) override { uf_rng((u8*)out, n); }
};
