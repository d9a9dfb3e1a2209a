#include "toy.h"
#include <gmlib/ghash/ghash.h>
#include <gmlib/hash_lib/hmac.h>
#include <gmlib/sm3/sm3.h>
typedef std::uint8_t u8;
typedef std::size_t  sz;
template <std::size_t BS, std::size_t DS>
class ToyHash : public hash_lib::Hash<BS>
{
public:
    static constexpr std::size_t BLOCK_SIZE  = BS;
    static constexpr std::size_t DIGEST_SIZE = DS;
    u8 st[8];
    ToyHash() noexcept { std::memset(st, 0x11, 8); }
    void reset() noexcept { this->hash_lib::Hash<BS>::reset(); std::memset(st, 0x11, 8); }
private:
    void update_blocks(const u8* in, sz n) override { for (sz i = 0; i < n; i++) uf_comp(st, in + i * BS, BS); }
    void final_block(u8* d, const u8* in, sz inl) override { uf_fin(d, DS, st, in, inl); }
};
#define TRY(...) try { __VA_ARGS__; } catch (const std::exception&) { return 1; } return 0;
#define HASHC(n, T)                                                                          \
    X sz   n##_size() { return sizeof(T); }                                                  \
    X void n##_new(void* c) { new (c) T(); }                                                 \
    X void n##_reset(void* c) { ((T*)c)->reset(); }                                          \
    X int  n##_update(void* c, const u8* i, sz il) { TRY(((T*)c)->update(i, il)) }           \
    X int  n##_final0(void* c, u8* d) { TRY(((T*)c)->do_final(d)) }                          \
    X int  n##_final(void* c, u8* d, const u8* i, sz il) { TRY(((T*)c)->do_final(d, i, il)) }
typedef ToyHash<4, 4> T4; typedef ToyHash<16, 8> T16; typedef ToyHash<64, 16> T64; typedef ToyHash<128, 16> T128; typedef ToyHash<8, 20> T8;
HASHC(t4, T4) HASHC(t16, T16) HASHC(t64, T64) HASHC(t128, T128) HASHC(t8, T8)
HASHC(sm3, sm3::SM3)
HASHC(gh, ghash::GHash)
X void gh_newkey(void* c, const u8* h) { new (c) ghash::GHash(h); }
X void gh_setkey(void* c, const u8* h) { ((ghash::GHash*)c)->set_key(h); }
#define HM(n, T)                                                                                     \
    X sz   n##_size() { return sizeof(hash_lib::HMac<T>); }                                          \
    X void n##_new(void* c) { new (c) hash_lib::HMac<T>(); }                                         \
    X void n##_newkey(void* c, const u8* k, sz kl) { new (c) hash_lib::HMac<T>(k, kl); }             \
    X int  n##_setkey(void* c, const u8* k, sz kl) { TRY(((hash_lib::HMac<T>*)c)->set_key(k, kl)) }  \
    X int  n##_update(void* c, const u8* i, sz il) { TRY(((hash_lib::HMac<T>*)c)->update(i, il)) }   \
    X int  n##_final0(void* c, u8* d) { TRY(((hash_lib::HMac<T>*)c)->do_final(d)) }                  \
    X int  n##_final(void* c, u8* d, const u8* i, sz il) { TRY(((hash_lib::HMac<T>*)c)->do_final(d, i, il)) }
HM(m4, T4) HM(m16, T16) HM(m64, T64) HM(m8, T8) HM(msm3, sm3::SM3)
