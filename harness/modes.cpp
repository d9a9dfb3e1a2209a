#include "toy.h"
#include <gmlib/block_cipher_mode/cbc_mode.h>
#include <gmlib/block_cipher_mode/cfb_mode.h>
#include <gmlib/block_cipher_mode/ctr_mode.h>
#include <gmlib/block_cipher_mode/ecb_mode.h>
#include <gmlib/block_cipher_mode/ofb_mode.h>
#ifdef WITH_GCM
#include <gmlib/block_cipher_mode/gcm_mode.h>
#endif
using namespace block_cipher_mode;
typedef std::uint8_t u8;
typedef std::size_t  sz;
#define TRY(...) try { __VA_ARGS__; } catch (const std::exception&) { return 1; } return 0;
#define COMMON(n, T)                                                                                             \
    X sz  n##_size() { return sizeof(T); }                                                                       \
    X void n##_new(void* c) { new (c) T(); }                                                                     \
    X int n##_update(void* c, u8* o, sz* ol, const u8* i, sz il) { TRY(((T*)c)->update(o, ol, i, il)) }          \
    X int n##_final(void* c, u8* o, sz* ol, const u8* i, sz il) { TRY(((T*)c)->do_final(o, ol, i, il)) }
#define ECB(n, T) COMMON(n, T)                                          \
    X int n##_init(void* c, const u8* k, const u8*) { TRY(((T*)c)->init(k)) }    \
    X int n##_reset(void* c, const u8*) { TRY(((T*)c)->reset()) }
#define IVM(n, T) COMMON(n, T)                                          \
    X int n##_init(void* c, const u8* k, const u8* v) { TRY(((T*)c)->init(k, v)) } \
    X int n##_reset(void* c, const u8* v) { TRY(((T*)c)->reset(v)) }
#define GCM(n, T) COMMON(n, T)                                          \
    X int n##_init(void* c, const u8* k, const u8* v, sz vl, const u8* a, sz al) { TRY(((T*)c)->init(k, v, vl, a, al)) }
#define ALL(s, C)                                                       \
    ECB(ecbe_##s, EcbEncryptor<C>) ECB(ecbd_##s, EcbDecryptor<C>)       \
    IVM(cbce_##s, CbcEncryptor<C>) IVM(cbcd_##s, CbcDecryptor<C>)       \
    IVM(cfbe_##s, CfbEncryptor<C>) IVM(cfbd_##s, CfbDecryptor<C>)       \
    IVM(ofbe_##s, OfbEncryptor<C>) IVM(ofbd_##s, OfbDecryptor<C>)       \
    IVM(ctre_##s, CtrEncryptor<C>) IVM(ctrd_##s, CtrDecryptor<C>)
typedef Toy<16, 1> T16_1;
typedef Toy<16, 4> T16_4;
typedef Toy<16, 8> T16_8;
typedef Toy<8, 2>  T8_2;
typedef Toy<8, 1>  T8_1;
typedef Toy<4, 3>  T4_3;
typedef Toy<24, 2> T24_2;
ALL(16_1, T16_1) ALL(16_4, T16_4) ALL(16_8, T16_8) ALL(8_2, T8_2) ALL(8_1, T8_1) ALL(4_3, T4_3) ALL(24_2, T24_2)
#ifdef WITH_GCM
#define GCMS(s, C) GCM(gcme_##s, GcmEncryptor<C>) GCM(gcmd_##s, GcmDecryptor<C>) \
    X void gcme_##s##_tag(void* c, u8* t) { ((GcmEncryptor<C>*)c)->get_tag(t); } \
    X void gcmd_##s##_settag(void* c, const u8* t) { ((GcmDecryptor<C>*)c)->set_tag(t); }
static void gf(u8* z, const u8* x, const u8* y)
{
    std::uint64_t zh = 0, zl = 0, vh = 0, vl = 0;
    for (int i = 0; i < 8; i++) vh = vh << 8 | y[i], vl = vl << 8 | y[8 + i];
    for (int i = 0; i < 128; i++)
    {
        std::uint64_t m = -(std::uint64_t)(x[i / 8] >> (7 - i % 8) & 1), r = -(vl & 1);
        zh ^= vh & m, zl ^= vl & m;
        vl = vl >> 1 | vh << 63, vh = vh >> 1 ^ (r & 0xe100000000000000ULL);
    }
    for (int i = 0; i < 8; i++) z[i] = zh >> (56 - 8 * i), z[8 + i] = zl >> (56 - 8 * i);
}
// the tag of n zero data bytes (no AAD), by SP 800-38D, and by the library
template <class E, class D, bool dec>
int gcml(const u8* k, const u8* iv, sz n, u8* got, u8* ref)
{
    u8 h[16] = {0}, y[16] = {0}, c[16], t[16], zero[16] = {0};
    uf_block(h, 16, 1, k, zero);
    std::memcpy(c, iv, 12), c[12] = c[13] = c[14] = 0, c[15] = 1;
    if (!dec)
        for (sz p = 0; p < n; p += 16)
        {
            for (int i = 15; i >= 12 && !++c[i]; i--) {}
            uf_block(t, 16, 1, k, c);
            for (sz i = 0; i < 16 && p + i < n; i++) y[i] ^= t[i];
            gf(y, y, h);
        }
    for (int i = 0; i < 8; i++) y[8 + i] ^= (u8)((std::uint64_t)n * 8 >> (56 - 8 * i));
    gf(y, y, h);
    std::memcpy(c, iv, 12), c[12] = c[13] = c[14] = 0, c[15] = 1;
    uf_block(t, 16, 1, k, c);
    for (int i = 0; i < 16; i++) ref[i] = y[i] ^ t[i];
    static u8 in[1 << 20], out[(1 << 20) + 64];
    TRY(sz ol; E e; D d;
        if (dec) { d.init(k, iv, 12, in, 0); d.set_tag(ref); } else e.init(k, iv, 12, in, 0);
        while (n > sizeof(in)) { if (dec) d.update(out, &ol, in, sizeof(in)); else e.update(out, &ol, in, sizeof(in)); n -= sizeof(in); }
        if (dec) d.do_final(out, &ol, in, n); else e.do_final(out, &ol, in, n);
        if (dec) std::memcpy(got, ref, 16); else e.get_tag(got);)
}
#define GCML(s, C) X int gcml_e_##s(const u8* k, const u8* v, sz n, u8* g, u8* r) { return gcml<GcmEncryptor<C>, GcmDecryptor<C>, false>(k, v, n, g, r); } \
                   X int gcml_d_##s(const u8* k, const u8* v, sz n, u8* g, u8* r) { return gcml<GcmEncryptor<C>, GcmDecryptor<C>, true>(k, v, n, g, r); }
GCML(16_1, T16_1) GCML(16_4, T16_4) GCML(16_8, T16_8)
GCMS(16_1, T16_1) GCMS(16_4, T16_4) GCMS(16_8, T16_8)
#endif
