#include "proto.h"
#include <gmlib/sm9/sm9.h>
#ifndef DIG
#define DIG 32
#endif
using H = UfHash<DIG>;
using MPriv = sm9::SM9SignMasterPrivateKey<H>;
using MPub  = sm9::SM9SignMasterPublicKey<H>;
using UPriv = sm9::SM9SignPrivateKey<H>;
#define TRY(body) try { body } catch (...) { return 2; }
static sm9::SM9EcPC pc(int f) { return f == 0 ? sm9::SM9EcPC::UNCOMPRESSED : f == 1 ? sm9::SM9EcPC::COMPRESSED : sm9::SM9EcPC::MIX; }
X int p_hn(u8* h, const u8* z1, std::size_t l1, const u8* z2, std::size_t l2, int tag)
{
    TRY({ sm9::internal::sm9_Hn<H>(h, z1, l1, z2, l2, (u8)tag); return 0; })
}
X int p_mset(const u8* in, u8* d, u8* x, u8* y)
{
    TRY({ MPriv k; k.set_priv(in); k.get_priv(d); k.fetch_SignPublicKey().get_pub(x, y); return 0; })
}
X int p_mset_ctor(const u8* in, u8* d, u8* x, u8* y)
{
    TRY({ MPriv k(in); k.get_priv(d); k.fetch_SignPublicKey().get_pub(x, y); return 0; })
}
X int p_mgen(u8* d, u8* x, u8* y)
{
    TRY({ UfRng r; MPriv k; k.gen_priv(r); k.get_priv(d); k.fetch_SignPublicKey().get_pub(x, y); return 0; })
}
X int p_mgen_ctor(u8* d, u8* x, u8* y)
{
    TRY({ UfRng r; MPriv k(r); k.get_priv(d); k.fetch_SignPublicKey().get_pub(x, y); return 0; })
}
X int p_extract(const u8* ks, const u8* id, std::size_t il, int hid, u8* dx, u8* dy, u8* x, u8* y)
{
    TRY({ UfRng r; MPriv k(ks); UPriv u = hid < 0 ? k.gen_SignPrivateKey(id, il, r) : k.gen_SignPrivateKey(id, il, r, (u8)hid);
          u.get_priv(dx, dy, x, y); return 0; })
}
X int p_sign(const u8* dx, const u8* dy, const u8* x, const u8* y, const u8* m, std::size_t ml, int f, u8* sig, std::size_t* sl)
{
    TRY({ UfRng r; UPriv u; u.set_priv(dx, dy, x, y); u.sign(sig, sl, m, ml, r, pc(f)); return 0; })
}
X int p_verify(const u8* x, const u8* y, const u8* sig, std::size_t sl, const u8* m, std::size_t ml, const u8* id, std::size_t il, int hid)
{
    TRY({ MPub k; k.set_pub(x, y); return hid < 0 ? k.verify(sig, sl, m, ml, id, il) : k.verify(sig, sl, m, ml, id, il, (u8)hid); })
}
X int p_verifym(const u8* ks, const u8* sig, std::size_t sl, const u8* m, std::size_t ml, const u8* id, std::size_t il, int hid)
{
    TRY({ MPriv k(ks); return k.fetch_SignPublicKey().verify(sig, sl, m, ml, id, il, (u8)hid); })
}
X int p_verifyu(const u8* dx, const u8* dy, const u8* x, const u8* y, const u8* sig, std::size_t sl, const u8* m, std::size_t ml, const u8* id, std::size_t il, int hid)
{
    TRY({ UPriv u; u.set_priv(dx, dy, x, y); return u.verify(sig, sl, m, ml, id, il, (u8)hid); })
}
// extract, sign, verify
X int p_round(const u8* ks, const u8* id, std::size_t il, int hid, const u8* m, std::size_t ml, int f, u8* sig, std::size_t* sl)
{
    TRY({ UfRng r; MPriv k(ks); UPriv u = k.gen_SignPrivateKey(id, il, r, (u8)hid); u.sign(sig, sl, m, ml, r, pc(f));
          return k.fetch_SignPublicKey().verify(sig, *sl, m, ml, id, il, (u8)hid); })
}
