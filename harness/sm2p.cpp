#include "proto.h"
#include <gmlib/sm2/sm2.h>
using H = UfHash<DIG>;
using Pub  = sm2::SM2PublicKey<H>;
using Priv = sm2::SM2PrivateKey<H>;
#define TRY(body) try { body } catch (...) { return 2; }
X int p_gen(u8* d, u8* x, u8* y)
{
    TRY({ UfRng r; Priv k; k.gen_priv(r); k.get_priv(d); k.fetch_pub().get_pub(x, y); return 0; })
}
X int p_gen_ctor(u8* d, u8* x, u8* y)
{
    TRY({ UfRng r; Priv k(r); k.get_priv(d); k.fetch_pub().get_pub(x, y); return 0; })
}
X int p_set(const u8* in, u8* d, u8* x, u8* y)
{
    TRY({ Priv k; k.set_priv(in); k.get_priv(d); k.fetch_pub().get_pub(x, y); return 0; })
}
X int p_set_ctor(const u8* in, u8* d, u8* x, u8* y)
{
    TRY({ Priv k(in); k.get_priv(d); k.fetch_pub().get_pub(x, y); return 0; })
}
X int p_pub(const u8* ix, const u8* iy, u8* x, u8* y)
{
    TRY({ Pub k; k.set_pub(ix, iy); k.get_pub(x, y); return 0; })
}
X int p_pub_ctor(const u8* ix, const u8* iy, u8* x, u8* y)
{
    TRY({ Pub k(ix, iy); k.get_pub(x, y); return 0; })
}
X int p_sign(const u8* d, const u8* m, std::size_t ml, const u8* id, std::size_t il, u8* sig)
{
    TRY({ UfRng r; Priv k(d); k.sign(sig, m, ml, r, id, il); return 0; })
}
X int p_signdef(const u8* d, const u8* m, std::size_t ml, u8* sig)
{
    TRY({ UfRng r; Priv k(d); k.sign(sig, m, ml, r); return 0; })
}
X int p_verify(const u8* x, const u8* y, const u8* m, std::size_t ml, const u8* id, std::size_t il, const u8* sig)
{
    TRY({ Pub k(x, y); return k.verify(sig, m, ml, id, il); })
}
// verification by the private key object
X int p_verifyd(const u8* d, const u8* m, std::size_t ml, const u8* id, std::size_t il, const u8* sig)
{
    TRY({ Priv k(d); return k.verify(sig, m, ml, id, il); })
}
X int p_signver(const u8* d, const u8* m, std::size_t ml, const u8* id, std::size_t il, u8* sig)
{
    TRY({ UfRng r; Priv k(d); k.sign(sig, m, ml, r, id, il); return k.fetch_pub().verify(sig, m, ml, id, il); })
}
static sm2::SM2EcPC pc(int f) { return f == 0 ? sm2::SM2EcPC::UNCOMPRESSED : f == 1 ? sm2::SM2EcPC::COMPRESSED : sm2::SM2EcPC::MIX; }
X int p_enc(const u8* x, const u8* y, const u8* pt, std::size_t pl, int f, u8* out, std::size_t* cl)
{
    TRY({ UfRng r; Pub k(x, y); k.encrypt(out, cl, pt, pl, r, pc(f)); return *cl == Pub::ciphertext_len(pt, pl, pc(f)) ? 0 : 1; })
}
X int p_dec(const u8* d, const u8* ct, std::size_t cl, u8* out, std::size_t* pl)
{
    TRY({ Priv k(d); k.decrypt(out, pl, ct, cl); return *pl == Priv::plaintext_len(ct, cl) ? 0 : 1; })
}
X int p_encdec(const u8* d, const u8* pt, std::size_t pl, int f, u8* ct, std::size_t* cl, u8* out, std::size_t* ol)
{
    TRY({ UfRng r; Priv k(d); k.encrypt(ct, cl, pt, pl, r, pc(f)); k.decrypt(out, ol, ct, *cl); return 0; })
}
X int p_ptlen(const u8* ct, std::size_t cl, std::size_t* pl)
{
    TRY({ *pl = Priv::plaintext_len(ct, cl); return 0; })
}
