#include "toy.h"
#include <gmlib/asn1/asn1.h>
#include <gmlib/asn1/asn1_dump.h>
#include <gmlib/sm2/internal/sm2_asn1.h>
using namespace asn1;
typedef std::uint8_t u8; typedef std::size_t sz; typedef std::uint64_t u64;
// out: [0]=value-in [1]=value length [2]=read_num [3]=class [4]=pc [5]=number / bits
#define OFF(p) ((u64)((std::uintptr_t)(p) - (std::uintptr_t)in))
X int a_tlv(const u8* in, sz n, u64* o) { Asn1TLV t; sz r = 0; int e = asn1_decode_tlv(&t, &r, in, n);
    if (e == 0) { o[0] = OFF(t.value); o[1] = t.length; o[2] = r; o[3] = t.tag_class; o[4] = t.tag_pc; o[5] = t.tag_number; } return e; }
X int a_bool(const u8* in, sz n, u64* o) { bool b = false; sz r = 0; int e = asn1_decode_boolean_value(&b, &r, in, n); if (e == 0) { o[0] = 0; o[1] = b; o[2] = r; } return e; }
#define SPAN(nm, f) X int nm(const u8* in, sz n, u64* o) { const u8* p = in; sz l = 0, r = 0; int e = f(&p, &l, &r, in, n); if (e == 0) { o[0] = OFF(p); o[1] = l; o[2] = r; } return e; }
SPAN(a_int, asn1_decode_integer_value) SPAN(a_oct, asn1_decode_octet_string_value) SPAN(a_seq, asn1_decode_sequence_value) SPAN(a_set, asn1_decode_set_value)
X int a_bits(const u8* in, sz n, u64* o) { const u8* p = in; sz l = 0, b = 0, r = 0; int e = asn1_decode_bit_string_value(&p, &l, &b, &r, in, n); if (e == 0) { o[0] = OFF(p); o[1] = l; o[2] = r; o[3] = b; } return e; }
X int a_null(const u8* in, sz n, u64* o) { sz r = 0; int e = asn1_decode_null_value(&r, in, n); if (e == 0) { o[2] = r; } return e; }
X int a_dump(const u8* in, sz n) { return asn1_dump(in, n); }
// encoders: out, outl
X sz e_tlv_outl(sz n) { return asn1_encode_tlv_outl(n); }
X sz e_oct_outl(sz n) { return asn1_encode_octet_string_outl(n); }
X sz e_seq_outl(sz n) { return asn1_encode_sequence_outl(n); }
X sz e_set_outl(sz n) { return asn1_encode_set_outl(n); }
X sz e_bits_outl(sz n) { return asn1_encode_bit_string_outl(n); }
X sz e_bool_outl() { return asn1_encode_boolean_outl(); }
X sz e_int_outl(const u8* d, sz n) { return asn1_encode_integer_outl(d, n); }
X sz m_tlv(sz n) { return ASN1_ENCODE_TLV_MAX_OUTL(n); }
X sz m_oct(sz n) { return ASN1_ENCODE_OCTET_STRING_MAX_OUTL(n); }
X sz m_seq(sz n) { return ASN1_ENCODE_SEQUENCE_MAX_OUTL(n); }
X sz m_set(sz n) { return ASN1_ENCODE_SET_MAX_OUTL(n); }
X sz m_bits(sz n) { return ASN1_ENCODE_BIT_STRING_MAX_OUTL(n); }
X sz m_int(sz n) { return ASN1_ENCODE_INTEGER_MAX_OUTL(n); }
X sz m_bool() { return ASN1_ENCODE_BOOLEAN_MAX_OUTL(); }
X void e_bool(u8* o, sz* l, unsigned b) { asn1_encode_boolean_tlv(o, l, (b & 1) != 0); }
X void e_int(u8* o, sz* l, const u8* d, sz n) { asn1_encode_integer_tlv(o, l, d, n); }
X void e_bits(u8* o, sz* l, const u8* d, sz n, sz b) { asn1_encode_bit_string_tlv(o, l, d, n, b); }
X void e_oct(u8* o, sz* l, const u8* d, sz n) { asn1_encode_octet_string_tlv(o, l, d, n); }
X void e_bits_tl(u8* o, sz* l, sz n) { asn1_encode_bit_string_tl(o, l, n); }
X void e_oct_tl(u8* o, sz* l, sz n) { asn1_encode_octet_string_tl(o, l, n); }
X void e_seq_tl(u8* o, sz* l, sz n) { asn1_encode_sequence_tl(o, l, n); }
X void e_set_tl(u8* o, sz* l, sz n) { asn1_encode_set_tl(o, l, n); }
X void a_names(unsigned v, u64* o) { o[0] = asn1_tag_class_name((Asn1TagClass)v) != nullptr; o[1] = asn1_tag_pc_name((Asn1TagPC)v) != nullptr; o[2] = asn1_tag_number_name((Asn1TagNumber)v) != nullptr; }
// SM2 structures. fields come back as offsets into the input
using namespace sm2::internal;
X int s_priv_dec(const u8* in, sz n, u64* o) { ASN1_SM2PrivateKey p{in}; sz r = 0; int e = sm2_private_key_asn1_decode(&p, &r, in, n); if (e == 0) { o[0] = OFF(p.value); o[1] = r; } return e; }
X int s_pub_dec(const u8* in, sz n, u64* o) { ASN1_SM2PublicKey p{in}; sz r = 0; int e = sm2_public_key_asn1_decode(&p, &r, in, n); if (e == 0) { o[0] = OFF(p.value); o[1] = r; } return e; }
X int s_sig_dec(const u8* in, sz n, u64* o) { ASN1_SM2Signature p{in, in}; sz r = 0; int e = sm2_signature_asn1_decode(&p, &r, in, n); if (e == 0) { o[0] = OFF(p.R); o[1] = OFF(p.S); o[2] = r; } return e; }
X int s_ct_dec(const u8* in, sz n, u64* o) { ASN1_SM2Cipher p; std::memset(&p, 0, sizeof p); sz r = 0; int e = sm2_cipher_asn1_decode(&p, &r, in, n);
    if (e == 0) { o[0] = OFF(p.XCoordinate); o[1] = OFF(p.YCoordinate); o[2] = OFF(p.HASH.value); o[3] = p.HASH.length; o[4] = OFF(p.CipherText.value); o[5] = p.CipherText.length; o[6] = r; } return e; }
X sz s_priv_outl(const u8* d) { ASN1_SM2PrivateKey p{d}; return sm2_private_key_asn1_encode_outl(&p); }
X void s_priv_enc(u8* o, sz* l, const u8* d) { ASN1_SM2PrivateKey p{d}; sm2_private_key_asn1_encode_outl(o, l, &p); }
X sz s_priv_max() { return SM2_PRIVATE_KEY_ASN1_ENCODE_MAX_OUTL(); }
X sz s_pub_outl(const u8* d) { ASN1_SM2PublicKey p{d}; return sm2_public_key_asn1_encode_outl(&p); }
X void s_pub_enc(u8* o, sz* l, const u8* d) { ASN1_SM2PublicKey p{d}; sm2_public_key_asn1_encode(o, l, &p); }
X sz s_pub_max() { return SM2_PUBLIC_KEY_ASN1_ENCODE_MAX_OUTL(); }
X sz s_sig_outl(const u8* r, const u8* s) { ASN1_SM2Signature p{r, s}; return sm2_signature_asn1_encode_outl(&p); }
X void s_sig_enc(u8* o, sz* l, const u8* r, const u8* s) { ASN1_SM2Signature p{r, s}; sm2_signature_asn1_encode(o, l, &p); }
X sz s_sig_max() { return SM2_SIGNATURE_ASN1_ENCODE_MAX_OUTL(); }
#define CT ASN1_SM2Cipher p; p.XCoordinate = x; p.YCoordinate = y; p.HASH.value = h; p.HASH.length = hl; p.CipherText.value = c; p.CipherText.length = cl;
X sz s_ct_outl(const u8* x, const u8* y, const u8* h, sz hl, const u8* c, sz cl) { CT return sm2_cipher_asn1_encode_outl(&p); }
X void s_ct_enc(u8* o, sz* l, const u8* x, const u8* y, const u8* h, sz hl, const u8* c, sz cl) { CT sm2_cipher_asn1_encode(o, l, &p); }
X sz s_ct_max(sz a, sz b) { return sm2_cipher_asn1_encode_max_outl(a, b); }
