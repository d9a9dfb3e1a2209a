#include <gmlib/aes/aes.h>
#include <gmlib/sm4/sm4.h>
// op bit 0: encrypt; bits 1..: 0 one-block call, 1 many-block call, 2 object keyed for the other direction first
template <class C>
static void go(unsigned char* out, const unsigned char* in, const unsigned char* key, std::size_t n, unsigned op)
{
    int enc = op & 1;
    C   c(key, (op >> 1) == 2 ? (enc ? C::DECRYPTION : C::ENCRYPTION) : (enc ? C::ENCRYPTION : C::DECRYPTION));
    if ((op >> 1) == 2)
        c.set_key(key, enc ? C::ENCRYPTION : C::DECRYPTION);
    block_cipher_mode::BlockCipher& b = c;
    if ((op >> 1) == 0)
        enc ? b.encrypt_block(out, in) : b.decrypt_block(out, in);
    else
        enc ? b.encrypt_blocks(out, in, n) : b.decrypt_blocks(out, in, n);
}
extern "C" {
void aes128(unsigned char* o, const unsigned char* i, const unsigned char* k, std::size_t n, unsigned op) { go<aes::AES128>(o, i, k, n, op); }
void aes192(unsigned char* o, const unsigned char* i, const unsigned char* k, std::size_t n, unsigned op) { go<aes::AES192>(o, i, k, n, op); }
void aes256(unsigned char* o, const unsigned char* i, const unsigned char* k, std::size_t n, unsigned op) { go<aes::AES256>(o, i, k, n, op); }
void sm4_(unsigned char* o, const unsigned char* i, const unsigned char* k, std::size_t n, unsigned op) { go<sm4::SM4>(o, i, k, n, op); }
}
