#!/usr/bin/env python3
"""writes properties.jsonl (the table below is the source)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a))


I, H, F, C = 'inputs', 'histories', 'fault_sequences', 'configurations'
NUM = ['src/number/uint256_common.cpp', 'src/number/uint256_x64.cpp', 'include/gmlib/number/uint256.h', 'include/gmlib/number/internal/uint256_common.h', 'include/gmlib/number/internal/uint256_x64.h']
MPZ = ['src/number/mpz_common.cpp', 'src/number/mpz_x64.cpp', 'include/gmlib/number/internal/mpz_common.h', 'include/gmlib/number/internal/mpz_x64.h']
MONT = ['src/number/mont256_common.cpp', 'src/number/mont256_x64.cpp', 'include/gmlib/number/internal/mont256_common.h', 'include/gmlib/number/internal/mont256_x64.h']

p('N01', '256-bit integer operations equal exact integer arithmetic',
  'Every 256-bit integer operation (add, subtract, multiply, add/sub with carry, doubling, shifts, comparison, zero/one tests, small-word add, big-endian byte import and export) returns the exact mathematical result modulo 2^256 together with the true carry, borrow or ordering. This holds for all operand values, for outputs aliasing inputs, and for both the portable and the x86-64 backend.',
  [I, C], 'all pairs of 256-bit operands, both backends, aliased and separate outputs',
  'The tests compare a few hundred fixed operand pairs; a lost carry between two limbs or a comparison that looks at limbs in the wrong order shows only for operands with particular limb patterns.',
  NUM, [('limb loops with carry/borrow propagation', 'src/number/uint256_common.cpp'), ('_addcarry/_subborrow/mulx chains', 'src/number/uint256_x64.cpp')])
p('N02', 'Arbitrary-length limb integers are exact',
  'Addition with carry, subtraction with borrow, multiplication, comparison, copy and big-endian conversion of multi-limb integers return the exact mathematical value for every limb count and every operand, in both backends. Comparison orders numbers by value (the most significant differing limb decides).',
  [I, C], 'all limb values at every limb count within the bound, both backends',
  'Tests use a handful of random operands of one length, for which the low limbs almost never decide anything.',
  MPZ, [('mpz_add_carry/sub_borrow/mul/cmp limb loops', 'src/number/mpz_common.cpp, src/number/mpz_x64.cpp')])
p('N03', 'Modular add, subtract, negate, double, triple and halve are canonical',
  'For residues a, b in [0, P) modular addition, subtraction, negation, doubling, tripling and halving return the residue in [0, P) congruent to the exact result, including at 0 and P-1. This holds for every modulus the library uses (SM2 p and n, SM9 p and n) in both backends, with outputs allowed to alias inputs.',
  [I, C], 'all residue pairs below each library modulus, both backends',
  'The final conditional correction matters only for operands whose sum or difference falls in a 2^-32..2^-224 window near the modulus; random vectors never reach it.',
  MONT, [('add/sub then conditional correction', 'src/number/mont256_common.cpp, src/number/mont256_x64.cpp')])
p('N04', 'Montgomery multiplication, squaring and conversion are exact and canonical',
  'For residues a, b in [0, P) Montgomery multiplication and squaring return the unique residue in [0, P) congruent to a*b/2^256 mod P, and converting a number into Montgomery form and back returns it unchanged. This holds for every library modulus in both backends, including when the output aliases an operand.',
  [I, C], 'all residue pairs below each library modulus, both backends',
  'Carry-outs of the interleaved reduction occur for a tiny fraction of operands; tests sample some hundred random pairs.',
  MONT, [('interleaved multiply-reduce loop and final subtraction', 'src/number/mont256_common.cpp, src/number/mont256_x64.cpp'), ('modulus constants N_, R, R^2', 'src/sm2/sm2p256v1.cpp, src/sm9/sm9_field.cpp')])
p('N05', 'Modular power and inverse follow the exponentiation laws',
  'Raising a residue to a 256-bit exponent yields the mathematical power for every exponent including 0, 1 and values with leading zero bits or words, and the modular inverse of a non-zero residue multiplied by that residue is one. Both backends agree.',
  [I, C], 'all bases (symbolic group element) and all 256-bit exponents, both backends',
  'Tests use random full-length exponents, which never exercise zero, sparse or leading-zero exponents.',
  MONT, [('square-and-multiply loop', 'mont256_pow / mont256_inv in both backends')])
p('N06', 'Byte strings of any length reduce to the right residue',
  'Importing a big-endian byte string of any length into a residue modulo P yields the integer value of the string modulo P, in [0, P). The result is the same for both backends and does not depend on how the string is padded with leading zero bytes.',
  [I, C], 'all byte strings up to the length bound, every library modulus, both backends',
  'Only a few fixed strings are tested; lengths that are not a multiple of the word size, and values just above multiples of P, are not.',
  NUM + MONT, [('from_bytes_ex / uint256_mod Horner reduction', 'src/number/uint256_common.cpp, src/number/uint256_x64.cpp, src/number/mont256_*.cpp')])
p('E01', 'SM2 curve addition, doubling and negation obey the group law',
  'On the SM2 curve, point doubling, mixed addition, general addition, negation and conversion between coordinate systems return exactly the point the group law prescribes, for all finite inputs including P+P, P+(-P) and representations with any non-unit Z. The point at infinity is the neutral element of general addition on either side.',
  [I], 'all curve points in all projective representations (field elements symbolic)',
  'Tests multiply fixed scalars and never reach the exceptional cases or projective representatives of coinciding points.',
  ['src/sm2/sm2p256v1.cpp', 'include/gmlib/sm2/internal/sm2p256v1.h'], [('sm2_ec_j_dbl / sm2_ec_j_add / sm2_ec_j_add_a / neg / to_a', 'src/sm2/sm2p256v1.cpp')])
p('E02', 'Scalar multiplication on SM2 and SM9 curves computes exactly k times the point',
  'Multiplying a point of order n (or the fixed generator) by any 256-bit scalar k returns the point (k mod n) times that point, and the point at infinity exactly when k is a multiple of n. This holds on the SM2 curve and on both SM9 groups.',
  [I], 'all 2^256 scalars, including 0, 1, n-1, n, n+1 and 2^256-1',
  'Tests use a few random scalars; recoding or table mistakes show only for rare digit patterns, and boundary scalars are untested.',
  ['src/sm2/sm2p256v1.cpp', 'src/sm9/sm9_field.cpp'], [('sm2_ec_j_mul_a / mul_g', 'src/sm2/sm2p256v1.cpp'), ('sm9_ec_j_mul_a / sm9_ec2_j_mul_a', 'src/sm9/sm9_field.cpp')])
p('E03', 'SM2 point encodings round-trip, and decoding accepts only curve points',
  'Encoding a finite SM2 point as uncompressed, compressed or hybrid bytes and decoding it returns the same point and the number of bytes used. Decoding an arbitrary buffer never reads past its stated length and succeeds exactly when the buffer starts with the complete encoding of a point on the curve: coordinates below p, a known format byte, and the format byte\'s parity bit (compressed and hybrid) equal to that of y. The square root used reports a root exactly for squares.',
  [I], 'all curve points in all three formats; all byte buffers of every length up to the longest format plus one',
  'Tests round-trip one or two points; short buffers, unknown tags, off-curve or non-square x are not exercised.',
  ['src/sm2/sm2p256v1.cpp', 'include/gmlib/sm2/internal/sm2p256v1.h'], [('sm2_ec_a_to_bytes_* / sm2_ec_a_from_bytes / sm2_ec_a_check / sm2_fp_sqrt', 'src/sm2/sm2p256v1.cpp')])
p('K01', 'SM2 key setup accepts exactly valid keys and derives the matching public key',
  'Generated private keys are always in [1, n-2]; setting a private key succeeds exactly for values in [1, n-2]; the public key stored is d times the generator, byte-exact. Setting a public key succeeds exactly for coordinates of a point on the curve.',
  [I], 'all 256-bit private values and generator outputs, all coordinate pairs',
  'Boundary keys (0, n-2, n-1, n, 2^256-1) occur with probability 2^-256 under random testing.',
  ['include/gmlib/sm2/sm2.h', 'src/sm2/sm2p256v1.cpp'], [('gen_priv / set_priv / set_pub', 'include/gmlib/sm2/sm2.h'), ('sm2_bn_mod_n_sub1 / sub2', 'src/sm2/sm2p256v1.cpp')])
p('S01', 'Every SM2 signature produced is valid and follows the standard equations',
  'For every key, message, id and random stream, signing terminates on the first usable nonce and outputs r = (e + x1) mod n and s = (1+d)^-1 (k - r d) mod n with both in [1, n-1], where e hashes the standard identity block and the message; degenerate nonces (r = 0, r + k = n, s = 0) are retried. Verification with the matching public key accepts that signature.',
  [I, F], 'all private keys, digests, nonces (including degenerate ones forcing retries)',
  'Degenerate nonces have probability 2^-256; tests check one known vector and a few round trips.',
  ['include/gmlib/sm2/sm2.h', 'include/gmlib/sm2/internal/sm2_alg.h'], [('sign_ / verify_', 'include/gmlib/sm2/sm2.h'), ('sm2_compute_z', 'include/gmlib/sm2/internal/sm2_alg.h')])
p('S02', 'SM2 verification accepts exactly the signatures satisfying the standard',
  'Verification returns true exactly when r and s are in [1, n-1], t = (r+s) mod n is non-zero and (e + x1) mod n equals r with (x1, y1) = sG + tP. Malformed or out-of-range signatures are rejected for every key, message and id, and verification never throws for ids within the documented length.',
  [I], 'all 64-byte signatures, all public keys, digests and ids',
  'Rejections are only tested by flipping bits of one valid signature; range ends and t = 0 need crafted inputs.',
  ['include/gmlib/sm2/sm2.h', 'include/gmlib/sm2/internal/sm2_alg.h'], [('verify_', 'include/gmlib/sm2/sm2.h')])
p('S03', 'SM2 encryption round-trips and decryption rejects tampering',
  'Decrypting the output of encryption with the matching key returns the plaintext for every non-empty plaintext, nonce and point format, and the ciphertext is C1 || C3 || C2 with exactly the announced length. Decryption throws whenever C1 is not a valid point encoding, the lengths are inconsistent, or the hash over the recovered plaintext differs from C3, and it never reads outside the ciphertext.',
  [I], 'all plaintexts up to the length bound, all nonces, formats, and all ciphertext buffers up to the bound',
  'Tests encrypt one or two fixed messages; truncated buffers, KDF block boundaries and every tamper position are not covered.',
  ['include/gmlib/sm2/sm2.h', 'include/gmlib/sm2/internal/sm2_alg.h'], [('encrypt_ / decrypt_ / plaintext_len / ciphertext_len', 'include/gmlib/sm2/sm2.h'), ('sm2_kdf_xor', 'include/gmlib/sm2/internal/sm2_alg.h')])
p('S04', 'SM2 ASN.1 structures round-trip and decoding is memory-safe',
  'Encoding an SM2 private key, public key, signature or ciphertext structure produces exactly the announced number of bytes of well-formed DER, and decoding it returns the same field values. Decoding an arbitrary buffer never reads outside it and on success reports fields lying inside it.',
  [I], 'all field values; all input buffers up to the length bound',
  'The structures are not covered by the tests beyond single vectors; adversarial buffers are not tested at all.',
  ['src/sm2/sm2p256v1_asn1.cpp', 'include/gmlib/sm2/internal/sm2_asn1.h'], [('sm2_*_asn1_encode / decode', 'src/sm2/sm2p256v1_asn1.cpp')])
p('P01', 'SM9 extension-field arithmetic is exact',
  'Addition, subtraction, negation, doubling, tripling, multiplication, squaring, inversion, conjugation, Frobenius maps and sparse products in the SM9 tower Fp2, Fp4, Fp12 equal the operations of the field defined by u^2 = -2, v^2 = u, w^3 = v, for all operands and with outputs aliasing inputs where the library does so.',
  [I], 'all field elements (polynomial identity over Fp)',
  'Tests only run complete signatures on fixed data; errors in one coefficient that cancel or vanish for sparse operands are invisible.',
  ['src/sm9/sm9_field.cpp', 'include/gmlib/sm9/internal/sm9_field.h'], [('sm9_fp2_* / sm9_fp4_* / sm9_fp12_*', 'src/sm9/sm9_field.cpp')])
p('P02', 'SM9 G1 and G2 point arithmetic obeys the group law',
  'On the SM9 curve over Fp and its twist over Fp2, doubling, mixed addition, general addition, negation and coordinate conversion return exactly the point the group law prescribes for all finite inputs in any representation, and general addition treats infinity as neutral.',
  [I], 'all curve points in all projective representations',
  'Only complete protocol runs on fixed data exist; exceptional cases never occur in them.',
  ['src/sm9/sm9_field.cpp', 'include/gmlib/sm9/internal/sm9_field.h'], [('sm9_ec_j_* / sm9_ec2_j_*', 'src/sm9/sm9_field.cpp')])
p('P03', 'SM9 point encodings round-trip, and decoding accepts only curve points',
  'Encoding a point of either SM9 group in any format that has a decoder (uncompressed and hybrid for both groups, compressed for G1) and decoding it returns the same point and length. Decoding an arbitrary buffer never reads past its stated length and succeeds exactly when the buffer starts with the complete encoding of a point on the curve (or twist): coordinates below p, a known format byte and matching parity.',
  [I], 'all points of both groups; all buffers of every length up to the longest format plus one',
  'Only the formats used in one signature vector are executed by tests.',
  ['src/sm9/sm9_field.cpp', 'include/gmlib/sm9/internal/sm9_field.h'], [('sm9_ec_a_to/from_bytes*, sm9_ec2_a_to/from_bytes*, checks', 'src/sm9/sm9_field.cpp')])
p('P04', 'SM9 signatures made by the library verify, and only standard-valid ones verify',
  'For every master key, identity, message and nonce, a signature produced with the identity\'s key is accepted by verification under the master public key, with h = H2(M || g^r) and S = (r - h) dsA. Verification accepts exactly when h is in [1, n-1], S decodes to a curve point and H2(M || e(S, [h1]P2 + Ppub) g^h) equals h, and rejects (without reading out of bounds or crashing) otherwise.',
  [I, F], 'all keys, identities, messages, nonces; all signature byte strings of every length',
  'One standard vector is tested; h = 0, short buffers, l = 0 retries and malformed points are not.',
  ['include/gmlib/sm9/sm9.h', 'include/gmlib/sm9/internal/sm9_alg.h'], [('sign / verify', 'include/gmlib/sm9/sm9.h')])
p('P05', 'SM9 hash-to-range and key derivation stay in range and follow the standard',
  'The hash functions H1 and H2 map every input to the integer ((Ha mod (n-1)) + 1) of the standard expansion, and master keys are always in [1, n-1]. User key extraction computes [ks/(H1(id)+ks)]P1, rejects the case H1(id)+ks = 0 mod n, and the master public key is [ks]P2.',
  [I], 'all inputs, all generator outputs, all master keys',
  'Boundary residues occur with negligible probability; one vector is tested.',
  ['include/gmlib/sm9/sm9.h', 'include/gmlib/sm9/internal/sm9_alg.h'], [('Hn expansion', 'include/gmlib/sm9/internal/sm9_alg.h'), ('master/user key classes', 'include/gmlib/sm9/sm9.h')])
p('P06', 'The SM9 pairing is the R-ate pairing and its final exponent is right',
  'The pairing evaluates the Miller function of the standard loop count with correct line functions at every step, and raises the result to a power that is a multiple of (p^12-1)/n coprime to n equal to the standard exponent. Exponentiation in the target group computes g^k for every 256-bit k including 0 and 1.',
  [I], 'all point pairs (lines as polynomial identities), all exponents',
  'A pairing that is wrong by a constant power or fails on sparse exponents still passes most vectors.',
  ['src/sm9/sm9_field.cpp'], [('pairing loop, line functions, final exponentiation, sm9_fp12_pow', 'src/sm9/sm9_field.cpp')])
p('C01', 'AES implements FIPS-197 exactly in every implementation',
  'For every key (128, 192, 256 bits) and every block, AES encryption equals the FIPS-197 cipher, decryption is its inverse, and the table-driven and AES-NI implementations give identical results. Multi-block calls equal block-by-block processing, with in-place operation allowed.',
  [I, C], 'all keys and blocks, three key sizes, both implementations, both directions',
  'Tests run the FIPS example vectors; a wrong table entry or round-key word shows only for inputs that hit it.',
  ['src/aes/aes_lut.cpp', 'src/aes/aes_aesni.cpp', 'include/gmlib/aes/aes.h', 'include/gmlib/aes/internal/aes_lut.h', 'include/gmlib/aes/internal/aes_aesni.h'], [('lookup tables, key schedule', 'src/aes/aes_lut.cpp'), ('AES-NI rounds', 'src/aes/aes_aesni.cpp')])
p('C02', 'SM4 implements GB/T 32907 exactly in every implementation',
  'For every key and block, SM4 encryption equals the GB/T 32907 cipher, decryption is its inverse, and the portable and the optimised implementations give identical results. Multi-block and parallel calls equal block-by-block processing, with in-place operation allowed.',
  [I, C], 'all keys and blocks, both implementations, scalar and vector paths, both directions',
  'Tests run the standard vector; a wrong table entry or lane mix-up in a parallel path shows only for specific blocks.',
  ['src/sm4/sm4_common.cpp', 'src/sm4/sm4_lang18.cpp', 'include/gmlib/sm4/sm4.h', 'include/gmlib/sm4/internal/sm4_common.h', 'include/gmlib/sm4/internal/sm4_lang18.h'], [('round function and key schedule', 'src/sm4/sm4_common.cpp, src/sm4/sm4_lang18.cpp')])
p('H01', 'SM3 compression and padding equal GB/T 32905 in every implementation',
  'For every chaining value and every message block the compression function equals the one of GB/T 32905, any number of consecutive blocks is chained in order, and the final block padding encodes the exact total bit length, in both implementations.',
  [I, C], 'all chaining values and blocks; all tail lengths 0..63; all block counts within the bound and all total lengths',
  'Tests hash a few strings; padding boundaries (tails of 55, 56, 63 bytes) and large lengths are not covered.',
  ['src/sm3/sm3_common.cpp', 'src/sm3/sm3_yang15.cpp', 'include/gmlib/sm3/sm3.h'], [('compress/update_blocks/final_block', 'src/sm3/sm3_common.cpp, src/sm3/sm3_yang15.cpp')])
p('H02', 'Incremental hashing is independent of how input is split',
  'Feeding a message to a hash object through any sequence of update calls, including empty ones, and finishing with or without trailing data gives the digest of the concatenated message. After a reset the object behaves like a fresh one.',
  [H, I], 'all splits of messages into update calls with every buffer fill level and every chunk length within the bound, for every block size the library instantiates',
  'Tests use a few splits; buffer-boundary combinations and block sizes other than 64 are missed.',
  ['include/gmlib/hash_lib/hash.h', 'include/gmlib/sm3/sm3.h', 'include/gmlib/ghash/ghash.h'], [('buffering in Hash::update/do_final', 'include/gmlib/hash_lib/hash.h')],
  state=[('buf_, buf_size_', 'pending partial block', 'include/gmlib/hash_lib/hash.h')])
p('H03', 'HMAC follows RFC 2104 for every key length and call sequence',
  'HMAC of any message under any key equals H((K xor opad) || H((K xor ipad) || M)) with K zero-padded, or hashed first when longer than the block, regardless of how the message is split. Re-keying the same object gives the same result as a fresh object.',
  [I, H], 'all keys of every length up to the bound (spanning the block size), all messages and splits within the bound',
  'Tests use a few vectors; key lengths around the block size and object reuse are not covered.',
  ['include/gmlib/hash_lib/hmac.h'], [('set_key / update / do_final', 'include/gmlib/hash_lib/hmac.h')])
p('G01', 'GHASH equals GF(2^128) multiplication in every implementation',
  'For every key H, state and sequence of blocks, each GHASH implementation (bitwise, table, carry-less multiply) maps the state to (state xor block) * H in the GCM field, block after block, and emits the state big-endian.',
  [I, C], 'all H, all states, all blocks; block counts within the bound; three implementations',
  'Tests run GCM vectors; reduction carries and table rows are only partly exercised.',
  ['src/ghash/ghash_common.cpp', 'src/ghash/ghash_lut256.cpp', 'src/ghash/ghash_pclmul.cpp'], [('field multiplication and tables', 'src/ghash/*.cpp')])
p('G02', 'GHASH objects are independent of splits and of their own history',
  'The GHASH of a byte string (zero-padded to a whole block) does not depend on how it is split over update calls. Resetting the object or setting a new key discards everything fed before, including a buffered partial block.',
  [H, I], 'all splits with every buffer fill and chunk length within the bound; all reset/re-key points',
  'Tests feed whole blocks or a single split; resets with buffered data are not tested.',
  ['include/gmlib/ghash/ghash.h', 'include/gmlib/hash_lib/hash.h'], [('GHash::reset/set_key, Hash::update', 'include/gmlib/ghash/ghash.h')])
p('M01', 'ECB and CBC follow SP 800-38A for every split of the data',
  'For any key, IV and data, ECB and CBC encryption and decryption through any sequence of update calls and a final call produce the SP 800-38A result with exact output lengths, decryption inverts encryption, and data that is not a whole number of blocks is rejected at the end. The reported output length is always set.',
  [H, I], 'all data, IVs and keys with an arbitrary block permutation; every buffer fill and chunk length within the bound',
  'Tests use one vector with one split; partial-buffer paths and parallel-batch boundaries are missed.',
  ['include/gmlib/block_cipher_mode/ecb_mode.h', 'include/gmlib/block_cipher_mode/cbc_mode.h', 'include/gmlib/block_cipher_mode/block_cipher_mode.h'], [('update_blocks / final_block', 'include/gmlib/block_cipher_mode/*.h')])
p('M02', 'CFB, OFB and CTR follow SP 800-38A for every split of the data',
  'For any key, IV and data of any length, CFB, OFB and CTR processing through any sequence of update calls and a final call produce the SP 800-38A stream with exact output lengths, and decryption inverts encryption. The counter increments as a 128-bit big-endian integer with carries through every byte.',
  [H, I], 'all data, IVs (including all-ones counters) and keys with an arbitrary block function; every buffer fill and chunk length within the bound',
  'Counter carries beyond the low byte and odd splits are not exercised by the vectors.',
  ['include/gmlib/block_cipher_mode/cfb_mode.h', 'include/gmlib/block_cipher_mode/ofb_mode.h', 'include/gmlib/block_cipher_mode/ctr_mode.h', 'include/gmlib/block_cipher_mode/internal/ctr_inc.h', 'include/gmlib/block_cipher_mode/block_cipher_mode.h'], [('key-stream generation, ctr_inc', 'include/gmlib/block_cipher_mode/*.h')])
p('M03', 'GCM encryption computes the SP 800-38D ciphertext and tag',
  'For any key, IV of any length, associated data and plaintext, GCM encryption through any sequence of update calls outputs the SP 800-38D ciphertext and, after the final call, the SP 800-38D tag. The 32-bit block counter wraps without touching the IV part.',
  [H, I], 'all keys, IVs (12 bytes and other lengths), AAD and data within the bound, all splits within the bound',
  'Vectors cover a few lengths; non-multiple AAD/IV lengths and split histories are not covered.',
  ['include/gmlib/block_cipher_mode/gcm_mode.h', 'include/gmlib/block_cipher_mode/internal/gctr_inc.h', 'include/gmlib/ghash/ghash.h'], [('GctrCryptor / GcmEncryptor', 'include/gmlib/block_cipher_mode/gcm_mode.h')])
p('M04', 'GCM decryption releases success only for the authentic tag',
  'GCM decryption recovers the plaintext of SP 800-38D and its final call succeeds exactly when the supplied tag equals the SP 800-38D tag of the received ciphertext, AAD and IV; otherwise it throws. The verdict does not depend on earlier or concurrent decryptions by other objects.',
  [H, I], 'all ciphertexts, tags, AAD, IVs within the bound; all splits within the bound; sequences of decryptions in one process',
  'Tests check one success per vector and no tampering, and never run a second decryption after a partial block.',
  ['include/gmlib/block_cipher_mode/gcm_mode.h'], [('GcmDecryptor::final_block tag comparison', 'include/gmlib/block_cipher_mode/gcm_mode.h')])
p('M05', 'Re-initialising a mode object erases its history',
  'After init (or reset where offered) on a mode object in any state, including with a buffered partial block or after a final call, all later output equals that of a freshly constructed object initialised the same way. This holds for every mode and direction.',
  [H], 'all prior histories (every buffered length), all modes',
  'Tests construct a fresh object per vector, so state leaking from an earlier message is never seen.',
  ['include/gmlib/block_cipher_mode/block_cipher_mode.h', 'include/gmlib/block_cipher_mode/gcm_mode.h', 'include/gmlib/block_cipher_mode/cbc_mode.h', 'include/gmlib/block_cipher_mode/ctr_mode.h'], [('init / reset', 'include/gmlib/block_cipher_mode/*.h')])
p('U01', 'Bulk XOR equals byte-wise XOR and touches nothing else',
  'XOR of two buffers writes out[i] = a[i] xor b[i] for exactly the requested bytes, for every length and every supported overlap of output with an input (identical pointers), in the scalar and vector variants. No byte outside the range is read or written.',
  [I, C], 'all contents, every length within the bound, fixed-size and run-time-size variants, both builds, aliasing',
  'Tests use a few lengths; remainders of the vector loops are missed.',
  ['src/memory_utils/memxor.cpp', 'include/gmlib/memory_utils/memxor.h'], [('memxor<N>, memxor_n', 'include/gmlib/memory_utils/memxor.h, src/memory_utils/memxor.cpp')])
p('U02', 'Endian loads and stores are exact inverses with the named byte order',
  'Loading an 8-, 16-, 32- or 64-bit value big- or little-endian yields the integer the bytes denote in that order, storing writes those bytes, and load after store returns the value, for every value and in every build variant.',
  [I, C], 'all values and byte strings, all variants, both builds',
  'Tests check a few constants; symmetric constants hide swapped bytes.',
  ['include/gmlib/memory_utils/endian.h'], [('load/store helpers', 'include/gmlib/memory_utils/endian.h')])
p('A01', 'ASN.1 decoding never leaves the input buffer and reports spans inside it',
  'Decoding any byte string with any ASN.1 decode function never reads outside the given length, and either reports an error or a consumed length not exceeding the input with the value lying inside the consumed part. The recorded type is the one decoded and truncated elements are rejected.',
  [I], 'all byte strings of every length up to the bound, all decode functions',
  'Tests decode well-formed encodings only; the guarantee is about hostile ones.',
  ['src/asn1/asn1.cpp', 'src/asn1/asn1_dump.cpp', 'include/gmlib/asn1/asn1.h'], [('asn1_decode_tlv and typed decoders', 'src/asn1/asn1.cpp')])
p('A02', 'ASN.1 encodings have the announced length, are well formed and round-trip',
  'For every value, each ASN.1 encode function writes exactly the number of bytes its length function announces (and never more than the announced maximum), as a DER element with minimal length octets, and the matching decoder returns the original value. Unsigned integers whose top bit is set get exactly one leading zero octet.',
  [I], 'all values and lengths within the bound, including length-of-length boundaries (127/128, 255/256, 65535/65536)',
  'Tests encode a few small values; high-bit integers and long lengths are not covered.',
  ['src/asn1/asn1.cpp', 'include/gmlib/asn1/asn1.h'], [('asn1_encode_* and *_outl', 'src/asn1/asn1.cpp')])
p('R01', 'Random generators deliver hardware output or fail loudly, never stale bytes',
  'A successful generator call fills exactly the requested number of bytes, each taken from fresh successful outputs of the underlying source, for every length and alignment. If the hardware source keeps failing, the call throws instead of returning bytes that were not generated, whatever the pattern of transient failures.',
  [F, I], 'all patterns of hardware success/failure within the retry bound, all request lengths within the bound',
  'Hardware failure cannot be provoked by a unit test on a working CPU.',
  ['include/gmlib/rng/hardware_rng/rdrand64_rng.h', 'include/gmlib/rng/hardware_rng/rdseed64_rng.h', 'include/gmlib/rng/hardware_rng/rdrand32_rng.h', 'include/gmlib/rng/hardware_rng/rdseed32_rng.h', 'include/gmlib/rng/std_rng.h', 'include/gmlib/rng/cstd_rng.h'], [('gen loops with retry', 'include/gmlib/rng/*.h')])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
