From 1bd99759cff209f2ad4c4f20835b003cdba05cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 01/24] fix: mont256_neg(0) must be 0, not the modulus
 (portable backend)

---
 src/number/mont256_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index a9ff88d..58a8e39 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -143,6 +143,7 @@ void mont256_neg(const Mont256CTX*   ctx,
     if (uint256_equal_zero(num))
     {
         uint256_set_zero(ret);
+        return;
     }
     uint256_sub_borrow(ret, ctx->P, num);
 }
-- 
2.43.0


From f1c1d98c785eda937dea8e8b95854cd993056642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 02/24] fix: mpz_cmp (x64) must compare from the most
 significant limb

---
 src/number/mpz_x64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mpz_x64.cpp b/src/number/mpz_x64.cpp
index 551a411..f02ffaf 100644
--- a/src/number/mpz_x64.cpp
+++ b/src/number/mpz_x64.cpp
@@ -94,8 +94,8 @@ int mpz_cmp(const std::uint64_t* a,
     for (std::size_t i = 0; i < limb_size; i++)
     {
         std::size_t pos = limb_size - 1 - i;
-        if (a[i] > b[i]) return 1;
-        if (a[i] < b[i]) return -1;
+        if (a[pos] > b[pos]) return 1;
+        if (a[pos] < b[pos]) return -1;
     }
     return 0;
 }
-- 
2.43.0


From 24fbca100b9295e8473f4c2f670ea9de861d2b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 03/24] fix: mont256_pow with exponent 0 must return one in
 Montgomery form

---
 src/number/mont256_common.cpp | 2 +-
 src/number/mont256_x64.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index 58a8e39..e801fcc 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -197,7 +197,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
diff --git a/src/number/mont256_x64.cpp b/src/number/mont256_x64.cpp
index d7a9caa..3d58aa8 100644
--- a/src/number/mont256_x64.cpp
+++ b/src/number/mont256_x64.cpp
@@ -252,7 +252,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
-- 
2.43.0


From 9804e92319cdc914d6246535a54f24239741a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 04/24] fix: block cipher mode update must set *outl when the
 buffer stays partial

---
 include/gmlib/block_cipher_mode/block_cipher_mode.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/block_cipher_mode.h b/include/gmlib/block_cipher_mode/block_cipher_mode.h
index 92208c0..0923095 100644
--- a/include/gmlib/block_cipher_mode/block_cipher_mode.h
+++ b/include/gmlib/block_cipher_mode/block_cipher_mode.h
@@ -74,8 +74,9 @@ public:
             out += size, in += size, inl -= size;
 
             std::memcpy(buf_, in, inl);
-            buf_size_ = inl, *outl = (std::size_t)(out - out_base);
+            buf_size_ = inl;
         }
+        *outl = (std::size_t)(out - out_base);
     }
 
     void do_final(std::uint8_t*       out,
-- 
2.43.0


From 4fb0c730a3c0bd62dc348e307b4fdbbd42414a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:08 +0000
Subject: [PATCH 05/24] fix: init() of the block cipher modes must drop data
 buffered before

---
 include/gmlib/block_cipher_mode/cbc_mode.h | 2 ++
 include/gmlib/block_cipher_mode/cfb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/ctr_mode.h | 1 +
 include/gmlib/block_cipher_mode/ecb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/gcm_mode.h | 1 +
 include/gmlib/block_cipher_mode/ofb_mode.h | 1 +
 6 files changed, 9 insertions(+)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index cd64d4d..f2c6932 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -98,6 +99,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/cfb_mode.h b/include/gmlib/block_cipher_mode/cfb_mode.h
index a61604f..2dd5926 100644
--- a/include/gmlib/block_cipher_mode/cfb_mode.h
+++ b/include/gmlib/block_cipher_mode/cfb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -93,6 +94,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ctr_mode.h b/include/gmlib/block_cipher_mode/ctr_mode.h
index 1561526..6a8729b 100644
--- a/include/gmlib/block_cipher_mode/ctr_mode.h
+++ b/include/gmlib/block_cipher_mode/ctr_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(counter_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ecb_mode.h b/include/gmlib/block_cipher_mode/ecb_mode.h
index 3e3514d..23e9837 100644
--- a/include/gmlib/block_cipher_mode/ecb_mode.h
+++ b/include/gmlib/block_cipher_mode/ecb_mode.h
@@ -28,6 +28,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
     }
 
@@ -83,6 +84,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
     }
 
diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index b69bb0b..65afe65 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -49,6 +49,7 @@ public:
         static const std::uint8_t ZERO[16] = {0};
         std::uint8_t              t[16];
 
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         cipher_.encrypt_block(t, ZERO);
         hash.set_key(t);
diff --git a/include/gmlib/block_cipher_mode/ofb_mode.h b/include/gmlib/block_cipher_mode/ofb_mode.h
index 12b3b72..c179faa 100644
--- a/include/gmlib/block_cipher_mode/ofb_mode.h
+++ b/include/gmlib/block_cipher_mode/ofb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
-- 
2.43.0


From 5b20c38b2574f1e71b964038056e7ad191016935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 06/24] fix: GHash reset() and set_key() must drop a buffered
 partial block

---
 include/gmlib/ghash/ghash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gmlib/ghash/ghash.h b/include/gmlib/ghash/ghash.h
index f759cc8..8f45394 100644
--- a/include/gmlib/ghash/ghash.h
+++ b/include/gmlib/ghash/ghash.h
@@ -37,11 +37,13 @@ public:
 
     void reset() noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_reset(&ctx_);
     }
 
     void set_key(const std::uint8_t H[16]) noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_init(&ctx_, H);
     }
 
-- 
2.43.0


From 354f063ec950ea29bab2eb53f9e3b8bb5c91de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 07/24] fix: GcmDecryptor::final_block must not keep its work
 buffers in static storage

---
 include/gmlib/block_cipher_mode/gcm_mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index 65afe65..3a5e53f 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -315,7 +315,7 @@ private:
                      const std::uint8_t* in,
                      std::size_t         inl) override
     {
-        static std::uint8_t t[16] = {0}, tag[16];
+        std::uint8_t t[16] = {0}, tag[16];
         if (inl != 0)
         {
             std::size_t nxt_ct_len = ct_len_ + inl;
-- 
2.43.0


From 1c0964e5028b5166a304e390cc7f6813a6a29dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 08/24] fix: Hash::update must divide by BLOCK_SIZE, not 64,
 after a buffered block

---
 include/gmlib/hash_lib/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/hash_lib/hash.h b/include/gmlib/hash_lib/hash.h
index 67daf11..307ec77 100644
--- a/include/gmlib/hash_lib/hash.h
+++ b/include/gmlib/hash_lib/hash.h
@@ -64,7 +64,7 @@ public:
         }
         if (inl && buf_size_ == 0)
         {
-            std::size_t block_num = inl / 64;
+            std::size_t block_num = inl / BLOCK_SIZE;
             this->update_blocks(in, block_num);
             in += block_num * BLOCK_SIZE, inl -= block_num * BLOCK_SIZE;
             if (inl)
-- 
2.43.0


From 7e68bf2f828063393c7c2b06c48f48f1dcbdf330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 09/24] fix: asn1_decode_tlv must reject a value that runs past
 the input

---
 src/asn1/asn1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 066606d..7c431e6 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -154,6 +154,10 @@ int asn1_decode_tlv(Asn1TLV*            tlv,
     }
     in += n, inl -= n, *read_num += n;
     // value
+    if (tlv->length > inl)
+    {
+        return -1;
+    }
     tlv->value = in;
     *read_num += tlv->length;
     return 0;
-- 
2.43.0


From 8e9858e6c594e3f4bdc4d40f76d2e265e05659dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 10/24] fix: BIT STRING decode must take the unused-bit count
 from the value, not the tag

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 7c431e6..36a01a0 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -537,7 +537,7 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     }
     *data_ptr    = tlv.value + 1;
     *data_length = tlv.length - 1;
-    *bits_length = 8 * (tlv.length - 1) - in[0];
+    *bits_length = 8 * (tlv.length - 1) - tlv.value[0];
     return 0;
 }
 
-- 
2.43.0


From d87545a103c38d91891ddad51cf8adb5f9b66f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 11/24] fix: empty OCTET STRING, SEQUENCE and SET are valid
 encodings

---
 src/asn1/asn1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 36a01a0..e0c951d 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -553,7 +553,7 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING || tlv.length == 0)
+    if (tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -594,7 +594,7 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SEQUENCE || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
     }
@@ -617,7 +617,7 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
         return err;
     }
     if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SET || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
     }
-- 
2.43.0


From 434f03fccd58aa0aa9e3afea95963b28447fe009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 12/24] fix: asn1_dump must report an error found inside a
 constructed value

---
 src/asn1/asn1_dump.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 2489002..3911682 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -36,7 +36,11 @@ static int r_asn1_dump(const std::uint8_t* in,
         printf(",%s)\n", asn1_tag_pc_name(tlv.tag_pc));
         if (tlv.tag_pc == ASN1_TAG_PC_CONSTRUCTED)
         {
-            r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            err = r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            if (err)
+            {
+                return err;
+            }
         }
         else
         {
-- 
2.43.0


From 79770a5863ee1a81f4730aef5ee0412616abcc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 13/24] fix: asn1_encode_tlv_outl length buffer is one byte
 short

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index e0c951d..e32a5d3 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -231,7 +231,7 @@ const char* asn1_tag_number_name(Asn1TagNumber tag_number) noexcept
 
 std::size_t asn1_encode_tlv_outl(std::size_t value_length) noexcept
 {
-    std::uint8_t l_buf[sizeof(std::size_t)];
+    std::uint8_t l_buf[1 + sizeof(std::size_t)];
     std::size_t  l_size;
     asn1_encode_length_octets(l_buf, &l_size, value_length);
     return 1 + l_size + value_length;
-- 
2.43.0


From 578e6610e9fae56092e783613ee39f3422b42902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 14/24] fix: INTEGER encode must drop leading zero bytes and
 keep the sign byte it adds

---
 src/asn1/asn1.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index e32a5d3..0053f89 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -242,6 +242,21 @@ std::size_t asn1_encode_boolean_outl() noexcept
     return 3; // tag(1), length(1), value(1)
 }
 
+/**
+ * @brief           drop the leading zero bytes of an integer (the last byte
+ *                  stays), the value octets of an INTEGER are minimal
+ * @param data      integer memory data(big endian), 'data_len' bytes
+ * @param data_len  data length(in bytes)
+ */
+static void asn1_integer_strip_zero(const std::uint8_t** data,
+                                    std::size_t*         data_len) noexcept
+{
+    while (*data_len > 1 && (*data)[0] == 0)
+    {
+        *data += 1, *data_len -= 1;
+    }
+}
+
 /**
  * @brief           calculate ASN.1 INTEGER value length
  * @param data      integer memory data(big endian), 'data_len' bytes
@@ -253,6 +268,7 @@ static std::size_t asn1_encode_integer_value_length(
     std::size_t         data_len) noexcept
 {
     std::size_t value_length;
+    asn1_integer_strip_zero(&data, &data_len);
     if (data_len == 0)
     {
         value_length = 0;
@@ -352,11 +368,12 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
                    ASN1_TAG_INTEGER,         //
                    asn1_encode_integer_value_length(data, data_len));
     out += n, *outl = n;
+    asn1_integer_strip_zero(&data, &data_len);
     if (data_len)
     {
         if (data[0] >= 0x80)
         {
-            *out = 0, *outl += 1;
+            *out = 0, out += 1, *outl += 1;
         }
         std::memmove(out, data, data_len);
         *outl += data_len;
-- 
2.43.0


From 41ef008ce2c1816cd6a23a3be74ce956b3d0bd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 15/24] fix: SM2 public key decode must require exactly 65
 bytes and 520 bits

---
 src/sm2/sm2p256v1_asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 6c9d04e..26d50a9 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -67,7 +67,7 @@ int sm2_public_key_asn1_decode(ASN1_SM2PublicKey*  pub,
     {
         return -1;
     }
-    if (data_length != 65 && data_bits != 65 * 8)
+    if (data_length != 65 || data_bits != 65 * 8)
     {
         return -1;
     }
-- 
2.43.0


From 132108c9b2e04337effbec9981ea7752e27030b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 16/24] fix: AES-192 key expansion (AES-NI) must not read past
 the 24-byte key

---
 src/aes/aes_aesni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_aesni.cpp b/src/aes/aes_aesni.cpp
index cc2cda0..764e276 100644
--- a/src/aes/aes_aesni.cpp
+++ b/src/aes/aes_aesni.cpp
@@ -110,7 +110,7 @@ static void AES_192_Key_Expansion(const unsigned char* userkey,
     __m128i  temp1, temp2, temp3;
     __m128i* Key_Schedule = (__m128i*)key;
     temp1                 = _mm_loadu_si128((__m128i*)userkey);
-    temp3                 = _mm_loadu_si128((__m128i*)(userkey + 16));
+    temp3                 = _mm_loadl_epi64((__m128i*)(userkey + 16));
     Key_Schedule[0]       = temp1;
     Key_Schedule[1]       = temp3;
     temp2                 = _mm_aeskeygenassist_si128(temp3, 0x1);
-- 
2.43.0


From cff524f401ddbd3fc629ef8e395e150ddd66c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 17/24] fix: general point addition treats infinity as the
 neutral element

---
 src/sm2/sm2p256v1.cpp | 11 +++++++++++
 src/sm9/sm9_field.cpp | 22 ++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 8046bd8..d460b15 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -524,6 +524,17 @@ void sm2_ec_j_add(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_j Q) noexcept
 #define Y2 Q[1]
 #define Z2 Q[2]
 
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm2_ec_j_is_inf(Q))
+    {
+        sm2_ec_j_cpy(R, P);
+        return;
+    }
+
     sm2_fp_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
     sm2_fp_sqr(Z1Z1, Z1);
     sm2_fp_sqr(Z2Z2, Z2);
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9be388b..2c88665 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1118,6 +1118,17 @@ void sm9_ec_j_add(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_j Q) noexcept
 {
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec_j_is_inf(Q))
+    {
+        sm9_ec_j_cpy(R, P);
+        return;
+    }
+
     sm9_fp_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
 #define X3 R[0]
 #define Y3 R[1]
@@ -1525,6 +1536,17 @@ void sm9_ec2_j_add(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_j Q) noexcept
 {
     // http://hyperelliptic.org/EFD/g1p/auto-shortw-jacobian-0.html#addition-add-2007-bl
     // Cost: 11M + 5S + 9add + 4*2.
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_cpy(R, Q);
+        return;
+    }
+    if (sm9_ec2_j_is_inf(Q))
+    {
+        sm9_ec2_j_cpy(R, P);
+        return;
+    }
+
     sm9_fp2_t Z1Z1, Z2Z2, U1, U2, S1, S2, H, I, J, r, V;
 #define X3 R[0]
 #define Y3 R[1]
-- 
2.43.0


From 8252ed5812957726e16d21317f7272819c1c015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 18/24] fix: mixed point addition handles infinity, equal and
 opposite operands

---
 src/sm2/sm2p256v1.cpp | 20 ++++++++++++++++++++
 src/sm9/sm9_field.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index d460b15..629e5de 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -607,12 +607,32 @@ void sm2_ec_j_add_a(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_a Q) noexcept
 #define X2 Q[0]
 #define Y2 Q[1]
 
+    if (sm2_ec_j_is_inf(P))
+    {
+        sm2_ec_j_from_a(R, Q);
+        return;
+    }
+
     sm2_fp_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
     sm2_fp_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
     sm2_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm2_fp_mul(S2, Y2, Z1);
     sm2_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+
+    if (sm2_fp_equal(U2, X1))
+    {
+        if (sm2_fp_equal(S2, Y1))
+        {
+            sm2_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm2_ec_j_set_inf(R);
+        }
+        return;
+    }
+
     sm2_fp_sub(H, U2, X1);    // H = U2-X1
     sm2_fp_sqr(HH, H);        // HH = H^2
     sm2_fp_dbl(I, HH);
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 2c88665..c60cad4 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1211,12 +1211,32 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
 #define X2 Q[0]
 #define Y2 Q[1]
 
+    if (sm9_ec_j_is_inf(P))
+    {
+        sm9_ec_j_from_a(R, Q);
+        return;
+    }
+
     sm9_fp_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
     sm9_fp_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
     sm9_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp_mul(S2, Y2, Z1);
     sm9_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+
+    if (sm9_fp_equal(U2, X1))
+    {
+        if (sm9_fp_equal(S2, Y1))
+        {
+            sm9_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec_j_set_inf(R);
+        }
+        return;
+    }
+
     sm9_fp_sub(H, U2, X1);    // H = U2-X1
     sm9_fp_sqr(HH, H);        // HH = H^2
     sm9_fp_dbl(I, HH);
@@ -1629,12 +1649,32 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
 #define X2 Q[0]
 #define Y2 Q[1]
 
+    if (sm9_ec2_j_is_inf(P))
+    {
+        sm9_ec2_j_from_a(R, Q);
+        return;
+    }
+
     sm9_fp2_t Z1Z1, U2, S2, H, HH, I, J, r, V;
 
     sm9_fp2_sqr(Z1Z1, Z1);     // Z1Z1 = Z1^2
     sm9_fp2_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp2_mul(S2, Y2, Z1);
     sm9_fp2_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+
+    if (sm9_fp2_equal(U2, X1))
+    {
+        if (sm9_fp2_equal(S2, Y1))
+        {
+            sm9_ec2_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec2_j_set_inf(R);
+        }
+        return;
+    }
+
     sm9_fp2_sub(H, U2, X1);    // H = U2-X1
     sm9_fp2_sqr(HH, H);        // HH = H^2
     sm9_fp2_dbl(I, HH);
-- 
2.43.0


From c95b955f46e0a5879ee01f0435ee850f3f5c00b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 19/24] fix: sm9_fp12_pow with exponent zero returns one
 instead of reading past the exponent

---
 src/sm9/sm9_field.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index c60cad4..a9a514c 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -927,7 +927,12 @@ void sm9_fp12_pow(sm9_fp12_t         r,
         sm9_fp12_mul(lut_table[j], lut_table[j - 1], a);
     }
     // compute power
-    while (e_u8[i] == 0) i++;
+    while (i < 32 && e_u8[i] == 0) i++;
+    if (i == 32)
+    {
+        sm9_fp12_set_one(r);
+        return;
+    }
     if (e_u8[i] > 0xF)
     {
         int index = (e_u8[i] >> 4) & 0xF;
-- 
2.43.0


From 59bde8935b865e6505af798d5be76a8581cde49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 20/24] fix: SM9 G2 point encodings place y after the 64-byte x

---
 src/sm9/sm9_field.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index a9a514c..c64dba7 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1475,13 +1475,13 @@ void sm9_ec2_a_neg(sm9_ec2_a R, const sm9_ec2_a P) noexcept
 void sm9_ec2_a_to_bytes04(std::uint8_t out[128], const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 0, P[0]);
-    sm9_fp2_to_bytes(out + 32, P[1]);
+    sm9_fp2_to_bytes(out + 64, P[1]);
 }
 
 void sm9_ec2_a_from_bytes04(sm9_ec2_a R, const std::uint8_t in[128]) noexcept
 {
     sm9_fp2_from_bytes(R[0], in + 0);
-    sm9_fp2_from_bytes(R[1], in + 32);
+    sm9_fp2_from_bytes(R[1], in + 64);
 }
 
 void sm9_ec2_a_to_bytes_uncompressed(std::uint8_t    out[129],
@@ -1495,14 +1495,14 @@ void sm9_ec2_a_to_bytes_compressed(std::uint8_t    out[65],
                                    const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 1, P[1]);
-    out[0] = ((out[32] & 1) == 0) ? 0x02 : 0x03;
+    out[0] = ((out[64] & 1) == 0) ? 0x02 : 0x03;
     sm9_fp2_to_bytes(out + 1, P[0]);
 }
 
 void sm9_ec2_a_to_bytes_mix(std::uint8_t out[129], const sm9_ec2_a P) noexcept
 {
     sm9_ec2_a_to_bytes04(out + 1, P);
-    out[0] = ((out[64] & 1) == 0) ? 0x06 : 0x07;
+    out[0] = ((out[128] & 1) == 0) ? 0x06 : 0x07;
 }
 
 int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
-- 
2.43.0


From d4a4cb37e686b42c412cac01192e6553e1fe7574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 21/24] fix: point decoding checks the buffer length, reduced
 coordinates and the hybrid parity

---
 src/sm2/sm2p256v1.cpp | 24 +++++++++++++++++++++++
 src/sm9/sm9_field.cpp | 45 ++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 68 insertions(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 629e5de..f7c0431 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -2,6 +2,7 @@
 #include <gmlib/sm2/internal/sm2p256v1.h>
 
 #include <cstdio>
+#include <cstring>
 namespace sm2::internal {
 
 const std::uint8_t SM2_DEFAULT_ID[16] = {
@@ -456,17 +457,35 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
                         const std::uint8_t* in,
                         std::size_t         inl) noexcept
 {
+    std::uint8_t buf[65];
     if (inl == 0)
     {
         return -1;
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
+        // coordinates shall be reduced, and 06/07 shall match the parity of y
+        if (in[0] == 0x04)
+        {
+            sm2_ec_a_to_bytes_uncompressed(buf, R);
+        }
+        else
+        {
+            sm2_ec_a_to_bytes_mix(buf, R);
+        }
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
@@ -474,11 +493,16 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
         {
             return -1;
         }
+        sm2_ec_a_to_bytes_compressed(buf, R);
     }
     else
     {
         return -1;
     }
+    if (std::memcmp(buf, in, *read_n) != 0)
+    {
+        return -1;
+    }
     return sm2_ec_a_check(R) ? 0 : -1;
 }
 
diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index c64dba7..9034482 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1,6 +1,8 @@
 #include <gmlib/number/mpz.h>
 #include <gmlib/sm9/internal/sm9_field.h>
 
+#include <cstring>
+
 namespace sm9::internal {
 // y^2 = x^3 + 5
 // 0xb640000002a3a6f1d603ab4ff58ec74521f2934b1a7aeedbe56f9b27e351457d
@@ -1066,17 +1068,35 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
                         const std::uint8_t* in,
                         std::size_t         inl) noexcept
 {
+    std::uint8_t buf[65];
     if (inl == 0)
     {
         return -1;
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
+        // coordinates shall be reduced, and 06/07 shall match the parity of y
+        if (in[0] == 0x04)
+        {
+            sm9_ec_a_to_bytes_uncompressed(buf, R);
+        }
+        else
+        {
+            sm9_ec_a_to_bytes_mix(buf, R);
+        }
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
@@ -1084,11 +1104,16 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         {
             return -1;
         }
+        sm9_ec_a_to_bytes_compressed(buf, R);
     }
     else
     {
         return -1;
     }
+    if (std::memcmp(buf, in, *read_n) != 0)
+    {
+        return -1;
+    }
     return sm9_ec_a_check(R) ? 0 : -1;
 }
 
@@ -1510,15 +1535,33 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
                          const std::uint8_t* in,
                          std::size_t         inl) noexcept
 {
+    std::uint8_t buf[129];
     if (inl == 0)
     {
         return -1;
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 129)
+        {
+            return -1;
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
-        return 0;
+        // coordinates shall be reduced, and 06/07 shall match the parity of y
+        if (in[0] == 0x04)
+        {
+            sm9_ec2_a_to_bytes_uncompressed(buf, R);
+        }
+        else
+        {
+            sm9_ec2_a_to_bytes_mix(buf, R);
+        }
+        if (std::memcmp(buf, in, 129) != 0)
+        {
+            return -1;
+        }
+        return sm9_ec2_a_check(R) ? 0 : -1;
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0


From f582d1b0e37acb755b9ac09fde09b146a3398f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 22/24] fix: SM2 key generation draws the private key from [1,
 n-2]

---
 include/gmlib/sm2/sm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 12be82a..ab1d326 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -557,7 +557,7 @@ inline void SM2PrivateKey<Hash>::gen_priv(rng::Rng& rng)
     internal::sm2_bn_t d;
     rng.gen(priv_key, 32);
     internal::sm2_bn_from_bytes(d, priv_key);
-    internal::sm2_bn_mod_n_sub1(d);
+    internal::sm2_bn_mod_n_sub2(d);
     internal::sm2_bn_add_uint32(d, d, 1);
     internal::sm2_bn_to_bytes(priv_, d);
     // set pub
-- 
2.43.0


From 010ea30c00407065289c0b57da5d193cdc0b9a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 23/24] fix: SM2 set_pub rejects coordinates outside [0, p-1]

---
 include/gmlib/sm2/sm2.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index ab1d326..e2eb916 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -356,7 +356,11 @@ inline void SM2PublicKey<Hash>::set_pub(const std::uint8_t x[32],
     internal::sm2_ec_a T;
     internal::sm2_fp_from_bytes(T[0], x);
     internal::sm2_fp_from_bytes(T[1], y);
-    if (!internal::sm2_ec_a_check(T))
+    std::uint8_t       xy[64];
+    internal::sm2_ec_a_to_bytes04(xy, T);
+    // coordinates shall be in [0, p-1], and the point on the curve
+    if (std::memcmp(xy + 0, x, 32) != 0 || std::memcmp(xy + 32, y, 32) != 0 ||
+        !internal::sm2_ec_a_check(T))
     {
         throw std::runtime_error("invalid sm2p256v1 PublicKey");
     }
-- 
2.43.0


From 9ecf13c59883f0956edd01b33c90313d3b4de817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 24/24] fix: SM2 verification rejects when [s]G + [t]P is the
 point at infinity

---
 include/gmlib/sm2/sm2.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index e2eb916..81edbdc 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -464,6 +464,10 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_ec_j_mul_g(sG.j, sig_s);
     internal::sm2_ec_j_mul_a(tP.j, t, tP.a);
     internal::sm2_ec_j_add(tP.j, sG.j, tP.j);
+    if (internal::sm2_ec_j_is_inf(tP.j))
+    {
+        return false;
+    }
     internal::sm2_ec_j_to_a(tP.a, tP.j);
     // R = e' + x1' mod n
     internal::sm2_fn_from_fp(tmp.fn, tP.a[0]);
-- 
2.43.0

