From 155ced522a1e81d75faabf3d0ffd46f09cac1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 01/12] verif hook: let clang compile option solvers (guard
 MILO_VERIF)

---
 src/milo/internal/option.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/milo/internal/option.h b/src/milo/internal/option.h
index 17dfc1c..411c772 100644
--- a/src/milo/internal/option.h
+++ b/src/milo/internal/option.h
@@ -138,7 +138,11 @@ namespace milo::internal
         template<
             typename t_option
         >
+        #ifdef MILO_VERIF
+        struct solver : meta::asbool<
+        #else
         using solver = meta::asbool<
+        #endif
             (
                 requires
                 {
@@ -156,7 +160,12 @@ namespace milo::internal
                 }
             ),
             t_option
-        >;
+        >
+        #ifdef MILO_VERIF
+        {
+        }
+        #endif
+        ;
         
         template<
             typename... t_options
@@ -224,7 +233,11 @@ namespace milo::internal
         template<
             typename t_option
         >
+        #ifdef MILO_VERIF
+        struct solver : meta::asbool<
+        #else
         using solver = meta::asbool<
+        #endif
             (
                 requires
                 {
@@ -236,7 +249,12 @@ namespace milo::internal
                 }
             ),
             t_option
-        >;
+        >
+        #ifdef MILO_VERIF
+        {
+        }
+        #endif
+        ;
         
         template<
             typename... t_options
-- 
2.43.0


From 0b6c0894f3905d06d7d739bc2ec117314eb1d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 02/12] fix: codec decode accepted characters above 0x7f

The validity test compared a signed char with the decoded uint8_t, so a
character with the top bit set never compared equal to its unchanged value
and was decoded into data.
---
 src/milo/primitive/detail/codec/base_16.h |  4 ++--
 src/milo/primitive/detail/codec/base_64.h | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 24f16ce..ab5da47 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -131,7 +131,7 @@ namespace milo::primitive::detail
                 auto b_0 = decode(c_0);
                 
                 [[unlikely]]
-                if (c_0 == b_0)
+                if (uint8_t(c_0) == b_0)
                 {
                     a_error = error::codec_base_16_decode;
                     return 0;
@@ -151,7 +151,7 @@ namespace milo::primitive::detail
                 auto b_1 = decode(c_1);
                 
                 [[unlikely]]
-                if (c_0 == b_0 || c_1 == b_1)
+                if (uint8_t(c_0) == b_0 || uint8_t(c_1) == b_1)
                 {
                     a_error = error::codec_base_16_decode;
                     return from_ptr - a_from_ptr;
diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 93d3446..7ee8007 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -188,10 +188,10 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
-                    c_2 == b_2 ||
-                    c_3 == b_3)
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
+                    uint8_t(c_2) == b_2 ||
+                    uint8_t(c_3) == b_3)
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
@@ -220,11 +220,11 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
                     (p_0 && !p_1) ||
-                    (c_2 == b_2 && !p_0) ||
-                    (c_3 == b_3 && !p_1))
+                    (uint8_t(c_2) == b_2 && !p_0) ||
+                    (uint8_t(c_3) == b_3 && !p_1))
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
-- 
2.43.0


From be870f8f1459a44e8e0519c17384112636ae8475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 03/12] fix: base-16 decode of an odd number of characters
 dropped a pair

The destination pointer and the index were both advanced past the leading
single digit, leaving a hole of one byte and ignoring the last pair.
---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index ab5da47..6485e6c 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -143,7 +143,7 @@ namespace milo::primitive::detail
                 from_ptr += 1;
             }
             
-            for (size_t i = last_size; i < full_size; i += 1)
+            for (size_t i = 0; i < full_size; i += 1)
             {
                 auto c_0 = char(from_ptr[0]);
                 auto c_1 = char(from_ptr[1]);
-- 
2.43.0


From 9f1fe6e836244130de23e392eaac4b9f071bf87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 04/12] fix: base-16 decode error reported characters read
 instead of bytes written

---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 6485e6c..7a1bdd2 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -154,7 +154,7 @@ namespace milo::primitive::detail
                 if (uint8_t(c_0) == b_0 || uint8_t(c_1) == b_1)
                 {
                     a_error = error::codec_base_16_decode;
-                    return from_ptr - a_from_ptr;
+                    return i + last_size;
                 }
                 
                 to_ptr[i] = t_to(b_0 << 4 | b_1);
-- 
2.43.0


From abe0e17e152ed8d1390be2dbf011b8aecb602e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:01 +0000
Subject: [PATCH 05/12] fix: aead one call encryption into caller supplied
 buffers did not compile

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index d92a702..6d4f270 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -935,7 +935,7 @@ namespace milo::primitive::aead
             a_digest_ptr
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
@@ -1015,7 +1015,7 @@ namespace milo::primitive::aead
             a_digest
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
-- 
2.43.0


From 350652b93162b5f475f86e938e1ef9fd418349d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 06/12] fix: cipher one call forms taking pointers did not
 compile

---
 src/milo/primitive/cipher/apie.h | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/milo/primitive/cipher/apie.h b/src/milo/primitive/cipher/apie.h
index 77a4dbd..8d7986a 100644
--- a/src/milo/primitive/cipher/apie.h
+++ b/src/milo/primitive/cipher/apie.h
@@ -57,6 +57,42 @@ namespace milo::primitive::cipher
     
     public:
         
+        /**
+         * Constructs the object.
+         *
+         * @tparam t_key
+         * Key type.
+         * @tparam t_iv
+         * Iv type.
+         * @param a_key_ptr
+         * Key pointer.
+         * @param a_key_size
+         * Key size.
+         * @param a_iv_ptr
+         * Iv pointer.
+         * @param a_iv_size
+         * Iv size.
+         */
+        template<
+            meta::byte t_key,
+            meta::byte t_iv
+        >
+        constexpr
+        apie(
+            const t_key* a_key_ptr,
+            size_t a_key_size,
+            const t_iv* a_iv_ptr,
+            size_t a_iv_size
+        ) noexcept(true)
+        {
+            initialize(
+                a_key_ptr,
+                a_key_size,
+                a_iv_ptr,
+                a_iv_size
+            );
+        }
+        
         /**
          * Constructs the object.
          *
-- 
2.43.0


From 4bbb114e5e7432b756b6e2903227882aa733abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:00 +0000
Subject: [PATCH 07/12] fix: aead tag was wrong when only additional data was
 authenticated

---
 src/milo/primitive/aead/apie.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 6d4f270..bbda155 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -149,6 +149,8 @@ namespace milo::primitive::aead
                 return;
             }
             
+            do_finalize_aad();
+            
             m_impl.finalize();
             m_finalized = true;
         }
-- 
2.43.0


From a75d35389afc1ee4c60b5b035698e1463d8ca708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:25 +0000
Subject: [PATCH 08/12] fix: aead one call decryption terminated instead of
 throwing on a wrong tag

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index bbda155..3b860c1 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -1161,7 +1161,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0
+        sizeof...(t_error) == 1
     )
     ) -> size_t
     requires
@@ -1254,7 +1254,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0 &&
+        sizeof...(t_error) == 1 &&
         meta::container_static<t_plaintext>
     )
     ) -> size_t
-- 
2.43.0


From 471beb492494f569f1de92d819c56b4895d71a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:54 +0000
Subject: [PATCH 09/12] fix: never let a configured digest size exceed what the
 algorithm produces

A digest_size option larger than the result made digest() read beyond the
final state (other members and whatever follows the object).
---
 src/milo/primitive/detail/hash/sha/sha_1_160.h | 11 +++++++----
 src/milo/primitive/detail/hash/sha/sha_2_256.h | 11 +++++++----
 src/milo/primitive/detail/hash/sha/sha_2_512.h | 11 +++++++----
 src/milo/primitive/detail/mac/hmac/hmac.h      | 11 +++++++----
 src/milo/primitive/detail/mac/poly/poly_1305.h | 11 +++++++----
 5 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/milo/primitive/detail/hash/sha/sha_1_160.h b/src/milo/primitive/detail/hash/sha/sha_1_160.h
index 5e110e6..2029069 100644
--- a/src/milo/primitive/detail/hash/sha/sha_1_160.h
+++ b/src/milo/primitive/detail/hash/sha/sha_1_160.h
@@ -57,10 +57,13 @@ namespace milo::primitive::detail
         
         static
         constexpr size_t digest_size =
-            internal::option_digest_size_suite::query_default_v<
-                bits / 8,
-                t_options...
-            >;
+            internal::min(
+                internal::option_digest_size_suite::query_default_v<
+                    bits / 8,
+                    t_options...
+                >,
+                bits / 8
+            );
     
     private:
         
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_256.h b/src/milo/primitive/detail/hash/sha/sha_2_256.h
index da23024..e275b93 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_256.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_256.h
@@ -57,10 +57,13 @@ namespace milo::primitive::detail
         
         static
         constexpr size_t digest_size =
-            internal::option_digest_size_suite::query_default_v<
-                bits / 8,
-                t_options...
-            >;
+            internal::min(
+                internal::option_digest_size_suite::query_default_v<
+                    bits / 8,
+                    t_options...
+                >,
+                bits / 8
+            );
     
     private:
         
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_512.h b/src/milo/primitive/detail/hash/sha/sha_2_512.h
index 5111b34..edceadf 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_512.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_512.h
@@ -55,10 +55,13 @@ namespace milo::primitive::detail
         
         static
         constexpr size_t digest_size =
-            internal::option_digest_size_suite::query_default_v<
-                bits / 8,
-                t_options...
-            >;
+            internal::min(
+                internal::option_digest_size_suite::query_default_v<
+                    bits / 8,
+                    t_options...
+                >,
+                bits / 8
+            );
     
     private:
         
diff --git a/src/milo/primitive/detail/mac/hmac/hmac.h b/src/milo/primitive/detail/mac/hmac/hmac.h
index e4b78ed..bab8c81 100644
--- a/src/milo/primitive/detail/mac/hmac/hmac.h
+++ b/src/milo/primitive/detail/mac/hmac/hmac.h
@@ -36,10 +36,13 @@ namespace milo::primitive::detail
         
         static
         constexpr size_t digest_size =
-            internal::option_digest_size_suite::query_default_v<
-                hash_type::digest_size,
-                t_options...
-            >;
+            internal::min(
+                internal::option_digest_size_suite::query_default_v<
+                    hash_type::digest_size,
+                    t_options...
+                >,
+                hash_type::digest_size
+            );
     
     private:
         
diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index 72214d9..8a94f25 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -50,10 +50,13 @@ namespace milo::primitive::detail
         
         static
         constexpr size_t digest_size =
-            internal::option_digest_size_suite::query_default_v<
-                16,
-                t_options...
-            >;
+            internal::min(
+                internal::option_digest_size_suite::query_default_v<
+                    16,
+                    t_options...
+                >,
+                size_t(16)
+            );
     
     private:
         
-- 
2.43.0


From e4a45995dc2b427aa6f827072054641fa97ede4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:11 +0000
Subject: [PATCH 10/12] fix: application pattern expressions ignored where a
 match begins and ends

---
 app/include/milo/app/pattern.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/app/include/milo/app/pattern.h b/app/include/milo/app/pattern.h
index fac4d9e..41e15a5 100644
--- a/app/include/milo/app/pattern.h
+++ b/app/include/milo/app/pattern.h
@@ -74,6 +74,15 @@ namespace milo::app
             auto pattern = a_pattern.data() + pattern_pos_beg;
             auto pattern_size = pattern_pos_end - pattern_pos_beg;
             
+            if (
+                pattern_pos_beg != 0 &&
+                pattern_pos_end == a_pattern.size() &&
+                pattern_size <= a_message.size() - message_pos
+            )
+            {
+                message_pos = a_message.size() - pattern_size;
+            }
+            
             pattern_pos = pattern_pos_beg;
             message_pos = a_message.find(
                 pattern,
@@ -86,6 +95,11 @@ namespace milo::app
                 return false;
             }
             
+            if (pattern_pos_beg == 0 && message_pos != 0)
+            {
+                return false;
+            }
+            
             pattern_pos += pattern_size;
             message_pos += pattern_size;
         }
-- 
2.43.0


From a93086aa8145ea4a46d48f8e1edd93ee39f0aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:11 +0000
Subject: [PATCH 11/12] fix: application took a parameter for another one it is
 a prefix of, accepted malformed numbers, and failed without arguments

---
 app/include/milo/app/app.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index 1fd466f..71d3114 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -88,7 +88,10 @@ namespace milo::app
                     }
                 );
                 
-                str.pop_back();
+                if (!str.empty())
+                {
+                    str.pop_back();
+                }
                 
                 return str;
             }
@@ -211,7 +214,9 @@ namespace milo::app
                 {
                     if (it->starts_with("--"))
                     {
-                        if (it->substr(2).starts_with(a_name))
+                        auto name = it->substr(2);
+                        
+                        if (name.substr(0, name.find('=')) == a_name)
                         {
                             break;
                         }
@@ -274,7 +279,10 @@ namespace milo::app
                             value
                         );
                         
-                        if (result.ec != decltype(result.ec)())
+                        if (
+                            result.ec != decltype(result.ec)() ||
+                            result.ptr != value_end
+                        )
                         {
                             throw std::logic_error(
                                 std::string("Error. Value conversion failure for --") +
-- 
2.43.0


From 6347c2575979ef0f688ea359fc0b497c27f3887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:11 +0000
Subject: [PATCH 12/12] fix: aead left the sizes of processed data behind in
 its storage

---
 src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
index 630103f..f7d3f55 100644
--- a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
+++ b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
@@ -59,7 +59,11 @@ namespace milo::primitive::detail
         
         constexpr aead_chacha_20_poly_1305(const aead_chacha_20_poly_1305& object) noexcept(true) = default;
         
-        constexpr ~aead_chacha_20_poly_1305() noexcept(true) = default;
+        constexpr ~aead_chacha_20_poly_1305() noexcept(true)
+        {
+            internal::memory_erase(m_aad_processed_size);
+            internal::memory_erase(m_edd_processed_size);
+        }
     
     public:
         
-- 
2.43.0

