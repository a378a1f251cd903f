From edcf8df987343b4df892d33ae3fb8caf04c7be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 01/35] fix: quadiron_fnt32_decode: do not index parity
 properties by data index

In systematic mode there are only n_parities properties, so resetting the
metadata of the n_data data blocks through them went out of bounds as soon
as n_data > n_parities.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 3400eeb..e3490bb 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -216,10 +216,10 @@ int quadiron_fnt32_decode(
         return -1;
 
     // reset metadata of data
+    quadiron::Properties null_prop;
     for (unsigned i = 0; i < fec->n_data; i++) {
-        parities_props[i].clear();
         uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
-        int ret = parities_props[i].fnt_serialize(metadata, metadata_size / 4);
+        int ret = null_prop.fnt_serialize(metadata, metadata_size / 4);
         if (ret == -1) {
             return -1;
         }
-- 
2.43.0


From 9b4a1e65887632cf5ed4713ce4641c0368dd4690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 02/35] fix: quadiron_fnt32_reconstruct: size the wanted data
 flags by n_data

Reconstructing a data block of a systematic code used the flags of the
outputs, of which there are only n_parities: out of bounds write (and read)
when n_data > n_parities.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index e3490bb..2e5a31c 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -292,13 +292,13 @@ int quadiron_fnt32_reconstruct(
          * Easy case where the target is a data then simply decode
          */
         if (destination_idx < fec->n_data) {
-            wanted_idxs_vec[destination_idx] = true;
+            wanted_data_vec[destination_idx] = true;
             res = fec->decode_blocks_vertical(
                 data_vec,
                 parities_vec,
                 parities_props,
                 missing_idxs_vec,
-                wanted_idxs_vec,
+                wanted_data_vec,
                 block_size);
             if (!res) {
                 return -1;
-- 
2.43.0


From 03913c9e8d37094072dcac61407abe657bba3a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 03/35] fix: Properties::fnt_serialize: zero the buffer up to
 its very end

The last dword was left uninitialized, and when the buffer was exactly full
the end of the range to zero was before its beginning, so the fill ran out
of the buffer.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index 2fc6a56..aa146fa 100644
--- a/src/property.h
+++ b/src/property.h
@@ -112,7 +112,7 @@ class Properties {
             dwords[i++] = htonl(narrow_cast<uint32_t>(item.first));
         }
         dwords[1] = htonl(i - 2);
-        std::fill(dwords + i, dwords + n_dwords - 1, htonl(0));
+        std::fill(dwords + i, dwords + n_dwords, htonl(0));
 
         return 0;
     }
-- 
2.43.0


From dd09be37bff9e86135e6d0ee8b3647faf3fb5ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:15 +0000
Subject: [PATCH 04/35] fix: Properties::fnt_deserialize: reject counts that
 overflow

A corrupted count close to 2^32 wrapped around and passed the bound check,
so locations were read far beyond the buffer.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index aa146fa..fe86d99 100644
--- a/src/property.h
+++ b/src/property.h
@@ -132,7 +132,7 @@ class Properties {
             return -1;
         }
         uint32_t _n_dwords = ntohl(dwords[1]);
-        if ((2 + _n_dwords) > n_dwords) {
+        if (_n_dwords > n_dwords - 2) {
             return -1;
         }
         for (unsigned i = 0; i < _n_dwords; i++) {
-- 
2.43.0


From 583f7d656e084e35f92843a189ef3ff9fe83b428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 05/35] fix: quadiron_fnt32_encode: leave the fragments that
 are not wanted alone

The interface lets callers pass NULL for the parities that are not wanted,
but the metadata of every fragment was written regardless.
---
 src/quadiron_c.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 2e5a31c..78a01a7 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -120,6 +120,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs_vec[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -129,6 +132,9 @@ int quadiron_fnt32_encode(
         }
     } else {
         for (unsigned i = 0; i < fec->n_data; i++) {
+            if (!wanted_idxs_vec[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -137,6 +143,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs_vec[fec->n_data + i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret = parities_props[fec->n_data + i].fnt_serialize(
                 metadata, metadata_size / 4);
-- 
2.43.0


From d6ce96d28533f094e085c3ca6125009ac62e5802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:47 +0000
Subject: [PATCH 06/35] fix: C API: refuse block sizes that are not a multiple
 of the word size

The bytes of the trailing partial word were silently neither encoded nor
decoded, yet success was reported.
---
 src/quadiron_c.cpp | 18 ++++++++++++++++++
 src/quadiron_c.h   |  9 ++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 78a01a7..ff53e8e 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -79,6 +79,12 @@ int quadiron_fnt32_encode(
 {
     quadiron::fec::RsFnt<uint32_t>* fec =
         reinterpret_cast<quadiron::fec::RsFnt<uint32_t>*>(fecp);
+
+    // a trailing partial word could not be recovered
+    if (block_size % fec->word_size != 0) {
+        return -1;
+    }
+
     std::vector<uint8_t*> data_vec(fec->n_data, nullptr);
     std::vector<uint8_t*> parities_vec(fec->n_outputs, nullptr);
     std::vector<quadiron::Properties> parities_props(fec->n_outputs);
@@ -167,6 +173,12 @@ int quadiron_fnt32_decode(
 {
     quadiron::fec::RsFnt<uint32_t>* fec =
         reinterpret_cast<quadiron::fec::RsFnt<uint32_t>*>(fecp);
+
+    // a trailing partial word could not be recovered
+    if (block_size % fec->word_size != 0) {
+        return -1;
+    }
+
     std::vector<uint8_t*> data_vec(fec->n_data, nullptr);
     std::vector<uint8_t*> parities_vec(fec->n_outputs, nullptr);
     std::vector<quadiron::Properties> parities_props(fec->n_outputs);
@@ -247,6 +259,12 @@ int quadiron_fnt32_reconstruct(
 {
     quadiron::fec::RsFnt<uint32_t>* fec =
         reinterpret_cast<quadiron::fec::RsFnt<uint32_t>*>(fecp);
+
+    // a trailing partial word could not be recovered
+    if (block_size % fec->word_size != 0) {
+        return -1;
+    }
+
     std::vector<uint8_t*> data_vec(fec->n_data);
     std::vector<uint8_t*> parities_vec(fec->n_outputs);
     std::vector<quadiron::Properties> parities_props(fec->n_outputs);
diff --git a/src/quadiron_c.h b/src/quadiron_c.h
index bf6e231..5628087 100644
--- a/src/quadiron_c.h
+++ b/src/quadiron_c.h
@@ -81,7 +81,8 @@ int quadiron_fnt32_get_metadata_size(
  * non-systematic
  * @param[in] wanted_idxs array of length n_outputs indicating
  * the wish (value 1) or not (value 0) of parities
- * @param[in] block_size the block size in bytes
+ * @param[in] block_size the block size in bytes, must be a multiple of the
+ * word size
  *
  * @return 0 if encode succeeded, else -1
  */
@@ -110,7 +111,8 @@ int quadiron_fnt32_encode(
  * @param[in] missing_idxs array of length code_len indicating
  * presence (value 1) or absence (value 0) of fragments (data and parities)
  * - code_len is n_data + n_parities
- * @param[in] block_size the block size in bytes
+ * @param[in] block_size the block size in bytes, must be a multiple of the
+ * word size
  *
  * @return 0 if decode succeeded, else -1
  */
@@ -136,7 +138,8 @@ int quadiron_fnt32_decode(
  * @param[in] missing_idxs array of missing_idxs of len code_len indicating
  * presence (value 1) or absence (value 0) of fragments (data and parities)
  * @param[in] destination_idx index of fragment to reconstruct (data or parity)
- * @param[in] block_size the block size in bytes
+ * @param[in] block_size the block size in bytes, must be a multiple of the
+ * word size
  *
  * @return 0 if reconstruct succeeded, else -1
  */
-- 
2.43.0


From 412145ea1e8386dd7ba24a39daf13e4bae962cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 07/35] fix: only use the SIMD kernels for the prime they
 implement

The vectorized 16-bit and 32-bit kernels hard-code the arithmetic of GF(257)
and GF(65537) respectively, but were used whatever the field. With SSE or
AVX, FNT codes with 32-bit storage and 1-byte words (word_size 1 of the C
API) could therefore not restore the data; likewise buffer operations over
any other ring.
---
 src/fft_2n.h    |  4 ++-
 src/gf_ring.cpp | 67 +++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 70 insertions(+), 1 deletion(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 559df84..8c4d174 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -201,8 +201,10 @@ Radix2<T>::Radix2(const gf::Field<T>& gf, int n, int data_len, size_t pkt_size)
     init_bitrev();
 
     // Indices used for accelerated functions
+    // (whose arithmetic only supports the Fermat prime of half of the word)
     const unsigned ratio = simd::countof<T>();
-    simd_vec_len = this->pkt_size / ratio;
+    const bool is_simd_card = card_minus_one == T(1) << (4 * sizeof(T));
+    simd_vec_len = is_simd_card ? this->pkt_size / ratio : 0;
     simd_trailing_len = this->pkt_size - simd_vec_len * ratio;
     simd_offset = simd_vec_len * ratio;
 }
diff --git a/src/gf_ring.cpp b/src/gf_ring.cpp
index da1ed53..1e3366b 100644
--- a/src/gf_ring.cpp
+++ b/src/gf_ring.cpp
@@ -37,15 +37,34 @@
 namespace quadiron {
 namespace gf {
 
+// The vectorized operations only support the Fermat prime of half of the word.
+template <typename T>
+static inline bool is_simd_card(T card)
+{
+    return card == (T(1) << (4 * sizeof(T))) + 1;
+}
+
 template <>
 void RingModN<uint16_t>::neg(size_t n, uint16_t* x) const
 {
+    if (!is_simd_card(this->_card)) {
+        for (size_t i = 0; i < n; ++i) {
+            x[i] = sub(0, x[i]);
+        }
+        return;
+    }
     simd::neg(n, x, this->_card);
 }
 
 template <>
 void RingModN<uint32_t>::neg(size_t n, uint32_t* x) const
 {
+    if (!is_simd_card(this->_card)) {
+        for (size_t i = 0; i < n; ++i) {
+            x[i] = sub(0, x[i]);
+        }
+        return;
+    }
     simd::neg(n, x, this->_card);
 }
 
@@ -56,6 +75,12 @@ void RingModN<uint32_t>::mul_coef_to_buf(
     uint32_t* dest,
     size_t len) const
 {
+    if (!is_simd_card(this->_card)) {
+        for (size_t i = 0; i < len; ++i) {
+            dest[i] = mul(a, src[i]);
+        }
+        return;
+    }
     simd::mul_coef_to_buf(a, src, dest, len, this->_card);
 }
 
@@ -63,6 +88,12 @@ template <>
 void RingModN<uint32_t>::add_two_bufs(uint32_t* src, uint32_t* dest, size_t len)
     const
 {
+    if (!is_simd_card(this->_card)) {
+        for (size_t i = 0; i < len; ++i) {
+            dest[i] = add(src[i], dest[i]);
+        }
+        return;
+    }
     simd::add_two_bufs(src, dest, len, this->_card);
 }
 
@@ -73,6 +104,12 @@ void RingModN<uint32_t>::sub_two_bufs(
     uint32_t* res,
     size_t len) const
 {
+    if (!is_simd_card(this->_card)) {
+        for (size_t i = 0; i < len; ++i) {
+            res[i] = sub(bufa[i], bufb[i]);
+        }
+        return;
+    }
     simd::sub_two_bufs(bufa, bufb, res, len, this->_card);
 }
 
@@ -83,6 +120,12 @@ void RingModN<uint16_t>::mul_coef_to_buf(
     uint16_t* dest,
     size_t len) const
 {
+    if (!is_simd_card(this->_card)) {
+        for (size_t i = 0; i < len; ++i) {
+            dest[i] = mul(a, src[i]);
+        }
+        return;
+    }
     simd::mul_coef_to_buf(a, src, dest, len, this->_card);
 }
 
@@ -90,6 +133,12 @@ template <>
 void RingModN<uint16_t>::add_two_bufs(uint16_t* src, uint16_t* dest, size_t len)
     const
 {
+    if (!is_simd_card(this->_card)) {
+        for (size_t i = 0; i < len; ++i) {
+            dest[i] = add(src[i], dest[i]);
+        }
+        return;
+    }
     simd::add_two_bufs(src, dest, len, this->_card);
 }
 
@@ -100,6 +149,12 @@ void RingModN<uint16_t>::sub_two_bufs(
     uint16_t* res,
     size_t len) const
 {
+    if (!is_simd_card(this->_card)) {
+        for (size_t i = 0; i < len; ++i) {
+            res[i] = sub(bufa[i], bufb[i]);
+        }
+        return;
+    }
     simd::sub_two_bufs(bufa, bufb, res, len, this->_card);
 }
 
@@ -107,6 +162,12 @@ template <>
 void RingModN<uint16_t>::hadamard_mul(int n, uint16_t* x_u16, uint16_t* y_u16)
     const
 {
+    if (!is_simd_card(this->_card)) {
+        for (int i = 0; i < n; ++i) {
+            x_u16[i] = mul(x_u16[i], y_u16[i]);
+        }
+        return;
+    }
     simd::mul_two_bufs(y_u16, x_u16, n, this->_card);
 }
 
@@ -114,6 +175,12 @@ template <>
 void RingModN<uint32_t>::hadamard_mul(int n, uint32_t* x_u32, uint32_t* y_u32)
     const
 {
+    if (!is_simd_card(this->_card)) {
+        for (int i = 0; i < n; ++i) {
+            x_u32[i] = mul(x_u32[i], y_u32[i]);
+        }
+        return;
+    }
     simd::mul_two_bufs(y_u32, x_u32, n, this->_card);
 }
 
-- 
2.43.0


From de8fde061fb2f3302954842f0713dca60bdf2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 08/35] fix: DecodeContext: room for the degree-k term of A(x)
 when k equals the code length

---
 src/fec_context.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fec_context.h b/src/fec_context.h
index 0e15326..96ed7f4 100644
--- a/src/fec_context.h
+++ b/src/fec_context.h
@@ -43,6 +43,7 @@
 #include "gf_nf4.h"
 #include "property.h"
 #include "vec_poly.h"
+#include "vec_slice.h"
 #include "vec_zero_ext.h"
 
 namespace quadiron {
@@ -96,7 +97,8 @@ class DecodeContext {
             props.sort();
         }
 
-        A = std::make_unique<vec::Poly<T>>(gf, n);
+        // A(x) has degree `k`, that may be as large as `n`
+        A = std::make_unique<vec::Poly<T>>(gf, n + 1);
         A_fft_2k = std::make_unique<vec::Vector<T>>(gf, len_2k);
         inv_A_i = std::make_unique<vec::Vector<T>>(gf, k);
         S = std::make_unique<vec::Poly<T>>(gf, k);
@@ -252,7 +254,8 @@ class DecodeContext {
 
         // compute A_i(x_i)
         vec::Vector<T> _A_fft(*gf, n);
-        this->fft->fft(_A_fft, _A);
+        vec::Slice<T> _A_n(&_A, n);
+        this->fft->fft(_A_fft, _A_n);
 
         // compute 1/(x_i * A_i(x_i))
         // we care only about elements corresponding to fragments_ids
-- 
2.43.0


From 5e8123a2073054d7c081b06708a8cd91a56ab89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 09/35] fix: quadiron_fnt32_new: return NULL for parameters the
 code does not support

---
 src/quadiron_c.cpp | 9 +++++++++
 src/quadiron_c.h   | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index ff53e8e..3e06062 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -40,6 +40,15 @@ quadiron_fnt32_new(int word_size, int n_data, int n_parities, int systematic)
     const size_t pkt_size = 1024;
 
     if (word_size == 1 || word_size == 2) {
+        // number of fragments that the field of this word size supports
+        const int64_t max_len = 1LL << (8 * word_size);
+        const int64_t code_len = static_cast<int64_t>(n_data) + n_parities;
+
+        if (n_data < 1 || n_parities < 0 || code_len < 2 || code_len > max_len
+            || 2LL * n_data > max_len) {
+            return nullptr;
+        }
+
         return reinterpret_cast<struct QuadironFnt32*>(
             new quadiron::fec::RsFnt<uint32_t>(
                 systematic ? quadiron::fec::FecType::SYSTEMATIC
diff --git a/src/quadiron_c.h b/src/quadiron_c.h
index 5628087..843dbb9 100644
--- a/src/quadiron_c.h
+++ b/src/quadiron_c.h
@@ -44,7 +44,9 @@ extern "C" {
  * @param[in] systematic if 1 then the code is systematic otherwise
  * non-systematic
  *
- * @return the FEC instance pointer
+ * @return the FEC instance pointer, or NULL if the parameters are not supported:
+ * there must be at least 1 data fragment and 2 fragments in total, at most
+ * 2^(8 * word_size) fragments in total and at most half as many data fragments
  */
 struct QuadironFnt32*
 quadiron_fnt32_new(int word_size, int n_data, int n_parities, int systematic);
-- 
2.43.0


From dfc6d648a88e6de1e43581a9779562ffe056323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 10/35] fix: Radix2::fft_inv: do not multiply buffers that are
 not set yet

---
 src/fft_2n.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 8c4d174..9cb71e9 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -540,9 +540,11 @@ void Radix2<T>::fft_inv(vec::Buffers<T>& output, vec::Buffers<T>& input)
         }
 
         // For Q are zeros only => Q = c * P
+        // Note: among each `m` elements, only the first `input_len_power_2`
+        // ones are already set
         for (; m >= input_len; m /= 2) {
             unsigned doubled_m = 2 * m;
-            for (unsigned j = 0; j < m; ++j) {
+            for (unsigned j = 0; j < input_len_power_2; ++j) {
                 const T r = inv_W->get(j * len / doubled_m);
                 butterfly_gs_step_simple(output, r, j, m, doubled_m);
             }
-- 
2.43.0


From 3aaed18880d6b38d3bbbebf4e6396faf8532c0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 11/35] fix: quadiron_fnt32_reconstruct: refuse a destination
 that is not a fragment

---
 src/quadiron_c.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 3e06062..4fb9e56 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -274,6 +274,11 @@ int quadiron_fnt32_reconstruct(
         return -1;
     }
 
+    // there is no such fragment
+    if (destination_idx >= fec->code_len) {
+        return -1;
+    }
+
     std::vector<uint8_t*> data_vec(fec->n_data);
     std::vector<uint8_t*> parities_vec(fec->n_outputs);
     std::vector<quadiron::Properties> parities_props(fec->n_outputs);
-- 
2.43.0


From d68be628cbc1c255ff7514be2be5ac988bfddc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 12/35] fix: Matrix::cauchy: divide by the first element before
 replacing it

The scaling loops replaced the divisor by 1 before dividing the other
elements by it, which left a matrix with singular submatrices: some sets
of n_data fragments could not be decoded.
---
 src/vec_matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vec_matrix.h b/src/vec_matrix.h
index f3a7e5c..09ef129 100644
--- a/src/vec_matrix.h
+++ b/src/vec_matrix.h
@@ -415,15 +415,15 @@ void Matrix<T>::cauchy()
     }
 
     /* do optimise */
-    // convert 1st row to all 1s
+    // convert 1st row to all 1s (the divisor itself is replaced last)
     for (j = 0; j < n_cols; j++) {
-        for (i = 0; i < n_rows; i++) {
+        for (i = n_rows - 1; i >= 0; i--) {
             set(i, j, rn->div(get(i, j), get(0, j)));
         }
     }
-    // convert 1st element of each row to 1
+    // convert 1st element of each row to 1 (the divisor is replaced last)
     for (i = 1; i < n_rows; i++) {
-        for (j = 0; j < n_cols; j++) {
+        for (j = n_cols - 1; j >= 0; j--) {
             set(i, j, rn->div(get(i, j), get(i, 0)));
         }
     }
-- 
2.43.0


From bf3fe1c081d316d570469cb09df38733fab41528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 13/35] fix: Properties text reader: report malformed lines

A line without '=' was read as a mark of its own number, trailing garbage
was ignored, negative locations wrapped around and markers that do not fit
were truncated.
---
 src/property.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/property.cpp b/src/property.cpp
index f11428e..6661f0b 100644
--- a/src/property.cpp
+++ b/src/property.cpp
@@ -27,13 +27,31 @@
  * ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
  * POSSIBILITY OF SUCH DAMAGE.
  */
+#include <cctype>
 #include <iostream>
+#include <limits>
 #include <sstream>
+#include <stdexcept>
 
 #include "property.h"
 
 namespace quadiron {
 
+/// Convert a text that must be a decimal number and nothing else.
+static unsigned long to_number(const std::string& text)
+{
+    size_t end = 0;
+
+    if (text.empty() || !std::isdigit(static_cast<unsigned char>(text[0]))) {
+        throw std::invalid_argument("properties: not a number: " + text);
+    }
+    const unsigned long number = std::stoul(text, &end);
+    if (end != text.size()) {
+        throw std::invalid_argument("properties: not a number: " + text);
+    }
+    return number;
+}
+
 std::istream& operator>>(std::istream& is, Properties& props)
 {
     std::string line;
@@ -50,6 +68,9 @@ std::istream& operator>>(std::istream& is, Properties& props)
         }
         // Extract the key.
         auto end = line.find('=', begin);
+        if (end == std::string::npos) {
+            throw std::invalid_argument("properties: no value: " + line);
+        }
         std::string key = line.substr(begin, end - begin);
         // No leading or trailing whitespace allowed.
         key.erase(key.find_last_not_of(" \f\t\v") + 1);
@@ -59,9 +80,17 @@ std::istream& operator>>(std::istream& is, Properties& props)
         }
         // Extract the data (no leading or trailing whitespace allowed).
         begin = line.find_first_not_of(" \f\n\r\t\v", end + 1);
+        if (begin == std::string::npos) {
+            throw std::invalid_argument("properties: no value: " + line);
+        }
         end = line.find_last_not_of(" \f\n\r\t\v") + 1;
 
-        props.add(std::stoul(key), std::stoul(line.substr(begin, end - begin)));
+        const size_t location = to_number(key);
+        const unsigned long marker = to_number(line.substr(begin, end - begin));
+        if (marker > std::numeric_limits<uint32_t>::max()) {
+            throw std::out_of_range("properties: marker too large: " + line);
+        }
+        props.add(location, static_cast<uint32_t>(marker));
     }
 
     return is;
-- 
2.43.0


From c26e21c59fc980008486da3843fb00a72db57a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:32 +0000
Subject: [PATCH 14/35] fix: arith::is_prime: 0 and 1 are not prime

---
 src/arith.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index fab8c64..81cc2f0 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -470,6 +470,8 @@ bool solovay_strassen(T n, T (*rand_func)(T n))
 template <typename T>
 bool is_prime(T n)
 {
+    if (n < 2)
+        return false;
     if (n == 2)
         return true;
 
-- 
2.43.0


From 463c20e9e3586b9bc2137a80b4da254fec42c990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:32 +0000
Subject: [PATCH 15/35] fix: arith::get_all_divisors: list the square root only
 once

---
 src/arith.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/arith.h b/src/arith.h
index 81cc2f0..8001068 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -627,7 +627,10 @@ std::vector<T> get_all_divisors(T n)
         // While `i` divides `nb`, get `i` and divide `nb/i`.
         if (n % i == 0) {
             divisors.push_back(i);
-            n_div_i.push_back(n / i);
+            // The square root is its own complement: list it only once.
+            if (i != n / i) {
+                n_div_i.push_back(n / i);
+            }
         }
     }
     divisors.insert(divisors.end(), n_div_i.rbegin(), n_div_i.rend());
-- 
2.43.0


From 80c5e9c7130c0ffcb4a9ae6f7c5d416208bc2e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:32 +0000
Subject: [PATCH 16/35] fix: arith::get_code_len: return the smallest divisor
 that is long enough

---
 src/arith.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index 8001068..345b00a 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -670,6 +670,13 @@ T get_code_len(T order, T n)
             return i;
         }
     }
+    // no divisor between `n` and the square root: the smallest one above it is
+    // the complement of the biggest one below it.
+    for (i = nb_sqrt; i > 1; i--) {
+        if (order % i == 0) {
+            return order / i;
+        }
+    }
     // order is prime
     return order;
 }
-- 
2.43.0


From 132b2d08e9d110517887da0cbbe49c744187bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:32 +0000
Subject: [PATCH 17/35] fix: arith::get_code_len_high_compo: a length of at
 most 1 is served by 1

---
 src/arith.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index 345b00a..e4b5665 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -706,6 +706,10 @@ T get_code_len_high_compo(const std::vector<T>& factors, T n)
 {
     T x = 1;
     typename std::vector<T>::size_type i, j;
+    // 1 divides everything
+    if (n <= x) {
+        return x;
+    }
     // forward to get a divisor of (q-1) >= n and of highly composited
     for (i = 0; i != factors.size(); ++i) {
         x *= factors[i];
-- 
2.43.0


From 0ee23042839e340eb2ef71feb810d08dbf796eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:32 +0000
Subject: [PATCH 18/35] fix: RingModN::add: reduce the sum that does not fit in
 the type

---
 src/gf_ring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 935edce..9b26953 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -217,7 +217,8 @@ inline T RingModN<T>::add(T a, T b) const
     assert(check(b));
 
     T c = a + b;
-    if (c >= this->_card)
+    // `c < a`: the sum does not fit in T
+    if (c >= this->_card || c < a)
         c -= this->_card;
     return c;
 }
-- 
2.43.0


From 7388d3cd6a81417438c80b43fb55fcf172b5c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 19/35] fix: RingModN::is_primitive_root: neither 0 nor 1
 generates the group

---
 src/gf_ring.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 9b26953..0c029f6 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -605,6 +605,11 @@ bool RingModN<T>::is_primitive_root(T nb) const
     bool ok = true;
     typename std::vector<T>::size_type i;
     T h = this->card_minus_one();
+    // 1 only generates the trivial group (`proper_divisors` is empty when `h` is
+    // prime) and 0 is not in the group.
+    if (nb == 0 || (nb == 1 && h != 1)) {
+        return false;
+    }
     // Check nb^divisor == 1.
     for (i = 0; i != this->proper_divisors.size(); ++i) {
         if (this->exp(nb, this->proper_divisors[i]) == 1) {
-- 
2.43.0


From d73f318ffb10733108af1b2890bccb390d72c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 20/35] fix: RingModN::check_order_naive: check every power
 below the order

---
 src/gf_ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 0c029f6..18975b8 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -766,7 +766,7 @@ bool RingModN<T>::check_order_naive(T nb, T order) const
 
     T i = 1;
     T tmp = nb;
-    while (i < order - 1) {
+    while (i < order) {
         // std::cout << i << ":" << tmp << std::endl;
         if (tmp == 1)
             return false;
-- 
2.43.0


From e6f2385871c6c7ed3c730f12df1958e85e052989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 21/35] fix: RingModN::mul_coef_to_buf: SIMD kernels cannot
 multiply by card - 1

---
 src/gf_ring.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gf_ring.cpp b/src/gf_ring.cpp
index 1e3366b..a8d0196 100644
--- a/src/gf_ring.cpp
+++ b/src/gf_ring.cpp
@@ -75,7 +75,8 @@ void RingModN<uint32_t>::mul_coef_to_buf(
     uint32_t* dest,
     size_t len) const
 {
-    if (!is_simd_card(this->_card)) {
+    // The product of two `card - 1` does not fit in a lane.
+    if (!is_simd_card(this->_card) || a == this->_card - 1) {
         for (size_t i = 0; i < len; ++i) {
             dest[i] = mul(a, src[i]);
         }
@@ -120,7 +121,8 @@ void RingModN<uint16_t>::mul_coef_to_buf(
     uint16_t* dest,
     size_t len) const
 {
-    if (!is_simd_card(this->_card)) {
+    // The product of two `card - 1` does not fit in a lane.
+    if (!is_simd_card(this->_card) || a == this->_card - 1) {
         for (size_t i = 0; i < len; ++i) {
             dest[i] = mul(a, src[i]);
         }
-- 
2.43.0


From df17d8adc0aeefa7fac048c858d83c3c27856532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 22/35] fix: BinExtension: the moved-from field does not keep
 the tables

---
 src/gf_bin_ext.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/gf_bin_ext.h b/src/gf_bin_ext.h
index faf0f2a..5bb6991 100644
--- a/src/gf_bin_ext.h
+++ b/src/gf_bin_ext.h
@@ -57,7 +57,7 @@ class BinExtension : public gf::Field<T> {
     T log(T a, T b) const override;
     void hadamard_mul(int n, T* x, T* y) const override;
 
-    BinExtension(BinExtension&&) = default;
+    BinExtension(BinExtension&& other) noexcept;
 
   private:
     T n;
@@ -172,6 +172,22 @@ BinExtension<T>::BinExtension(T n) : gf::Field<T>(2, n)
     }
 }
 
+// The tables belong to the new object: the moved-from one must not free them.
+template <typename T>
+BinExtension<T>::BinExtension(BinExtension&& other) noexcept
+    : gf::Field<T>(std::move(other)), n(other.n), my_card(other.my_card),
+      sgroup_nb(other.sgroup_nb), primitive_poly(other.primitive_poly),
+      first_bit(other.first_bit), tab_nb(other.tab_nb), gflog(other.gflog),
+      gfilog(other.gfilog), gfsplit(other.gfsplit), mask(other.mask),
+      restricted(other.restricted), mul_type(other.mul_type),
+      div_type(other.div_type), inv_type(other.inv_type)
+{
+    other.gflog = nullptr;
+    other.gfilog = nullptr;
+    other.gfsplit = nullptr;
+    other.mask = nullptr;
+}
+
 template <typename T>
 BinExtension<T>::~BinExtension()
 {
-- 
2.43.0


From 8420357caed4ee2a345eca05d71db89d3e7e889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:33 +0000
Subject: [PATCH 23/35] fix: NF4: move the scratch areas along

---
 src/gf_nf4.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gf_nf4.h b/src/gf_nf4.h
index ab6025c..fb65de9 100644
--- a/src/gf_nf4.h
+++ b/src/gf_nf4.h
@@ -56,7 +56,9 @@ class NF4 : public gf::Field<T> {
     NF4(NF4&& other)
     noexcept
         : Field<T>(std::move(other)), unit(other.unit), q(other.q), h(other.h),
-          sub_field(std::move(other.sub_field))
+          sub_field(std::move(other.sub_field)),
+          scratch16(std::move(other.scratch16)),
+          scratch32(std::move(other.scratch32))
     {
     }
 
-- 
2.43.0


From 27072bf4c9ed375344bdbd6b1cbb5273d6158ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 24/35] fix: RingModN::mul_vec_to_vecp: shortcuts only for the
 one and minus one of the field

---
 src/gf_ring.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 18975b8..4b3abb6 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -382,21 +382,22 @@ inline void RingModN<T>::mul_vec_to_vecp(
     int i;
     int n = u.get_n();
     size_t len = src.get_size();
-    T h = this->card_minus_one();
+    const T one = this->replicate(1);
+    const T minus_one = this->neg(one);
     const std::vector<T*>& src_mem = src.get_mem();
     const std::vector<T*>& dest_mem = dest.get_mem();
     T* coef_vec = u.get_mem();
     for (i = 0; i < n; i++) {
         T coef = coef_vec[i];
-        if (coef > 1 && coef < h) {
-            this->mul_coef_to_buf(coef, src_mem[i], dest_mem[i], len);
-        } else if (coef == 1) {
-            dest.copy(i, src_mem[i]);
-        } else if (coef == 0) {
+        if (coef == 0) {
             dest.fill(i, 0);
-        } else if (coef == h) {
+        } else if (coef == one) {
+            dest.copy(i, src_mem[i]);
+        } else if (coef == minus_one) {
             dest.copy(i, src_mem[i]);
             this->neg(len, dest_mem[i]);
+        } else {
+            this->mul_coef_to_buf(coef, src_mem[i], dest_mem[i], len);
         }
     }
 }
-- 
2.43.0


From a304b26864405b82ceac1d24482ba154d84b415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 25/35] fix: RsGfpFft: pass the length, not a factor index, to
 CooleyTukey

---
 src/fec_rs_gfp_fft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fec_rs_gfp_fft.h b/src/fec_rs_gfp_fft.h
index 42b11c3..d0e2b60 100644
--- a/src/fec_rs_gfp_fft.h
+++ b/src/fec_rs_gfp_fft.h
@@ -135,7 +135,7 @@ class RsGfpFft : public FecCode<T> {
                 new fft::Radix2<T>(*(this->gf), len_2k, len_2k));
         } else {
             this->fft_2k = std::unique_ptr<fft::CooleyTukey<T>>(
-                new fft::CooleyTukey<T>(*(this->gf), len_2k, len_2k));
+                new fft::CooleyTukey<T>(*(this->gf), len_2k));
         }
     }
 
-- 
2.43.0


From a9b6cfc6117e09e13e2e1067b1412d075df1f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 26/35] fix: Radix2: support input lengths that are not powers
 of 2

---
 src/fft_2n.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 9cb71e9..64995f4 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -184,7 +184,10 @@ Radix2<T>::Radix2(const gf::Field<T>& gf, int n, int data_len, size_t pkt_size)
     w = gf.get_nth_root(n);
     inv_w = gf.inv(w);
     this->pkt_size = pkt_size;
-    this->data_len = data_len > 0 ? data_len : n;
+    // the groups that share an input element are only equal-sized when their
+    // number is a power of 2
+    this->data_len =
+        data_len > 0 ? arith::ceil2<unsigned>(data_len) : static_cast<unsigned>(n);
     buf_size = pkt_size * sizeof(T);
 
     W = std::unique_ptr<vec::Vector<T>>(new vec::Vector<T>(gf, n));
@@ -273,8 +276,9 @@ void Radix2<T>::fft(vec::Vector<T>& output, vec::Vector<T>& input)
     const unsigned len = this->n;
     const unsigned input_len = input.get_n();
     // to support FFT on input vectors of length greater than from `data_len`
-    const unsigned group_len =
-        (input_len > data_len) ? len / input_len : len / data_len;
+    const unsigned full_len =
+        (input_len > data_len) ? arith::ceil2<unsigned>(input_len) : data_len;
+    const unsigned group_len = len / full_len;
 
     for (unsigned idx = 0; idx < input_len; ++idx) {
         // set output  = scramble(input), i.e. bit reversal ordering
@@ -284,7 +288,7 @@ void Radix2<T>::fft(vec::Vector<T>& output, vec::Vector<T>& input)
             output.set(i, a);
         }
     }
-    for (unsigned idx = input_len; idx < data_len; ++idx) {
+    for (unsigned idx = input_len; idx < full_len; ++idx) {
         // set output  = scramble(input), i.e. bit reversal ordering
         const unsigned end = rev[idx] + group_len;
         for (unsigned i = rev[idx]; i < end; ++i) {
@@ -369,8 +373,9 @@ void Radix2<T>::fft(vec::Buffers<T>& output, vec::Buffers<T>& input)
     assert(data_len > 0);
 
     // to support FFT on input vectors of length greater than from `data_len`
-    const unsigned group_len =
-        (input_len > data_len) ? len / input_len : len / data_len;
+    const unsigned full_len =
+        (input_len > data_len) ? arith::ceil2<unsigned>(input_len) : data_len;
+    const unsigned group_len = len / full_len;
 
     const std::vector<T*>& i_mem = input.get_mem();
     const std::vector<T*>& o_mem = output.get_mem();
@@ -381,7 +386,7 @@ void Radix2<T>::fft(vec::Buffers<T>& output, vec::Buffers<T>& input)
             memcpy(o_mem[i], i_mem[idx], buf_size);
         }
     }
-    for (unsigned idx = input_len; idx < data_len; ++idx) {
+    for (unsigned idx = input_len; idx < full_len; ++idx) {
         // set output  = scramble(input), i.e. bit reversal ordering
         for (unsigned i = rev[idx]; i < rev[idx] + group_len; ++i) {
             memset(o_mem[i], 0, buf_size);
@@ -649,8 +654,9 @@ OpCounter Radix2<T>::fft_op_counter(size_t input_len)
     assert(data_len > 0);
 
     const size_t len = this->n;
-    const size_t group_len =
-        (input_len > data_len) ? len / input_len : len / data_len;
+    const size_t full_len =
+        (input_len > data_len) ? arith::ceil2<unsigned>(input_len) : data_len;
+    const size_t group_len = len / full_len;
     const T card_minus_one = this->gf->card_minus_one();
 
     OpCounter counter;
-- 
2.43.0


From 5494e265da19ab5d0473c84954e26442fd79b2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:56 +0000
Subject: [PATCH 27/35] fix: Naive::ifft(Buffers): no scaling by zero over
 binary fields

---
 src/fft_naive.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fft_naive.h b/src/fft_naive.h
index cf312f2..cff547c 100644
--- a/src/fft_naive.h
+++ b/src/fft_naive.h
@@ -190,7 +190,8 @@ void Naive<T>::ifft(vec::Buffers<T>& output, vec::Buffers<T>& input)
     fft_inv(output, input);
 
     // We need to divide output to `N` for the inverse formular
-    this->gf->mul_vec_to_vecp(*(this->vec_inv_n), output, output);
+    if (this->inv_n_mod_p > 1)
+        this->gf->mul_vec_to_vecp(*(this->vec_inv_n), output, output);
 }
 
 } // namespace fft
-- 
2.43.0


From c0eacc5591d2e43f49e6c36db5458ab747362ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 28/35] fix: Buffers: the copy knows the length of its memory

---
 src/vec_buffers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index d31c69d..c7f9c88 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -189,11 +189,11 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int n)
 
     this->size = vec.get_size();
     this->n = (n == 0) ? vec_n : n;
-    this->mem_len = n * size;
+    this->mem_len = this->n * size;
 
     this->mem_alloc_case = BufMemAlloc::FULL;
 
-    mem.reserve(n);
+    mem.reserve(this->n);
     for (i = 0; i < this->n; i++) {
         mem.push_back(this->allocator.allocate(size));
     }
-- 
2.43.0


From c413a9ae8ac4b4b7e5bbc7af34e744e09bcf3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 29/35] fix: Buffers: shuffled lists have all their buffers

---
 src/vec_buffers.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index c7f9c88..930281a 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -308,19 +308,15 @@ Buffers<T>::Buffers(
 
     const std::vector<T*> vec_mem = vec.get_mem();
     // output is sliced & shuffled from `vec`
-    mem.reserve(this->n);
-    if (vec_n >= n) {
+    if (vec_n >= n && map_len == n) {
         this->mem_alloc_case = BufMemAlloc::SLICE;
     } else { // output is zero-extended & shuffled from `vec`
         this->mem_alloc_case = BufMemAlloc::ZERO_EXTEND;
 
         this->zeros = this->allocator.allocate(size);
         std::memset(this->zeros, 0, this->size * sizeof(T));
-
-        for (unsigned i = 0; i < n; ++i) {
-            mem.push_back(zeros);
-        }
     }
+    mem.assign(n, zeros);
     for (unsigned i = 0; i < map_len; ++i) {
         mem[map.get(i)] = vec_mem[i];
     }
-- 
2.43.0


From c6a64a7bc19a7191ef7283141101da80b8c6aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:48 +0000
Subject: [PATCH 30/35] fix: Buffers::set: release only the memory that is
 owned

---
 src/vec_buffers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index 930281a..ae0053d 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -372,7 +372,8 @@ inline void Buffers<T>::set(int i, T* buf)
 {
     assert(i >= 0 && i < n);
 
-    if ((mem_alloc_case == BufMemAlloc::NONE) && (mem[i] != nullptr))
+    // only the memory that is owned is released
+    if (mem_alloc_case == BufMemAlloc::FULL && mem[i] != buf)
         this->allocator.deallocate(mem[i], size);
 
     mem[i] = buf;
-- 
2.43.0


From f20fb7a65a61dc88a4013e0fbc57496fbfadee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 31/35] fix: Slice: the memory beyond the slice is not part of
 it

---
 src/vec_slice.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec_slice.h b/src/vec_slice.h
index 7aefda8..c9d591b 100644
--- a/src/vec_slice.h
+++ b/src/vec_slice.h
@@ -83,6 +83,8 @@ Slice<T>::Slice(Vector<T>* vec, int n, int offset)
             ? n
             : (this->base_len > this->offset ? this->base_len - this->offset
                                              : 0);
+    // the memory beyond the slice is not part of it
+    this->set_mem(this->mem_offset, this->n);
 }
 
 template <typename T>
-- 
2.43.0


From a63b44ff2853eb34d7fce3a7c200224dc96e4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 32/35] fix: Vector::hadamard_mul: no vectorized operation on
 unaligned memory

---
 src/vec_vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vec_vector.h b/src/vec_vector.h
index a0ddc0e..75cb79a 100644
--- a/src/vec_vector.h
+++ b/src/vec_vector.h
@@ -310,6 +310,12 @@ void Vector<T>::hadamard_mul(Vector<T>* v)
     assert(n == v->get_n());
     T* dest = mem;
     T* src = v->get_mem();
+    // vectorized operations require aligned operands
+    if (!simd::addr_is_aligned(dest) || !simd::addr_is_aligned(src)) {
+        for (int i = 0; i < n; i++)
+            dest[i] = rn->mul(dest[i], src[i]);
+        return;
+    }
     rn->hadamard_mul(n, dest, src);
 }
 
-- 
2.43.0


From b2a22a4982ee67b484fae5a3700d66782fd0942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:46 +0000
Subject: [PATCH 33/35] fix: Poly: exact degree, also for the zero polynomial

---
 src/vec_poly.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index b6234e8..dbdad0d 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -67,6 +67,13 @@ class Poly : public Vector<T> {
     T field_characteristic;
     T* buf;
     int degree;
+
+    /// Lower the degree to the highest non-zero coefficient
+    void trim_deg()
+    {
+        while (degree >= 0 && buf[degree] == 0)
+            degree--;
+    }
 };
 
 template <typename T>
@@ -119,6 +126,8 @@ void Poly<T>::set(int exponent, T coef)
     buf[exponent] = coef;
     if (exponent > degree && coef > 0)
         degree = exponent;
+    else if (exponent == degree && coef == 0)
+        trim_deg();
 }
 
 /** Compute the derivative of a polynomial
@@ -143,8 +152,9 @@ void Poly<T>::derivative()
     for (int deg = 1; deg <= degree; ++deg) {
         buf[deg - 1] = field->mul(deg % field_characteristic, buf[deg]);
     }
-    buf[degree] = 0;
-    degree--;
+    if (degree >= 0)
+        buf[degree] = 0;
+    trim_deg();
 }
 
 /** Derivative particularly for NF4 */
@@ -155,14 +165,17 @@ void Poly<T>::derivative_nf4()
         const T _deg = field->replicate(deg % field_characteristic);
         buf[deg - 1] = field->mul(_deg, buf[deg]);
     }
-    buf[degree] = 0;
-    degree--;
+    if (degree >= 0)
+        buf[degree] = 0;
+    trim_deg();
 }
 
 template <typename T>
 T Poly<T>::eval(T x)
 {
     int i = degree;
+    if (i < 0)
+        return 0;
     T result = buf[i];
 
     while (i >= 1) {
@@ -192,6 +205,8 @@ void Poly<T>::mul(Poly<T>* b, int deg_out)
             const T val_a = buf[deg_a];
             if (val_a > 0) {
                 const int deg_b = deg - deg_a;
+                if (deg_b > b->degree)
+                    continue;
                 const T val_b = b->get(deg_b);
                 if (val_b > 0)
                     val = field->add(val, field->mul(val_a, val_b));
@@ -199,6 +214,10 @@ void Poly<T>::mul(Poly<T>* b, int deg_out)
         }
         buf[deg] = val;
     }
+    for (int deg = deg_out + 1; deg <= degree; deg++)
+        buf[deg] = 0;
+    degree = deg_out;
+    trim_deg();
 }
 
 /** Multiply to polynomial \f$(X + coef)\f$
@@ -219,6 +238,10 @@ void Poly<T>::mul_to_x_plus_coef(T coef)
 {
     assert(field->check(coef));
 
+    // nothing to do for the zero polynomial
+    if (degree < 0)
+        return;
+
     const T val = buf[degree];
     for (int deg = degree; deg > 0; deg--) {
         buf[deg] = field->add(buf[deg - 1], field->mul(buf[deg], coef));
@@ -238,6 +261,7 @@ template <typename T>
 void Poly<T>::zero_fill()
 {
     std::memset(buf, 0, this->n * sizeof(*buf));
+    degree = -1;
 }
 
 template <typename T>
-- 
2.43.0


From b66a50fb0ce18eddd9325d64a20d537072368b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:30 +0000
Subject: [PATCH 34/35] fix: vec::Buffers::dump of empty buffers reads out of
 bounds

---
 src/vec_buffers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index ae0053d..bd28aca 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -479,7 +479,7 @@ void Buffers<T>::dump(void)
 {
     for (int i = 0; i < n; i++) {
         std::cout << "\n\t" << i << ": ";
-        for (size_t j = 0; j < size - 1; j++) {
+        for (size_t j = 0; j + 1 < size; j++) {
             std::cout << (get(i))[j] << "-";
         }
         if (size > 0) {
-- 
2.43.0


From 73d1d5a8cf5e504007a02f33d88237a36eb98f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:22 +0000
Subject: [PATCH 35/35] fix: compute_omegas_cached: one cache file per field
 and length

---
 src/gf_ring.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 4b3abb6..1d6cf27 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -503,7 +503,8 @@ inline void RingModN<T>::compute_omegas(vec::Vector<T>& W, int n, T w) const
 
 /** Compute the different powers of the root of unity into a vector.
  *
- * @note cache the result in a file called W<w>.cache
+ * @note cache the result in a file called W<w>_<n>_<card>.cache, as the powers
+ *  depend on the field, too
  * @note XXX not reentrant
  *
  * @param W output vector (must be of length n)
@@ -515,7 +516,7 @@ void RingModN<T>::compute_omegas_cached(vec::Vector<T>& W, int n, T w) const
 {
     std::ostringstream filename;
 
-    filename << "W" << w << ".cache";
+    filename << "W" << w << "_" << n << "_" << card() << ".cache";
 
     if (-1 == access(filename.str().c_str(), F_OK)) {
         std::ofstream file;
-- 
2.43.0

