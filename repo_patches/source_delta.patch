From 744520be67cd730ddfdf4643e12ae3d0dbf5cc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 01/28] fix: keep the carry when recoding full-width scalars in
 find_wnaf

A scalar close to 2^(64 n) whose recoding starts with a negative digit made
the running value overflow n limbs; the carry was dropped and the recoding
(and cyclotomic_exp of Fp4 and Fp6, which use it) lost the term 2^(64 n).
---
 libff/algebra/scalar_multiplication/wnaf.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/scalar_multiplication/wnaf.tcc b/libff/algebra/scalar_multiplication/wnaf.tcc
index 760df2c..f05f4dc 100755
--- a/libff/algebra/scalar_multiplication/wnaf.tcc
+++ b/libff/algebra/scalar_multiplication/wnaf.tcc
@@ -27,6 +27,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
     while (!c.is_zero())
     {
         long u;
+        mp_limb_t carry = 0; // c can exceed n limbs when a negative digit is removed
         if ((c.data[0] & 1) == 1)
         {
             u = c.data[0] % (1u << (window_size+1));
@@ -41,7 +42,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
             }
             else
             {
-                mpn_add_1(c.data, c.data, n, -u);
+                carry = mpn_add_1(c.data, c.data, n, -u);
             }
         }
         else
@@ -52,6 +53,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
         ++j;
 
         mpn_rshift(c.data, c.data, n, 1); // c = c/2
+        c.data[n-1] |= carry << (GMP_NUMB_BITS - 1);
     }
 
     return res;
-- 
2.43.0


From 410920bc798516084fb5846f28a263d94b6f89f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 02/28] fix: report out-of-range words when field words are in
 standard form

Without MONTGOMERY_OUTPUT the comparison with the modulus was made after the
conversion to internal form, which reduces, so from_words always returned
true and SHA512_rng never rejected a candidate.
---
 libff/algebra/fields/prime_base/fp.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 75304b0..963d748 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -800,10 +800,11 @@ bool Fp_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::copy(words.begin() + start_word, words.end(), this->mont_repr.data);
     // Zero out the left-most bit_offset bits.
     this->mont_repr.data[n - 1] = mp_limb_t((uint64_t(this->mont_repr.data[n - 1]) << bit_offset) >> bit_offset);
+    const bool is_valid = this->mont_repr < modulus;
 #ifndef MONTGOMERY_OUTPUT
     this->mul_reduce(Rsquared);
 #endif
-    return this->mont_repr < modulus;
+    return is_valid;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
-- 
2.43.0


From 715cbbd64e914aa2e9b769861cb612d9f33984e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 03/28] fix: from_words sets every component even when an
 earlier one is out of range

---
 libff/algebra/fields/prime_extension/fp12_2over3over2.tcc | 4 +++-
 libff/algebra/fields/prime_extension/fp2.tcc              | 4 +++-
 libff/algebra/fields/prime_extension/fp3.tcc              | 5 ++++-
 libff/algebra/fields/prime_extension/fp4.tcc              | 4 +++-
 libff/algebra/fields/prime_extension/fp6_2over3.tcc       | 4 +++-
 libff/algebra/fields/prime_extension/fp6_3over2.tcc       | 5 ++++-
 6 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
index 9f8ab88..363584a 100755
--- a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
@@ -516,7 +516,9 @@ bool Fp12_2over3over2_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::vector<uint64_t> words0(vec_start, vec_center);
     std::vector<uint64_t> words1(vec_center, vec_end);
     // Fp_model's from_words() takes care of asserts about vector length.
-    return c0.from_words(words0) && c1.from_words(words1);
+    const bool is_valid0 = c0.from_words(words0);
+    const bool is_valid1 = c1.from_words(words1);
+    return is_valid0 && is_valid1;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
diff --git a/libff/algebra/fields/prime_extension/fp2.tcc b/libff/algebra/fields/prime_extension/fp2.tcc
index b9e0eca..12a2c72 100755
--- a/libff/algebra/fields/prime_extension/fp2.tcc
+++ b/libff/algebra/fields/prime_extension/fp2.tcc
@@ -259,7 +259,9 @@ bool Fp2_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::vector<uint64_t> words0(vec_start, vec_center);
     std::vector<uint64_t> words1(vec_center, vec_end);
     // Fp_model's from_words() takes care of asserts about vector length.
-    return c0.from_words(words0) && c1.from_words(words1);
+    const bool is_valid0 = c0.from_words(words0);
+    const bool is_valid1 = c1.from_words(words1);
+    return is_valid0 && is_valid1;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
diff --git a/libff/algebra/fields/prime_extension/fp3.tcc b/libff/algebra/fields/prime_extension/fp3.tcc
index 494e04d..84cbc13 100755
--- a/libff/algebra/fields/prime_extension/fp3.tcc
+++ b/libff/algebra/fields/prime_extension/fp3.tcc
@@ -261,7 +261,10 @@ bool Fp3_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::vector<uint64_t> words1(vec_center1, vec_center2);
     std::vector<uint64_t> words2(vec_center2, vec_end);
     // Fp_model's from_words() takes care of asserts about vector length.
-    return c0.from_words(words0) && c1.from_words(words1) && c2.from_words(words2);
+    const bool is_valid0 = c0.from_words(words0);
+    const bool is_valid1 = c1.from_words(words1);
+    const bool is_valid2 = c2.from_words(words2);
+    return is_valid0 && is_valid1 && is_valid2;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
diff --git a/libff/algebra/fields/prime_extension/fp4.tcc b/libff/algebra/fields/prime_extension/fp4.tcc
index 1e5b304..894636f 100755
--- a/libff/algebra/fields/prime_extension/fp4.tcc
+++ b/libff/algebra/fields/prime_extension/fp4.tcc
@@ -338,7 +338,9 @@ bool Fp4_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::vector<uint64_t> words0(vec_start, vec_center);
     std::vector<uint64_t> words1(vec_center, vec_end);
     // Fp_model's from_words() takes care of asserts about vector length.
-    return c0.from_words(words0) && c1.from_words(words1);
+    const bool is_valid0 = c0.from_words(words0);
+    const bool is_valid1 = c1.from_words(words1);
+    return is_valid0 && is_valid1;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.tcc b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
index 11abe2d..3dbb7c0 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
@@ -365,7 +365,9 @@ bool Fp6_2over3_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::vector<uint64_t> words0(vec_start, vec_center);
     std::vector<uint64_t> words1(vec_center, vec_end);
     // Fp_model's from_words() takes care of asserts about vector length.
-    return c0.from_words(words0) && c1.from_words(words1);
+    const bool is_valid0 = c0.from_words(words0);
+    const bool is_valid1 = c1.from_words(words1);
+    return is_valid0 && is_valid1;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
diff --git a/libff/algebra/fields/prime_extension/fp6_3over2.tcc b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
index 7c6590a..fd44bc6 100755
--- a/libff/algebra/fields/prime_extension/fp6_3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
@@ -276,7 +276,10 @@ bool Fp6_3over2_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::vector<uint64_t> words1(vec_center1, vec_center2);
     std::vector<uint64_t> words2(vec_center2, vec_end);
     // Fp_model's from_words() takes care of asserts about vector length.
-    return c0.from_words(words0) && c1.from_words(words1) && c2.from_words(words2);
+    const bool is_valid0 = c0.from_words(words0);
+    const bool is_valid1 = c1.from_words(words1);
+    const bool is_valid2 = c2.from_words(words2);
+    return is_valid0 && is_valid1 && is_valid2;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
-- 
2.43.0


From ef66384ad9df1e1891442dfaa11b4dd6fafb3230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 04/28] fix: write binary field elements in binary when
 BINARY_OUTPUT is set

---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 5 files changed, 40 insertions(+)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index a0ee6cd..4a41a82 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -291,13 +291,21 @@ gf128 gf128::one()
 
 std::ostream& operator<<(std::ostream &out, const gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index ddcdf51..d90287d 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -345,13 +345,21 @@ gf192 gf192::one()
 
 std::ostream& operator<<(std::ostream &out, const gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index 90d26c0..4d12e1e 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -422,13 +422,21 @@ gf256 gf256::one()
 
 std::ostream& operator<<(std::ostream &out, const gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2] << " " << el.value_[3];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2] >> el.value_[3];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index f0c2766..1ec639f 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -251,13 +251,21 @@ gf32 gf32::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index 1268029..e77eb5c 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -292,13 +292,21 @@ gf64 gf64::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
-- 
2.43.0


From 2e66d27a2b0133e548fc99e4d14e857113543efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 05/28] fix: accept orders of 2^32 and above in
 get_root_of_unity

---
 libff/algebra/field_utils/field_utils.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/field_utils/field_utils.tcc b/libff/algebra/field_utils/field_utils.tcc
index 6bfefed..6c47888 100755
--- a/libff/algebra/field_utils/field_utils.tcc
+++ b/libff/algebra/field_utils/field_utils.tcc
@@ -101,7 +101,7 @@ typename std::enable_if<!std::is_same<FieldT, Double>::value, FieldT>::type
 get_root_of_unity(const size_t n)
 {
     const size_t logn = log2(n);
-    if (n != (1u << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
+    if (n != (1ull << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
     if (logn > FieldT::s) throw std::invalid_argument("libff::get_root_of_unity: expected logn <= FieldT::s");
 
     FieldT omega = FieldT::root_of_unity;
-- 
2.43.0


From 437068fa8a2354d7b288954ed90cc59bb58048df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:39 +0000
Subject: [PATCH 06/28] fix: declare vector extraction on input streams

---
 libff/common/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/common/serialization.hpp b/libff/common/serialization.hpp
index dbe4a51..8db2e79 100755
--- a/libff/common/serialization.hpp
+++ b/libff/common/serialization.hpp
@@ -82,7 +82,7 @@ template<typename T>
 std::ostream& operator<<(std::ostream& out, const std::vector<T> &v);
 
 template<typename T>
-std::istream& operator>>(std::ostream& out, std::vector<T> &v);
+std::istream& operator>>(std::istream& in, std::vector<T> &v);
 
 template<typename T1, typename T2>
 std::ostream& operator<<(std::ostream& out, const std::map<T1, T2> &m);
-- 
2.43.0


From b98252b935402ea3bbb7c5d7fc42c2838515fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 07/28] fix: consume the element separator when reading vectors
 of extension field elements

---
 libff/algebra/fields/prime_extension/fp12_2over3over2.tcc | 1 +
 libff/algebra/fields/prime_extension/fp2.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp3.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp6_3over2.tcc       | 1 +
 4 files changed, 4 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
index 363584a..e482a94 100755
--- a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
@@ -564,6 +564,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp12_2over3over2_model<n,
     {
         Fp12_2over3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp2.tcc b/libff/algebra/fields/prime_extension/fp2.tcc
index 12a2c72..6b4b068 100755
--- a/libff/algebra/fields/prime_extension/fp2.tcc
+++ b/libff/algebra/fields/prime_extension/fp2.tcc
@@ -307,6 +307,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp2_model<n, modulus> > &
     {
         Fp2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp3.tcc b/libff/algebra/fields/prime_extension/fp3.tcc
index 84cbc13..149859a 100755
--- a/libff/algebra/fields/prime_extension/fp3.tcc
+++ b/libff/algebra/fields/prime_extension/fp3.tcc
@@ -310,6 +310,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp3_model<n, modulus> > &
     {
         Fp3_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp6_3over2.tcc b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
index fd44bc6..aa108fe 100755
--- a/libff/algebra/fields/prime_extension/fp6_3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
@@ -325,6 +325,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp6_3over2_model<n, modul
     {
         Fp6_3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
-- 
2.43.0


From 5593348ad47810f48f0b550d118c9597736a4084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 08/28] fix: define stream operators declared for vectors of
 Fp6_2over3 elements

---
 .../fields/prime_extension/fp6_2over3.tcc     | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.tcc b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
index 3dbb7c0..aa6ddeb 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
@@ -384,5 +384,41 @@ std::istream& operator>>(std::istream &in, Fp6_2over3_model<n, modulus> &el)
     return in;
 }
 
+template<mp_size_t n, const bigint<n>& modulus>
+std::ostream& operator<<(std::ostream& out, const std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    out << v.size() << "\n";
+    for (const Fp6_2over3_model<n, modulus>& t : v)
+    {
+        out << t << OUTPUT_NEWLINE;
+    }
+
+    return out;
+}
+
+template<mp_size_t n, const bigint<n>& modulus>
+std::istream& operator>>(std::istream& in, std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    v.clear();
+
+    size_t s;
+    in >> s;
+
+    char b;
+    in.read(&b, 1);
+
+    v.reserve(s);
+
+    for (size_t i = 0; i < s; ++i)
+    {
+        Fp6_2over3_model<n, modulus> el;
+        in >> el;
+        consume_OUTPUT_NEWLINE(in);
+        v.emplace_back(el);
+    }
+
+    return in;
+}
+
 } // namespace libff
 #endif // FP6_2OVER3_TCC_
-- 
2.43.0


From 3990b16cf02423e368d03c74fcf32eda216ab5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 09/28] fix: keep the sign of compressed G2 points whose Y has
 a zero first coefficient

---
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 14 +++++++++++---
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 14 +++++++++++---
 libff/algebra/curves/edwards/edwards_g2.cpp     | 14 +++++++++++---
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp       | 14 +++++++++++---
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp       | 14 +++++++++++---
 5 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index bee3553..6bdb40c 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -380,6 +380,14 @@ alt_bn128_G2 alt_bn128_G2::random_element()
     return (alt_bn128_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of y, which differs between y and -y */
+static mp_limb_t Y_sign_bit(const alt_bn128_Fq2 &y)
+{
+    return (y.c0.is_zero() ? y.c1 : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
 {
     alt_bn128_G2 copy(g);
@@ -388,8 +396,8 @@ std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign bit of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign_bit(copy.Y);
 #endif
 
     return out;
@@ -421,7 +429,7 @@ std::istream& operator>>(std::istream &in, alt_bn128_G2 &g)
         alt_bn128_Fq2 tY2 = tX2 * tX + alt_bn128_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (Y_sign_bit(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 99da73c..235dc07 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -366,6 +366,14 @@ bls12_381_G2 bls12_381_G2::random_element()
     return (bls12_381_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of y, which differs between y and -y */
+static mp_limb_t Y_sign_bit(const bls12_381_Fq2 &y)
+{
+    return (y.c0.is_zero() ? y.c1 : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
 {
     bls12_381_G2 copy(g);
@@ -374,8 +382,8 @@ std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign bit of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign_bit(copy.Y);
 #endif
 
     return out;
@@ -407,7 +415,7 @@ std::istream& operator>>(std::istream &in, bls12_381_G2 &g)
         bls12_381_Fq2 tY2 = tX2 * tX + bls12_381_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (Y_sign_bit(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/edwards/edwards_g2.cpp b/libff/algebra/curves/edwards/edwards_g2.cpp
index 0224662..6c0d1f6 100755
--- a/libff/algebra/curves/edwards/edwards_g2.cpp
+++ b/libff/algebra/curves/edwards/edwards_g2.cpp
@@ -330,6 +330,14 @@ edwards_G2 edwards_G2::random_element()
     return edwards_Fr::random_element().as_bigint() * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of y, which differs between y and -y */
+static mp_limb_t Y_sign_bit(const edwards_Fq3 &y)
+{
+    return (!y.c0.is_zero() ? y.c0 : !y.c1.is_zero() ? y.c1 : y.c2).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
 {
     edwards_G2 copy(g);
@@ -337,8 +345,8 @@ std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign bit of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign_bit(copy.Y);
 #endif
     return out;
 }
@@ -369,7 +377,7 @@ std::istream& operator>>(std::istream &in, edwards_G2 &g)
         (edwards_Fq3::one() - edwards_G2::mul_by_d(tX2)).inverse();
     tY = tY2.sqrt();
 
-    if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+    if (Y_sign_bit(tY) != Y_lsb)
     {
         tY = -tY;
     }
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index f99c2c3..d2ac75b 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -416,6 +416,14 @@ mnt4_G2 mnt4_G2::random_element()
     return (mnt4_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of y, which differs between y and -y */
+static mp_limb_t Y_sign_bit(const mnt4_Fq2 &y)
+{
+    return (y.c0.is_zero() ? y.c1 : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
 {
     mnt4_G2 copy(g);
@@ -425,8 +433,8 @@ std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign bit of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign_bit(copy.Y);
 #endif
 
     return out;
@@ -458,7 +466,7 @@ std::istream& operator>>(std::istream &in, mnt4_G2 &g)
         mnt4_Fq2 tY2 = (tX2 + mnt4_twist_coeff_a ) * tX + mnt4_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (Y_sign_bit(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index d56e8f4..ea307b5 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -422,6 +422,14 @@ mnt6_G2 mnt6_G2::random_element()
     return (mnt6_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of y, which differs between y and -y */
+static mp_limb_t Y_sign_bit(const mnt6_Fq3 &y)
+{
+    return (!y.c0.is_zero() ? y.c0 : !y.c1.is_zero() ? y.c1 : y.c2).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
 {
     mnt6_G2 copy(g);
@@ -431,8 +439,8 @@ std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
 #ifdef NO_PT_COMPRESSION
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
-    /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    /* storing the sign bit of Y */
+    out << copy.X << OUTPUT_SEPARATOR << Y_sign_bit(copy.Y);
 #endif
 
     return out;
@@ -464,7 +472,7 @@ std::istream& operator>>(std::istream &in, mnt6_G2 &g)
         const mnt6_Fq3 tY2 = (tX2 + mnt6_twist_coeff_a) * tX + mnt6_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (Y_sign_bit(tY) != Y_lsb)
         {
             tY = -tY;
         }
-- 
2.43.0


From d470628f2c54c7c3dae4250e944cd701a89c6bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 10/28] fix: pairings with the identity are one

---
 .../curves/alt_bn128/alt_bn128_pairing.cpp    | 25 ++++++++++
 .../curves/bls12_381/bls12_381_pairing.cpp    | 25 ++++++++++
 .../curves/edwards/edwards_pairing.cpp        | 46 ++++++++++++++++++-
 .../algebra/curves/mnt/mnt4/mnt4_pairing.cpp  | 41 +++++++++++++++++
 .../algebra/curves/mnt/mnt6/mnt6_pairing.cpp  | 41 +++++++++++++++++
 5 files changed, 177 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
index eb368fd..ffe64cf 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
@@ -364,11 +364,29 @@ alt_bn128_ate_G2_precomp alt_bn128_ate_precompute_G2(const alt_bn128_G2& Q)
     return result;
 }
 
+/* precomputations of the identity, whose pairings are one */
+
+static bool is_identity(const alt_bn128_ate_G1_precomp &prec)
+{
+    return prec.PX.is_zero() && prec.PY == alt_bn128_Fq::one();
+}
+
+static bool is_identity(const alt_bn128_ate_G2_precomp &prec)
+{
+    return prec.QX.is_zero() && prec.QY == alt_bn128_Fq2::one();
+}
+
 alt_bn128_Fq12 alt_bn128_ate_miller_loop(const alt_bn128_ate_G1_precomp &prec_P,
                                      const alt_bn128_ate_G2_precomp &prec_Q)
 {
     enter_block("Call to alt_bn128_ate_miller_loop");
 
+    if (is_identity(prec_P) || is_identity(prec_Q))
+    {
+        leave_block("Call to alt_bn128_ate_miller_loop");
+        return alt_bn128_Fq12::one();
+    }
+
     alt_bn128_Fq12 f = alt_bn128_Fq12::one();
 
     bool found_one = false;
@@ -425,6 +443,13 @@ alt_bn128_Fq12 alt_bn128_ate_double_miller_loop(const alt_bn128_ate_G1_precomp &
 {
     enter_block("Call to alt_bn128_ate_double_miller_loop");
 
+    if (is_identity(prec_P1) || is_identity(prec_Q1) || is_identity(prec_P2) || is_identity(prec_Q2))
+    {
+        const alt_bn128_Fq12 f = alt_bn128_ate_miller_loop(prec_P1, prec_Q1) * alt_bn128_ate_miller_loop(prec_P2, prec_Q2);
+        leave_block("Call to alt_bn128_ate_double_miller_loop");
+        return f;
+    }
+
     alt_bn128_Fq12 f = alt_bn128_Fq12::one();
 
     bool found_one = false;
diff --git a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
index 20b7cde..9d8e14a 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
@@ -310,11 +310,29 @@ bls12_381_ate_G2_precomp bls12_381_ate_precompute_G2(const bls12_381_G2& Q)
     return result;
 }
 
+/* precomputations of the identity, whose pairings are one */
+
+static bool is_identity(const bls12_381_ate_G1_precomp &prec)
+{
+    return prec.PX.is_zero() && prec.PY == bls12_381_Fq::one();
+}
+
+static bool is_identity(const bls12_381_ate_G2_precomp &prec)
+{
+    return prec.QX.is_zero() && prec.QY == bls12_381_Fq2::one();
+}
+
 bls12_381_Fq12 bls12_381_ate_miller_loop(const bls12_381_ate_G1_precomp &prec_P,
                                      const bls12_381_ate_G2_precomp &prec_Q)
 {
     enter_block("Call to bls12_381_ate_miller_loop");
 
+    if (is_identity(prec_P) || is_identity(prec_Q))
+    {
+        leave_block("Call to bls12_381_ate_miller_loop");
+        return bls12_381_Fq12::one();
+    }
+
     bls12_381_Fq12 f = bls12_381_Fq12::one();
 
     bool found_one = false;
@@ -365,6 +383,13 @@ bls12_381_Fq12 bls12_381_ate_double_miller_loop(const bls12_381_ate_G1_precomp &
 {
     enter_block("Call to bls12_381_ate_double_miller_loop");
 
+    if (is_identity(prec_P1) || is_identity(prec_Q1) || is_identity(prec_P2) || is_identity(prec_Q2))
+    {
+        const bls12_381_Fq12 f = bls12_381_ate_miller_loop(prec_P1, prec_Q1) * bls12_381_ate_miller_loop(prec_P2, prec_Q2);
+        leave_block("Call to bls12_381_ate_double_miller_loop");
+        return f;
+    }
+
     bls12_381_Fq12 f = bls12_381_Fq12::one();
 
     bool found_one = false;
diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 537c33d..5cea89f 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -225,7 +225,10 @@ edwards_tate_G2_precomp edwards_tate_precompute_G2(const edwards_G2& Q)
     Qcopy.to_affine_coordinates();
     edwards_tate_G2_precomp result;
     result.y0 = Qcopy.Y * Qcopy.Z.inverse(); // Y/Z
-    result.eta = (Qcopy.Z+Qcopy.Y) * edwards_Fq6::mul_by_non_residue(Qcopy.X).inverse(); // (Z+Y)/(nqr*X)
+    if (!Q.is_zero())
+    {
+        result.eta = (Qcopy.Z+Qcopy.Y) * edwards_Fq6::mul_by_non_residue(Qcopy.X).inverse(); // (Z+Y)/(nqr*X)
+    }
     leave_block("Call to edwards_tate_precompute_G2");
 
     return result;
@@ -390,11 +393,39 @@ edwards_tate_G1_precomp edwards_tate_precompute_G1(const edwards_G1& P)
     return result;
 }
 
+/* precomputations of the identity, whose pairings are one */
+
+static bool is_identity(const edwards_tate_G1_precomp &prec)
+{
+    return prec[0].c_ZZ.is_zero();
+}
+
+static bool is_identity(const edwards_tate_G2_precomp &prec)
+{
+    return prec.y0 == edwards_Fq3::one();
+}
+
+static bool is_identity(const edwards_ate_G1_precomp &prec)
+{
+    return prec.P_XZ.is_zero();
+}
+
+static bool is_identity(const edwards_ate_G2_precomp &prec)
+{
+    return prec[0].c_ZZ.is_zero();
+}
+
 edwards_Fq6 edwards_tate_miller_loop(const edwards_tate_G1_precomp &prec_P,
                           const edwards_tate_G2_precomp &prec_Q)
 {
     enter_block("Call to edwards_tate_miller_loop");
 
+    if (is_identity(prec_P) || is_identity(prec_Q))
+    {
+        leave_block("Call to edwards_tate_miller_loop");
+        return edwards_Fq6::one();
+    }
+
     edwards_Fq6 f = edwards_Fq6::one();
 
     bool found_one = false;
@@ -631,6 +662,12 @@ edwards_Fq6 edwards_ate_miller_loop(const edwards_ate_G1_precomp &prec_P,
                                     const edwards_ate_G2_precomp &prec_Q)
 {
     enter_block("Call to edwards_ate_miller_loop");
+
+    if (is_identity(prec_P) || is_identity(prec_Q))
+    {
+        leave_block("Call to edwards_ate_miller_loop");
+        return edwards_Fq6::one();
+    }
     const bigint<edwards_Fr::num_limbs> &loop_count = edwards_ate_loop_count;
 
     edwards_Fq6 f = edwards_Fq6::one();
@@ -674,6 +711,13 @@ edwards_Fq6 edwards_ate_double_miller_loop(const edwards_ate_G1_precomp &prec_P1
                                            const edwards_ate_G2_precomp &prec_Q2)
 {
     enter_block("Call to edwards_ate_double_miller_loop");
+
+    if (is_identity(prec_P1) || is_identity(prec_Q1) || is_identity(prec_P2) || is_identity(prec_Q2))
+    {
+        const edwards_Fq6 f = edwards_ate_miller_loop(prec_P1, prec_Q1) * edwards_ate_miller_loop(prec_P2, prec_Q2);
+        leave_block("Call to edwards_ate_double_miller_loop");
+        return f;
+    }
     const bigint<edwards_Fr::num_limbs> &loop_count = edwards_ate_loop_count;
 
     edwards_Fq6 f = edwards_Fq6::one();
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index 53c936e..fff3b49 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -322,11 +322,39 @@ mnt4_affine_ate_G2_precomputation mnt4_affine_ate_precompute_G2(const mnt4_G2& Q
     return result;
 }
 
+/* precomputations of the identity, whose pairings are one */
+
+static bool is_identity(const mnt4_affine_ate_G1_precomputation &prec)
+{
+    return prec.PX.is_zero() && prec.PY == mnt4_Fq::one();
+}
+
+static bool is_identity(const mnt4_affine_ate_G2_precomputation &prec)
+{
+    return prec.QX.is_zero() && prec.QY == mnt4_Fq2::one();
+}
+
+static bool is_identity(const mnt4_ate_G1_precomp &prec)
+{
+    return prec.PX.is_zero() && prec.PY == mnt4_Fq::one();
+}
+
+static bool is_identity(const mnt4_ate_G2_precomp &prec)
+{
+    return prec.QX.is_zero() && prec.QY == mnt4_Fq2::one();
+}
+
 mnt4_Fq4 mnt4_affine_ate_miller_loop(const mnt4_affine_ate_G1_precomputation &prec_P,
                                      const mnt4_affine_ate_G2_precomputation &prec_Q)
 {
     enter_block("Call to mnt4_affine_ate_miller_loop");
 
+    if (is_identity(prec_P) || is_identity(prec_Q))
+    {
+        leave_block("Call to mnt4_affine_ate_miller_loop");
+        return mnt4_Fq4::one();
+    }
+
     mnt4_Fq4 f = mnt4_Fq4::one();
 
     bool found_nonzero = false;
@@ -548,6 +576,12 @@ mnt4_Fq4 mnt4_ate_miller_loop(const mnt4_ate_G1_precomp &prec_P,
 {
     enter_block("Call to mnt4_ate_miller_loop");
 
+    if (is_identity(prec_P) || is_identity(prec_Q))
+    {
+        leave_block("Call to mnt4_ate_miller_loop");
+        return mnt4_Fq4::one();
+    }
+
     mnt4_Fq2 L1_coeff = mnt4_Fq2(prec_P.PX, mnt4_Fq::zero()) - prec_Q.QX_over_twist;
 
     mnt4_Fq4 f = mnt4_Fq4::one();
@@ -606,6 +640,13 @@ mnt4_Fq4 mnt4_ate_double_miller_loop(const mnt4_ate_G1_precomp &prec_P1,
 {
     enter_block("Call to mnt4_ate_double_miller_loop");
 
+    if (is_identity(prec_P1) || is_identity(prec_Q1) || is_identity(prec_P2) || is_identity(prec_Q2))
+    {
+        const mnt4_Fq4 f = mnt4_ate_miller_loop(prec_P1, prec_Q1) * mnt4_ate_miller_loop(prec_P2, prec_Q2);
+        leave_block("Call to mnt4_ate_double_miller_loop");
+        return f;
+    }
+
     mnt4_Fq2 L1_coeff1 = mnt4_Fq2(prec_P1.PX, mnt4_Fq::zero()) - prec_Q1.QX_over_twist;
     mnt4_Fq2 L1_coeff2 = mnt4_Fq2(prec_P2.PX, mnt4_Fq::zero()) - prec_Q2.QX_over_twist;
 
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 5af861b..edffd1b 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -327,11 +327,39 @@ mnt6_affine_ate_G2_precomputation mnt6_affine_ate_precompute_G2(const mnt6_G2& Q
     return result;
 }
 
+/* precomputations of the identity, whose pairings are one */
+
+static bool is_identity(const mnt6_affine_ate_G1_precomputation &prec)
+{
+    return prec.PX.is_zero() && prec.PY == mnt6_Fq::one();
+}
+
+static bool is_identity(const mnt6_affine_ate_G2_precomputation &prec)
+{
+    return prec.QX.is_zero() && prec.QY == mnt6_Fq3::one();
+}
+
+static bool is_identity(const mnt6_ate_G1_precomp &prec)
+{
+    return prec.PX.is_zero() && prec.PY == mnt6_Fq::one();
+}
+
+static bool is_identity(const mnt6_ate_G2_precomp &prec)
+{
+    return prec.QX.is_zero() && prec.QY == mnt6_Fq3::one();
+}
+
 mnt6_Fq6 mnt6_affine_ate_miller_loop(const mnt6_affine_ate_G1_precomputation &prec_P,
                                      const mnt6_affine_ate_G2_precomputation &prec_Q)
 {
     enter_block("Call to mnt6_affine_ate_miller_loop");
 
+    if (is_identity(prec_P) || is_identity(prec_Q))
+    {
+        leave_block("Call to mnt6_affine_ate_miller_loop");
+        return mnt6_Fq6::one();
+    }
+
     mnt6_Fq6 f = mnt6_Fq6::one();
 
     const bigint<mnt6_Fr::num_limbs> &loop_count = mnt6_ate_loop_count;
@@ -557,6 +585,12 @@ mnt6_Fq6 mnt6_ate_miller_loop(const mnt6_ate_G1_precomp &prec_P,
 {
     enter_block("Call to mnt6_ate_miller_loop");
 
+    if (is_identity(prec_P) || is_identity(prec_Q))
+    {
+        leave_block("Call to mnt6_ate_miller_loop");
+        return mnt6_Fq6::one();
+    }
+
     mnt6_Fq3 L1_coeff = mnt6_Fq3(prec_P.PX, mnt6_Fq::zero(), mnt6_Fq::zero()) - prec_Q.QX_over_twist;
 
     mnt6_Fq6 f = mnt6_Fq6::one();
@@ -617,6 +651,13 @@ mnt6_Fq6 mnt6_ate_double_miller_loop(const mnt6_ate_G1_precomp &prec_P1,
 {
     enter_block("Call to mnt6_ate_double_miller_loop");
 
+    if (is_identity(prec_P1) || is_identity(prec_Q1) || is_identity(prec_P2) || is_identity(prec_Q2))
+    {
+        const mnt6_Fq6 f = mnt6_ate_miller_loop(prec_P1, prec_Q1) * mnt6_ate_miller_loop(prec_P2, prec_Q2);
+        leave_block("Call to mnt6_ate_double_miller_loop");
+        return f;
+    }
+
     mnt6_Fq3 L1_coeff1 = mnt6_Fq3(prec_P1.PX, mnt6_Fq::zero(), mnt6_Fq::zero()) - prec_Q1.QX_over_twist;
     mnt6_Fq3 L1_coeff2 = mnt6_Fq3(prec_P2.PX, mnt6_Fq::zero(), mnt6_Fq::zero()) - prec_Q2.QX_over_twist;
 
-- 
2.43.0


From 3baf2b80dc0aa4c79f937b7b2c0653f81e135747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 11/28] fix: leave the block edwards_tate_reduced_pairing
 entered

---
 libff/algebra/curves/edwards/edwards_pairing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 5cea89f..6f96674 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -476,7 +476,7 @@ edwards_GT edwards_tate_reduced_pairing(const edwards_G1 &P, const edwards_G2 &Q
     enter_block("Call to edwards_tate_reduced_pairing");
     const edwards_Fq6 f = edwards_tate_pairing(P, Q);
     const edwards_GT result = edwards_final_exponentiation(f);
-    leave_block("Call to edwards_tate_reduce_pairing");
+    leave_block("Call to edwards_tate_reduced_pairing");
     return result;
 }
 
-- 
2.43.0


From 16ff8742b485a2e80dba51ecd126906f5ccf274a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 12/28] fix: invert the mnt6 affine Miller value for the
 negative loop count

---
 libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index edffd1b..5fc9da3 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -404,16 +404,12 @@ mnt6_Fq6 mnt6_affine_ate_miller_loop(const mnt6_affine_ate_G1_precomputation &pr
 
     }
 
-    /* TODO: maybe handle neg
     if (mnt6_ate_is_loop_count_neg)
     {
-    	// TODO:
-    	mnt6_affine_ate_coeffs ac = prec_Q.coeffs[idx++];
-    	mnt6_Fq6 g_RnegR_at_P = mnt6_Fq6(prec_P.PY_twist_squared,
-                                          - prec_P.PX * c.gamma_twist + c.gamma_X - c.old_RY);
-    	f = (f * g_RnegR_at_P).inverse();
+        /* the vertical line through R lies in a proper subfield and is
+           removed by the final exponentiation */
+        f = f.inverse();
     }
-    */
 
     leave_block("Call to mnt6_affine_ate_miller_loop");
 
-- 
2.43.0


From e151fd0f8a0a35a3a53e3f6003a667814127eb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 13/28] fix: make the gf192 multiplicative generator generate
 the group

---
 libff/algebra/fields/binary/gf192.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index d90287d..b17ad25 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -19,7 +19,7 @@ namespace libff {
 using std::size_t;
 
 const uint64_t gf192::modulus_;
-gf192 gf192::multiplicative_generator = gf192(2);
+gf192 gf192::multiplicative_generator = gf192(7);
 
 gf192::gf192() : value_{0, 0, 0}
 {
-- 
2.43.0


From 1c8a14ce6bfd24702bf94b0b9cd07ebfe9472f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:11 +0000
Subject: [PATCH 14/28] fix: mul_by_b multiplies by the twist coefficient

---
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 2 +-
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index 6bdb40c..0f3da2d 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -35,7 +35,7 @@ alt_bn128_G2::alt_bn128_G2()
 
 alt_bn128_Fq2 alt_bn128_G2::mul_by_b(const alt_bn128_Fq2 &elt)
 {
-    return alt_bn128_Fq2(alt_bn128_twist_mul_by_b_c0 * elt.c0, alt_bn128_twist_mul_by_b_c1 * elt.c1);
+    return alt_bn128_twist_coeff_b * elt;
 }
 
 void alt_bn128_G2::print() const
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 235dc07..b92b9b9 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -24,7 +24,7 @@ bls12_381_G2::bls12_381_G2()
 
 bls12_381_Fq2 bls12_381_G2::mul_by_b(const bls12_381_Fq2 &elt)
 {
-    return bls12_381_Fq2(bls12_381_twist_mul_by_b_c0 * elt.c0, bls12_381_twist_mul_by_b_c1 * elt.c1);
+    return bls12_381_twist_coeff_b * elt;
 }
 
 void bls12_381_G2::print() const
-- 
2.43.0


From 1d389e841fdda0689d0ffe0be7088d12224cde88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 15/28] fix: guard the profiling records where blocks are
 entered inside parallel regions

---
 libff/common/profiling.cpp | 48 +++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index dcf41c7..2ebbbef 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -254,11 +254,19 @@ void enter_block(const std::string &msg, const bool indent)
         return;
     }
 
-    block_names.emplace_back(msg);
-    long long t = get_nsec_time();
-    enter_times[msg] = t;
-    long long cpu_t = get_nsec_cpu_time();
-    enter_cpu_times[msg] = cpu_t;
+    long long t, cpu_t;
+
+    // blocks may be entered inside parallel regions: the records are shared
+#ifdef MULTICORE
+#pragma omp critical
+#endif
+    {
+        block_names.emplace_back(msg);
+        t = get_nsec_time();
+        enter_times[msg] = t;
+        cpu_t = get_nsec_cpu_time();
+        enter_cpu_times[msg] = cpu_t;
+    }
 
     if (inhibit_profiling_info)
     {
@@ -294,23 +302,31 @@ void leave_block(const std::string &msg, const bool indent)
 #ifndef MULTICORE
     assert(*(--block_names.end()) == msg);
 #endif
-    block_names.pop_back();
 
-    ++invocation_counts[msg];
+    long long t, cpu_t;
+
+#ifdef MULTICORE
+#pragma omp critical
+#endif
+    {
+        block_names.pop_back();
+
+        ++invocation_counts[msg];
 
-    long long t = get_nsec_time();
-    last_times[msg] = (t - enter_times[msg]);
-    cumulative_times[msg] += (t - enter_times[msg]);
+        t = get_nsec_time();
+        last_times[msg] = (t - enter_times[msg]);
+        cumulative_times[msg] += (t - enter_times[msg]);
 
-    long long cpu_t = get_nsec_cpu_time();
-    last_cpu_times[msg] = (cpu_t - enter_cpu_times[msg]);
+        cpu_t = get_nsec_cpu_time();
+        last_cpu_times[msg] = (cpu_t - enter_cpu_times[msg]);
 
 #ifdef PROFILE_OP_COUNTS
-    for (std::pair<std::string, long long*> p : op_data_points)
-    {
-        cumulative_op_counts[std::make_pair(msg, p.first)] += *(p.second)-op_counts[std::make_pair(msg, p.first)];
-    }
+        for (std::pair<std::string, long long*> p : op_data_points)
+        {
+            cumulative_op_counts[std::make_pair(msg, p.first)] += *(p.second)-op_counts[std::make_pair(msg, p.first)];
+        }
 #endif
+    }
 
     if (inhibit_profiling_info)
     {
-- 
2.43.0


From 5cc1ecdf523070a9737648fc52864ffc6071e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 16/28] fix: define the operation counters of the binary fields
 once

---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf128.hpp | 8 --------
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.hpp | 8 --------
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.hpp | 8 --------
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf32.hpp  | 8 --------
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.hpp  | 8 --------
 10 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index 4a41a82..20695b6 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf128::add_cnt = 0;
+long long gf128::sub_cnt = 0;
+long long gf128::mul_cnt = 0;
+long long gf128::sqr_cnt = 0;
+long long gf128::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf128::modulus_;
diff --git a/libff/algebra/fields/binary/gf128.hpp b/libff/algebra/fields/binary/gf128.hpp
index 7b50aa6..aed94ab 100644
--- a/libff/algebra/fields/binary/gf128.hpp
+++ b/libff/algebra/fields/binary/gf128.hpp
@@ -99,14 +99,6 @@ private:
     uint64_t value_[2];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf128::add_cnt = 0;
-long long gf128::sub_cnt = 0;
-long long gf128::mul_cnt = 0;
-long long gf128::sqr_cnt = 0;
-long long gf128::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf128.tcc>
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index b17ad25..0369e96 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf192::add_cnt = 0;
+long long gf192::sub_cnt = 0;
+long long gf192::mul_cnt = 0;
+long long gf192::sqr_cnt = 0;
+long long gf192::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf192::modulus_;
diff --git a/libff/algebra/fields/binary/gf192.hpp b/libff/algebra/fields/binary/gf192.hpp
index d6d4069..23465cb 100644
--- a/libff/algebra/fields/binary/gf192.hpp
+++ b/libff/algebra/fields/binary/gf192.hpp
@@ -99,14 +99,6 @@ private:
     uint64_t value_[3];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf192::add_cnt = 0;
-long long gf192::sub_cnt = 0;
-long long gf192::mul_cnt = 0;
-long long gf192::sqr_cnt = 0;
-long long gf192::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf192.tcc>
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index 4d12e1e..64f2c92 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf256::add_cnt = 0;
+long long gf256::sub_cnt = 0;
+long long gf256::mul_cnt = 0;
+long long gf256::sqr_cnt = 0;
+long long gf256::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf256::modulus_;
diff --git a/libff/algebra/fields/binary/gf256.hpp b/libff/algebra/fields/binary/gf256.hpp
index 48fcc8a..cbcdd78 100644
--- a/libff/algebra/fields/binary/gf256.hpp
+++ b/libff/algebra/fields/binary/gf256.hpp
@@ -101,14 +101,6 @@ private:
     uint64_t value_[4];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf256::add_cnt = 0;
-long long gf256::sub_cnt = 0;
-long long gf256::mul_cnt = 0;
-long long gf256::sqr_cnt = 0;
-long long gf256::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf256.tcc>
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index 1ec639f..2eac94a 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf32::add_cnt = 0;
+long long gf32::sub_cnt = 0;
+long long gf32::mul_cnt = 0;
+long long gf32::sqr_cnt = 0;
+long long gf32::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf32::modulus_;
diff --git a/libff/algebra/fields/binary/gf32.hpp b/libff/algebra/fields/binary/gf32.hpp
index 3ad888a..cd10e26 100644
--- a/libff/algebra/fields/binary/gf32.hpp
+++ b/libff/algebra/fields/binary/gf32.hpp
@@ -95,14 +95,6 @@ private:
     uint32_t value_;
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf32::add_cnt = 0;
-long long gf32::sub_cnt = 0;
-long long gf32::mul_cnt = 0;
-long long gf32::sqr_cnt = 0;
-long long gf32::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf32.tcc>
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index e77eb5c..9479869 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -16,6 +16,14 @@
 
 namespace libff {
 
+#ifdef PROFILE_OP_COUNTS
+long long gf64::add_cnt = 0;
+long long gf64::sub_cnt = 0;
+long long gf64::mul_cnt = 0;
+long long gf64::sqr_cnt = 0;
+long long gf64::inv_cnt = 0;
+#endif
+
 using std::size_t;
 
 const uint64_t gf64::modulus_;
diff --git a/libff/algebra/fields/binary/gf64.hpp b/libff/algebra/fields/binary/gf64.hpp
index 497b7a5..85f112a 100644
--- a/libff/algebra/fields/binary/gf64.hpp
+++ b/libff/algebra/fields/binary/gf64.hpp
@@ -96,14 +96,6 @@ private:
     uint64_t value_;
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf64::add_cnt = 0;
-long long gf64::sub_cnt = 0;
-long long gf64::mul_cnt = 0;
-long long gf64::sqr_cnt = 0;
-long long gf64::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf64.tcc>
 
-- 
2.43.0


From 7ef55a218452cee4c272cfbfcc85ad34153bb773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 17/28] fix: debug invariants of the flipped Miller loops are
 member checks

---
 libff/algebra/curves/edwards/edwards_pairing.cpp | 4 ++--
 libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp   | 2 +-
 libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 6f96674..92e8450 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -249,7 +249,7 @@ struct extended_edwards_G1_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T*Z == X*Y);
     }
@@ -495,7 +495,7 @@ struct extended_edwards_G2_projective {
             T.print();
         }
 
-    static void test_invariant()
+    void test_invariant() const
         {
             assert(T*Z == X*Y);
         }
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index fff3b49..1d637f7 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -431,7 +431,7 @@ struct extended_mnt4_G2_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T == Z.squared());
     }
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 5fc9da3..eda5284 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -433,7 +433,7 @@ struct extended_mnt6_G2_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T == Z.squared());
     }
-- 
2.43.0


From d99b3b9575c50e0385f8c5fa812b177bdb879e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 18/28] fix: tell the compiler that the comparison of exponents
 reads memory

---
 libff/algebra/scalar_multiplication/multiexp.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/algebra/scalar_multiplication/multiexp.tcc b/libff/algebra/scalar_multiplication/multiexp.tcc
index 5b9d8fb..a15d328 100755
--- a/libff/algebra/scalar_multiplication/multiexp.tcc
+++ b/libff/algebra/scalar_multiplication/multiexp.tcc
@@ -52,7 +52,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 4)
@@ -71,7 +71,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 5)
@@ -91,7 +91,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else
-- 
2.43.0


From 896b9aa66758905e4aa06a314f9f6e2b9a14c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 19/28] fix: let the debugging checks of the alt_bn128
 precomputation pass the point at infinity

---
 libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
index ffe64cf..439cbc3 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
@@ -344,9 +344,9 @@ alt_bn128_ate_G2_precomp alt_bn128_ate_precompute_G2(const alt_bn128_G2& Q)
     }
 
     alt_bn128_G2 Q1 = Qcopy.mul_by_q();
-    assert(Q1.Z == alt_bn128_Fq2::one());
+    assert(Q.is_zero() || Q1.Z == alt_bn128_Fq2::one());
     alt_bn128_G2 Q2 = Q1.mul_by_q();
-    assert(Q2.Z == alt_bn128_Fq2::one());
+    assert(Q.is_zero() || Q2.Z == alt_bn128_Fq2::one());
 
     if (alt_bn128_ate_is_loop_count_neg)
     {
-- 
2.43.0


From 556b4c117490197c7d2365514d00b8ca25b03e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 20/28] fix: print_vector accepts a vector variable (its two
 overloads were ambiguous)

---
 libff/common/utils.hpp | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/libff/common/utils.hpp b/libff/common/utils.hpp
index 50f3ada..23a01eb 100755
--- a/libff/common/utils.hpp
+++ b/libff/common/utils.hpp
@@ -67,23 +67,10 @@ std::size_t curve_size_in_bits(const std::vector<CurveT> &v);
 
 /* Print a vector in the form { elem0 elem1 elem2 ... }, with a newline at the end
 template<typename T>
-void print_vector(std::vector<T> &vec);
-template<typename T>
-void print_vector(std::vector<T> vec);*/
-
-template<typename T>
-void print_vector(std::vector<T> &vec)
-{
-    printf("{ ");
-    for (auto const& elem : vec)
-    {
-        std::cout << elem << " ";
-    }
-    printf("}\n");
-}
+void print_vector(const std::vector<T> &vec);*/
 
 template<typename T>
-void print_vector(std::vector<T> vec)
+void print_vector(const std::vector<T> &vec)
 {
     printf("{ ");
     for (auto const& elem : vec)
-- 
2.43.0


From 073527ecfe5793324c2b3ce922e25efcb63f0127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 21/28] fix: additions in the bls12_381 groups are counted

---
 libff/algebra/curves/bls12_381/bls12_381_g1.cpp | 4 ++++
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
index e90c9c2..e3ce041 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
@@ -171,6 +171,10 @@ bls12_381_G1 bls12_381_G1::operator+(const bls12_381_G1 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     // rest of add case
     bls12_381_Fq H = U2 - U1;                            // H = U2-U1
     bls12_381_Fq S2_minus_S1 = S2-S1;
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index b92b9b9..19c5356 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -181,6 +181,10 @@ bls12_381_G2 bls12_381_G2::operator+(const bls12_381_G2 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     // rest of add case
     bls12_381_Fq2 H = U2 - U1;                            // H = U2-U1
     bls12_381_Fq2 S2_minus_S1 = S2-S1;
-- 
2.43.0


From 53e283803ff0298727e5772c1322f3c23f78b388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 22/28] fix: squaring in three-limb prime fields does not lower
 the count of multiplications

---
 libff/algebra/fields/prime_base/fp.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 963d748..eab0e0f 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -617,7 +617,6 @@ Fp_model<n,modulus> Fp_model<n,modulus>::squared() const
 {
 #ifdef PROFILE_OP_COUNTS
     this->sqr_cnt++;
-    this->mul_cnt--; // zero out the upcoming mul
 #endif
     /* stupid pre-processor tricks; beware */
 #if defined(__x86_64__) && defined(USE_ASM)
@@ -655,6 +654,9 @@ Fp_model<n,modulus> Fp_model<n,modulus>::squared() const
     else
 #endif
     {
+#ifdef PROFILE_OP_COUNTS
+        this->mul_cnt--; // zero out the upcoming mul
+#endif
         Fp_model<n, modulus> r(*this);
         return (r *= r);
     }
-- 
2.43.0


From 9f3d285fb7db803d54277fae6991d146e99ba617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:50 +0000
Subject: [PATCH 23/28] fix: additions with operator+ in the mnt4 and mnt6
 groups are counted

---
 libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp | 6 ++++++
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp | 6 ++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp | 6 ++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
index e0d3123..56355d8 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
@@ -178,6 +178,9 @@ mnt4_G1 mnt4_G1::operator+(const mnt4_G1 &other) const
 
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         // perform dbl case
         const mnt4_Fq XX   = (this->X).squared();                   // XX  = X1^2
         const mnt4_Fq ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
@@ -198,6 +201,9 @@ mnt4_G1 mnt4_G1::operator+(const mnt4_G1 &other) const
     }
 
     // if we have arrived here we are in the add case
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     const mnt4_Fq Z1Z2 = (this->Z) * (other.Z);        // Z1Z2 = Z1*Z2
     const mnt4_Fq u    = Y2Z1 - Y1Z2; // u    = Y2*Z1-Y1Z2
     const mnt4_Fq uu   = u.squared();                  // uu   = u^2
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index d2ac75b..7cffc18 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -194,6 +194,9 @@ mnt4_G2 mnt4_G2::operator+(const mnt4_G2 &other) const
 
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         // perform dbl case
         const mnt4_Fq2 XX   = (this->X).squared();                   // XX  = X1^2
         const mnt4_Fq2 ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
@@ -214,6 +217,9 @@ mnt4_G2 mnt4_G2::operator+(const mnt4_G2 &other) const
     }
 
     // if we have arrived here we are in the add case
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     const mnt4_Fq2 Z1Z2 = (this->Z) * (other.Z);      // Z1Z2 = Z1*Z2
     const mnt4_Fq2 u    = Y2Z1 - Y1Z2;                  // u    = Y2*Z1-Y1Z2
     const mnt4_Fq2 uu   = u.squared();                  // uu   = u^2
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
index d5a3640..7f47204 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
@@ -178,6 +178,9 @@ mnt6_G1 mnt6_G1::operator+(const mnt6_G1 &other) const
 
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         // perform dbl case
         const mnt6_Fq XX   = (this->X).squared();                   // XX  = X1^2
         const mnt6_Fq ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
@@ -198,6 +201,9 @@ mnt6_G1 mnt6_G1::operator+(const mnt6_G1 &other) const
     }
 
     // if we have arrived here we are in the add case
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     const mnt6_Fq Z1Z2 = (this->Z) * (other.Z);      // Z1Z2 = Z1*Z2
     const mnt6_Fq u    = Y2Z1 - Y1Z2;                  // u    = Y2*Z1-Y1Z2
     const mnt6_Fq uu   = u.squared();                  // uu   = u^2
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index ea307b5..711e7ce 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -200,6 +200,9 @@ mnt6_G2 mnt6_G2::operator+(const mnt6_G2 &other) const
 
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         // perform dbl case
         const mnt6_Fq3 XX   = (this->X).squared();                   // XX  = X1^2
         const mnt6_Fq3 ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
@@ -220,6 +223,9 @@ mnt6_G2 mnt6_G2::operator+(const mnt6_G2 &other) const
     }
 
     // if we have arrived here we are in the add case
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     const mnt6_Fq3 Z1Z2 = (this->Z) * (other.Z);   // Z1Z2 = Z1*Z2
     const mnt6_Fq3 u    = Y2Z1 - Y1Z2;               // u    = Y2*Z1-Y1Z2
     const mnt6_Fq3 uu   = u.squared();               // uu   = u^2
-- 
2.43.0


From ac4d85579843345e6818081c3dce9587f25f82ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:23 +0000
Subject: [PATCH 24/28] fix: clearing the profiling records clears the
 accumulated operation counts

---
 libff/common/profiling.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 2ebbbef..8ca4f17 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -101,6 +101,7 @@ void clear_profiling_counters()
     last_times.clear();
     last_cpu_times.clear();
     cumulative_times.clear();
+    cumulative_op_counts.clear();
 }
 
 void print_cumulative_time_entry(const std::string &key, const long long factor)
-- 
2.43.0


From b3c9da0e7361444c68ce4936a9a44368f279f24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:34 +0000
Subject: [PATCH 25/28] fix: operation counts of a block entered while output
 is inhibited start at its entry

---
 libff/common/profiling.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 8ca4f17..bb9b43b 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -267,6 +267,7 @@ void enter_block(const std::string &msg, const bool indent)
         enter_times[msg] = t;
         cpu_t = get_nsec_cpu_time();
         enter_cpu_times[msg] = cpu_t;
+        op_profiling_enter(msg);
     }
 
     if (inhibit_profiling_info)
@@ -278,8 +279,6 @@ void enter_block(const std::string &msg, const bool indent)
 #pragma omp critical
 #endif
     {
-        op_profiling_enter(msg);
-
         print_indent();
         printf("(enter) %-35s\t", msg.c_str());
         print_times_from_last_and_start(t, t, cpu_t, cpu_t);
-- 
2.43.0


From bd7d5996bb0959674c7dfe236f39a82a737536f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:01 +0000
Subject: [PATCH 26/28] fix: powers of Double by repeated multiplication, so
 that 0^0 is one

---
 libff/common/double.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libff/common/double.cpp b/libff/common/double.cpp
index e19671e..8226ad9 100755
--- a/libff/common/double.cpp
+++ b/libff/common/double.cpp
@@ -11,6 +11,7 @@
 
 #include <math.h>
 
+#include <libff/algebra/field_utils/algorithms.hpp>
 #include <libff/algebra/field_utils/bigint.hpp>
 #include <libff/common/double.hpp>
 
@@ -132,12 +133,12 @@ bool Double::operator>(const Double &other) const
 
 Double Double::operator^(const libff::bigint<1> power) const
 {
-    return Double(pow(val, power.as_ulong()));
+    return libff::power<Double>(*this, power);
 }
 
 Double Double::operator^(const size_t power) const
 {
-    return Double(pow(val, power));
+    return libff::power<Double>(*this, power);
 }
 
 Double Double::inverse() const
-- 
2.43.0


From 07484acf6fdd64f902ceeb530063455fe9c726bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 27/28] fix: two's complement of negative numbers in 63 bits
 does not overflow

---
 libff/common/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 90d9f88..7cb744d 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -65,7 +65,7 @@ size_t to_twos_complement(int i, size_t w)
 {
     assert(i >= -(1l<<(w-1)));
     assert(i < (1l<<(w-1)));
-    return (i >= 0) ? i : i + (1L<<w);
+    return (i >= 0) ? i : i + (1UL<<w);
 }
 
 int from_twos_complement(size_t i, size_t w)
-- 
2.43.0


From ce590559432b49ed2d568c3d6a89bb7b2a595337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 28/28] fix: get_root_of_unity refuses orders above 2^63
 without an oversized shift

---
 libff/algebra/field_utils/field_utils.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/field_utils/field_utils.tcc b/libff/algebra/field_utils/field_utils.tcc
index 6c47888..fc63350 100755
--- a/libff/algebra/field_utils/field_utils.tcc
+++ b/libff/algebra/field_utils/field_utils.tcc
@@ -101,7 +101,7 @@ typename std::enable_if<!std::is_same<FieldT, Double>::value, FieldT>::type
 get_root_of_unity(const size_t n)
 {
     const size_t logn = log2(n);
-    if (n != (1ull << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
+    if (!is_power_of_2(n)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
     if (logn > FieldT::s) throw std::invalid_argument("libff::get_root_of_unity: expected logn <= FieldT::s");
 
     FieldT omega = FieldT::root_of_unity;
-- 
2.43.0

