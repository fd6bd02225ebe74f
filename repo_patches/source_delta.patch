From 5caf0aecefc7e17671654c80a4dc5e28f11632e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:37 +0000
Subject: [PATCH 01/68] fix: add_mod_p used the 256-bit offset of q (and read
 past it) when the sum of two reduced values overflows

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 4794df2..19ae52f 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -547,7 +547,7 @@ namespace electionguard
 
             } else {
                 Bignum4096::add(static_cast<uint64_t *>(addResult),
-                                const_cast<uint64_t *>(Q_ARRAY_INVERSE_OFFSET),
+                                const_cast<uint64_t *>(P_ARRAY_INVERSE_OFFSET),
                                 static_cast<uint64_t *>(addResult));
             }
         }
-- 
2.43.0


From 12b5faf40d308d5951a6928016bbafd6428631e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:37 +0000
Subject: [PATCH 02/68] fix: mod_p passed a 64-limb operand where 128 limbs are
 read

---
 src/electionguard/group.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 19ae52f..968145d 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -559,8 +559,11 @@ namespace electionguard
 
     std::unique_ptr<ElementModP> mod_p(const ElementModP &element)
     {
+        // the modulus operation expects an operand of twice the width
+        uint64_t operand[MAX_P_LEN_DOUBLE] = {};
+        copy(element.get(), element.get() + MAX_P_LEN, static_cast<uint64_t *>(operand));
         uint64_t modResult[MAX_P_LEN] = {};
-        CONTEXT_P().mod(element.get(), static_cast<uint64_t *>(modResult));
+        CONTEXT_P().mod(static_cast<uint64_t *>(operand), static_cast<uint64_t *>(modResult));
         return make_unique<ElementModP>(modResult, true);
     }
 
-- 
2.43.0


From b9f9084c4a9ee85735c260e8bb3b981e41a2b3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:37 +0000
Subject: [PATCH 03/68] fix: pow_mod_p ignored the bits of an exponent above
 2^512

---
 src/electionguard/group.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 968145d..339899e 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -605,7 +605,9 @@ namespace electionguard
         }
 
         uint64_t result[MAX_P_LEN] = {};
-        CONTEXT_P().modExp(base.get(), MAX_P_SIZE, exponent.get(), static_cast<uint64_t *>(result));
+        const uint32_t exponentBits = MAX_P_SIZE * 8U;
+        CONTEXT_P().modExp(base.get(), exponentBits, exponent.get(),
+                           static_cast<uint64_t *>(result));
         return make_unique<ElementModP>(result, true);
     }
 
@@ -627,7 +629,11 @@ namespace electionguard
         }
 
         // if none exists, execute the modular exponentiation directly
-        return pow_mod_p(base, *exponent.toElementModP());
+        uint64_t result[MAX_P_LEN] = {};
+        const uint32_t exponentBits = MAX_Q_SIZE * 8U;
+        CONTEXT_P().modExp(base.get(), exponentBits, exponent.get(),
+                           static_cast<uint64_t *>(result));
+        return make_unique<ElementModP>(result, true);
     }
 
     unique_ptr<ElementModP> g_pow_p(const ElementModP &exponent)
-- 
2.43.0


From adea7ccb51062edfc52abe8a3b73b6ab5a6c0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:37 +0000
Subject: [PATCH 04/68] fix: sub_from_q wrapped around modulo 2^256 for values
 above q

---
 src/electionguard/group.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 339899e..d7b9fbc 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -794,10 +794,15 @@ namespace electionguard
     unique_ptr<ElementModQ> sub_from_q(const ElementModQ &a)
     {
         uint64_t result[MAX_Q_LEN] = {};
-        Bignum256::sub(const_cast<ElementModQ &>(Q()).get(), const_cast<ElementModQ &>(a).get(),
-                       static_cast<uint64_t *>(result));
-        // TODO: python version doesn't perform % Q on results,
-        // but we still need to handle the overflow values between (Q, MAX_256]
+        uint64_t borrow =
+          Bignum256::sub(const_cast<ElementModQ &>(Q()).get(), const_cast<ElementModQ &>(a).get(),
+                         static_cast<uint64_t *>(result));
+        // the python version doesn't perform % Q on results,
+        // but values between (Q, MAX_256] would wrap around
+        if (borrow > 0) {
+            Bignum256::add(static_cast<uint64_t *>(result),
+                           const_cast<ElementModQ &>(Q()).get(), static_cast<uint64_t *>(result));
+        }
         return make_unique<ElementModQ>(result, true);
     }
 
-- 
2.43.0


From 14457acb3d635617d1af5b3bf444ccd6c8f22cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 05/68] fix: rand_p read 512 bytes from a 256-byte random
 buffer

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index d7b9fbc..6c137d0 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -808,7 +808,7 @@ namespace electionguard
 
     unique_ptr<ElementModP> rand_p()
     {
-        auto bytes = Random::getBytes();
+        auto bytes = Random::getBytes(SHA512);
 
         auto *bigNum = Bignum4096::fromBytes(MAX_P_SIZE, const_cast<uint8_t *>(bytes.data()));
         if (bigNum == nullptr) {
-- 
2.43.0


From 800f70025924e5d8384ec0d0dc4d0d3f9e174abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 06/68] fix: rand_q cleared five bits of every random value

---
 src/electionguard/group.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 6c137d0..232d447 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -832,9 +832,6 @@ namespace electionguard
             throw bad_alloc();
         }
 
-        // first index of Q cannot cannod exceed 0xFFFFFFFFFFFFFF43
-        bigNum[0] = bigNum[0] & 0xFFFFFFFFFFFFFF43;
-
         uint64_t element[MAX_Q_LEN] = {0};
         memcpy(static_cast<uint64_t *>(element), bigNum, MAX_Q_SIZE);
         free(bigNum);
-- 
2.43.0


From 5f60ec0e74078cc9dcc18d096ab6edf4f8297abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 07/68] fix: constructing an element from too many limbs
 overflowed a stack buffer

---
 src/electionguard/group.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 232d447..ee3fee6 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -114,6 +114,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
+            if (elem.size() > MAX_P_LEN) {
+                throw out_of_range("Value for ElementModP has too many limbs");
+            }
             uint64_t array[MAX_P_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum4096::lessThan(const_cast<uint64_t *>(P().get()),
@@ -275,6 +278,9 @@ namespace electionguard
 
         Impl(const vector<uint64_t> &elem, bool unchecked)
         {
+            if (elem.size() > MAX_Q_LEN) {
+                throw out_of_range("Value for ElementModQ has too many limbs");
+            }
             uint64_t array[MAX_Q_LEN] = {};
             copy(elem.begin(), elem.end(), static_cast<uint64_t *>(array));
             if (!unchecked && Bignum256::lessThan(const_cast<uint64_t *>(Q().get()),
-- 
2.43.0


From 11de270d291d654b8a6a02fce515ff9a1d2df474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 08/68] fix: bytes_to_p and bytes_to_q leaked their copy of the
 input when they threw

---
 src/electionguard/group.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index ee3fee6..184b968 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -460,12 +460,7 @@ namespace electionguard
     unique_ptr<electionguard::ElementModP> bytes_to_p(vector<uint8_t> bytes,
                                                       bool unchecked /* = false */)
     {
-        auto *array = new uint8_t[bytes.size()];
-        copy(bytes.begin(), bytes.end(), array);
-
-        auto element = bytes_to_p(array, bytes.size(), unchecked);
-        delete[] array;
-        return element;
+        return bytes_to_p(bytes.data(), bytes.size(), unchecked);
     }
 
     /// <summary>
@@ -498,12 +493,7 @@ namespace electionguard
     unique_ptr<electionguard::ElementModQ> bytes_to_q(vector<uint8_t> bytes,
                                                       bool unchecked /* = false */)
     {
-        auto *array = new uint8_t[bytes.size()];
-        copy(bytes.begin(), bytes.end(), array);
-
-        auto element = bytes_to_q(array, bytes.size(), unchecked);
-        delete[] array;
-        return element;
+        return bytes_to_q(bytes.data(), bytes.size(), unchecked);
     }
 
 #pragma endregion
-- 
2.43.0


From 04bfa41303d581a5adf0a80969908d7c09f33c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 09/68] fix: fromHex could not read the hexadecimal form of
 zero

---
 src/electionguard/convert.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index e4a0744..719aab5 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -170,7 +170,12 @@ namespace electionguard
     inline string sanitize_hex_string(const string &hexString)
     {
         string sanitized;
-        string leftTrimmed = hexString.substr(hexString.find_first_not_of(LEADING_CHARS));
+        auto firstDigit = hexString.find_first_not_of(LEADING_CHARS);
+        if (firstDigit == string::npos && hexString.find('0') != string::npos) {
+            // the value is zero
+            return "00";
+        }
+        string leftTrimmed = hexString.substr(firstDigit);
         bool isOdd = (leftTrimmed.size() % 2) != 0U;
         if (isOdd) {
             Log::trace("sanitize_hex_string: is odd");
-- 
2.43.0


From b0ea16d021297bca5de1d057256b14f3087fd964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 10/68] fix: hex_to_bytes accepted characters that are not
 hexadecimal digits

---
 src/electionguard/convert.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 719aab5..0eaedc7 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -53,11 +53,19 @@ namespace electionguard
         return static_cast<uint32_t>(size);
     }
 
+    inline void require_hex_digits(const string &digits)
+    {
+        if (digits.find_first_not_of("0123456789abcdefABCDEF") != string::npos) {
+            throw std::invalid_argument("the value is not hexadecimal");
+        }
+    }
+
     inline void hex_to_bytes(const string &hex, uint8_t *bytesOut)
     {
         const size_t baseHex = 16;
         for (size_t i(0); i < hex.size(); i += 2) {
             string byteString = hex.substr(i, 2);
+            require_hex_digits(byteString);
             uint16_t as_int = static_cast<uint16_t>(stoi(byteString, nullptr, baseHex));
             uint8_t byte = static_cast<uint8_t>(as_int);
             bytesOut[i / 2] = byte;
@@ -70,6 +78,7 @@ namespace electionguard
         const size_t baseHex = 16;
         for (size_t i = 0; i < hexString.size(); i += 2) {
             auto byteString = hexString.substr(i, 2);
+            require_hex_digits(byteString);
             uint16_t as_int = static_cast<uint16_t>(stoi(byteString, nullptr, baseHex));
             uint8_t array[sizeof(uint16_t)];
             memmove(&array, &as_int, sizeof(as_int));
-- 
2.43.0


From 3ac4e586b190718ff85c551d7b315f5d5ab4ff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 11/68] fix: elements wiped only an eighth of their value on
 destruction

---
 src/electionguard/group.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 184b968..07b61c1 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -137,7 +137,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_P_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_P_SIZE); };
 
         [[nodiscard]] unique_ptr<ElementModP::Impl> clone() const
         {
@@ -299,7 +299,7 @@ namespace electionguard
             copy(begin(elem), end(elem), begin(data));
         };
 
-        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_Q_LEN); };
+        ~Impl() { Lib_Memzero0_memzero(static_cast<uint64_t *>(data), MAX_Q_SIZE); };
 
         [[nodiscard]] unique_ptr<ElementModQ::Impl> clone() const
         {
-- 
2.43.0


From 4dab1c6d11eecd73d51b724078a0276dae89c300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:58 +0000
Subject: [PATCH 12/68] fix: cloning an element above q threw

---
 src/electionguard/group.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 07b61c1..fe4d720 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -419,7 +419,7 @@ namespace electionguard
 
     std::unique_ptr<ElementModQ> ElementModQ::clone() const
     {
-        return make_unique<ElementModQ>(pimpl->data);
+        return make_unique<ElementModQ>(pimpl->data, true);
     }
 
 #pragma endregion
-- 
2.43.0


From 442bd17024a6a6ec2fa18e771206ce8c6026c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 13/68] fix: ElementModP::toHex raced on its cached text when
 an element is shared between threads

---
 src/electionguard/group.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index fe4d720..59c6a2b 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -15,6 +15,7 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <mutex>
 #include <random>
 #include <sstream>
 #include <stdexcept>
@@ -24,11 +25,13 @@ using hacl::Bignum256;
 using hacl::Bignum4096;
 using hacl::CONTEXT_P;
 using hacl::CONTEXT_Q;
+using std::call_once;
 using std::copy;
 using std::get;
 using std::holds_alternative;
 using std::invalid_argument;
 using std::make_unique;
+using std::once_flag;
 using std::out_of_range;
 using std::overflow_error;
 using std::reference_wrapper;
@@ -111,6 +114,7 @@ namespace electionguard
         bool isFixedBase = false;
         uint64_t data[MAX_P_LEN] = {};
         string hexRepresentation;
+        once_flag hexComputed;
 
         Impl(const vector<uint64_t> &elem, bool unchecked, bool fixedBase)
         {
@@ -158,9 +162,8 @@ namespace electionguard
 
         bool operator<(const Impl &other)
         {
-            auto other_ = other;
             return Bignum4096::lessThan(static_cast<uint64_t *>(data),
-                                        static_cast<uint64_t *>(other_.data)) > 0;
+                                        const_cast<uint64_t *>(other.data)) > 0;
         }
     };
 
@@ -228,16 +231,15 @@ namespace electionguard
 
     string ElementModP::toHex() const
     {
-        if (!pimpl->hexRepresentation.empty()) {
-            return pimpl->hexRepresentation;
-        }
-
-        // Returned bytes array from Hacl needs to be pre-allocated to 512 bytes
-        uint8_t byteResult[MAX_P_SIZE] = {};
-        // Use Hacl to convert the bignum to byte array
-        Bignum4096::toBytes(static_cast<uint64_t *>(pimpl->data),
-                            static_cast<uint8_t *>(byteResult));
-        pimpl->hexRepresentation = bytes_to_hex(byteResult);
+        // elements are shared between threads, compute the representation once
+        call_once(pimpl->hexComputed, [this]() {
+            // Returned bytes array from Hacl needs to be pre-allocated to 512 bytes
+            uint8_t byteResult[MAX_P_SIZE] = {};
+            // Use Hacl to convert the bignum to byte array
+            Bignum4096::toBytes(static_cast<uint64_t *>(pimpl->data),
+                                static_cast<uint8_t *>(byteResult));
+            pimpl->hexRepresentation = bytes_to_hex(byteResult);
+        });
         return pimpl->hexRepresentation;
     }
 
-- 
2.43.0


From fd9306d38bf3345331f01642570cb4bac8a090c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:59 +0000
Subject: [PATCH 14/68] fix: the fixed base table cache was modified by several
 threads without a lock

---
 src/electionguard/lookup_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/lookup_table.hpp b/src/electionguard/lookup_table.hpp
index 00237a0..d9b21d8 100644
--- a/src/electionguard/lookup_table.hpp
+++ b/src/electionguard/lookup_table.hpp
@@ -166,14 +166,14 @@ namespace electionguard
         {
             LookupTableType *public_key_table = NULL;
             {
-                getInstance().task_lock.wait();
+                std::lock_guard<std::mutex> lock(getInstance().key_map_lock);
                 public_key_table = getInstance().getBaseLookupTable(key, base);
             }
             return public_key_table->pow_mod_p(exponent);
         }
 
       private:
-        AsyncSemaphore task_lock;
+        std::mutex key_map_lock;
         std::map<string, std::unique_ptr<LookupTableType>> key_map;
 
         LookupTableType *getBaseLookupTable(const string key, uint64_t (&base)[MAX_P_LEN])
-- 
2.43.0


From 4c91b36694b9cf6ee4a3649d65f64b37a2e43bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:19 +0000
Subject: [PATCH 15/68] fix: get_hmac took the address of the first byte of an
 empty key or message

---
 src/electionguard/hmac.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/hmac.cpp b/src/electionguard/hmac.cpp
index a16f231..78b3407 100644
--- a/src/electionguard/hmac.cpp
+++ b/src/electionguard/hmac.cpp
@@ -36,9 +36,9 @@ namespace electionguard
         }
 
         // calculate the hmac and then zeroize the buffer holding the data we hmaced
-        Hacl_HMAC_compute_sha2_256(&hmac.front(), &key.front(), key.size(), &data_to_hmac.front(),
+        Hacl_HMAC_compute_sha2_256(hmac.data(), key.data(), key.size(), data_to_hmac.data(),
                                    data_to_hmac.size());
-        Lib_Memzero0_memzero(&data_to_hmac.front(), data_to_hmac.size());
+        Lib_Memzero0_memzero(data_to_hmac.data(), data_to_hmac.size());
 
         return hmac;
     }
-- 
2.43.0


From 5295dfbda4afb0285eaaeb7288e26d804ea6baec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 16/68] fix: ElGamalCiphertext::decrypt answered 0 when it
 could not decrypt

---
 src/electionguard/elgamal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index eb2e1c6..2955b68 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -170,7 +170,7 @@ namespace electionguard
                                             secret->get(), static_cast<uint64_t *>(divisor));
         if (!success) {
             Log::warn("could not calculate mod exp");
-            return 0;
+            return MAX_UINT64;
         }
 
         uint64_t inverse[MAX_P_LEN] = {};
@@ -186,7 +186,7 @@ namespace electionguard
                                       static_cast<uint64_t *>(result));
         if (!success) {
             Log::warn("could not calculate mod");
-            return 0;
+            return MAX_UINT64;
         }
 
         // TODO: ISSUE #133: traverse a discrete_log lookup to find the result
-- 
2.43.0


From c32d9b97f2f6f3a8ccf0b59d08f729b24ed3ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:20 +0000
Subject: [PATCH 17/68] fix: elgamalEncrypt encrypted 0 for every message above
 1

---
 src/electionguard/elgamal.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index 2955b68..d00a316 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -223,6 +223,8 @@ namespace electionguard
         unique_ptr<ElementModP> data = nullptr;
         if (m == 1) {
             data = mul_mod_p(G(), *pubkey_pow_n);
+        } else if (m > 1) {
+            data = mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), *pubkey_pow_n);
         } else {
             data = move(pubkey_pow_n);
         }
@@ -243,6 +245,10 @@ namespace electionguard
         if (m == 1) {
             unique_ptr<ElementModP> temp = mul_mod_p(G(), pubkey_to_rho);
             data = *temp;
+        } else if (m > 1) {
+            unique_ptr<ElementModP> temp =
+              mul_mod_p(*g_pow_p(*ElementModQ::fromUint64(m)), pubkey_to_rho);
+            data = *temp;
         }
 
         Log::trace("Generated Encryption with Precomputed Values");
-- 
2.43.0


From ffd873015d795aa8a183d1d23af5ff889e164dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:08 +0000
Subject: [PATCH 18/68] fix: cloning a disjunctive proof replaced its fourth
 commitment

---
 src/electionguard/chaum_pedersen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/chaum_pedersen.cpp b/src/electionguard/chaum_pedersen.cpp
index 6d665a3..61e4997 100644
--- a/src/electionguard/chaum_pedersen.cpp
+++ b/src/electionguard/chaum_pedersen.cpp
@@ -295,7 +295,7 @@ namespace electionguard
     {
         return make_unique<DisjunctiveChaumPedersenProof>(
           pimpl->proof_zero_pad->clone(), pimpl->proof_zero_data->clone(),
-          pimpl->proof_one_pad->clone(), pimpl->proof_one_pad->clone(),
+          pimpl->proof_one_pad->clone(), pimpl->proof_one_data->clone(),
           pimpl->proof_zero_challenge->clone(), pimpl->proof_one_challenge->clone(),
           pimpl->challenge->clone(), pimpl->proof_zero_response->clone(),
           pimpl->proof_one_response->clone());
-- 
2.43.0


From a5b7a624f8b02d98280ee516deab37bd20b980f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:08 +0000
Subject: [PATCH 19/68] fix: copying a key pair emptied the one it was copied
 from

---
 src/electionguard/elgamal.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/elgamal.cpp b/src/electionguard/elgamal.cpp
index d00a316..a5bdf60 100644
--- a/src/electionguard/elgamal.cpp
+++ b/src/electionguard/elgamal.cpp
@@ -34,12 +34,17 @@ namespace electionguard
 
         unique_ptr<ElementModQ> secretKey;
         unique_ptr<ElementModP> publicKey;
+
+        [[nodiscard]] unique_ptr<ElGamalKeyPair::Impl> clone() const
+        {
+            return make_unique<ElGamalKeyPair::Impl>(secretKey->clone(), publicKey->clone());
+        }
     };
 
     // Lifecycle Methods
 
     ElGamalKeyPair::ElGamalKeyPair(const ElGamalKeyPair &other)
-        : pimpl(new Impl(move(*other.pimpl)))
+        : pimpl(other.pimpl->clone())
     {
     }
 
-- 
2.43.0


From 6df6e408422bbf71599f8400a15f0eeb338fb03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:13 +0000
Subject: [PATCH 20/68] fix: copying a contest description lost its votes
 allowed, and crashed without a subtitle

---
 src/electionguard/manifest.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index e26e8fc..cd26bb0 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1093,17 +1093,16 @@ namespace electionguard
                 _selections.push_back(make_unique<SelectionDescription>(*element));
             }
 
-            // TODO: handle optional values
-            if (ballotTitle != nullptr) {
-                auto _ballotTitle = make_unique<InternationalizedText>(*ballotTitle);
-                auto _ballotSubtitle = make_unique<InternationalizedText>(*ballotSubtitle);
-                return make_unique<ContestDescription::Impl>(
-                  object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
-                  votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections));
-            }
-            return make_unique<ContestDescription::Impl>(object_id, electoralDistrictId,
-                                                         sequenceOrder, voteVariation,
-                                                         numberElected, name, move(_selections));
+            auto _ballotTitle = ballotTitle != nullptr
+                                  ? make_unique<InternationalizedText>(*ballotTitle)
+                                  : nullptr;
+            auto _ballotSubtitle = ballotSubtitle != nullptr
+                                     ? make_unique<InternationalizedText>(*ballotSubtitle)
+                                     : nullptr;
+            return make_unique<ContestDescription::Impl>(
+              object_id, electoralDistrictId, sequenceOrder, voteVariation, numberElected,
+              votesAllowed, name, move(_ballotTitle), move(_ballotSubtitle), move(_selections),
+              primaryPartyIds);
         }
 
         [[nodiscard]] unique_ptr<ElementModQ> crypto_hash() const
-- 
2.43.0


From 6ec33596800abea4338a718c3f57be2c6dd7a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:13 +0000
Subject: [PATCH 21/68] fix: the hash of a contest description crashed without
 a subtitle, and ignored a subtitle without a title

---
 src/electionguard/manifest.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index cd26bb0..a381fc7 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1113,18 +1113,16 @@ namespace electionguard
                 selectionRefs.push_back(ref<CryptoHashable>(*selection));
             }
 
-            // TODO: handle optional values
+            CryptoHashableType title = nullptr;
             if (ballotTitle != nullptr) {
-                auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                        getVoteVariationTypeString(voteVariation),
-                                        ref<CryptoHashable>(*ballotTitle),
-                                        ref<CryptoHashable>(*ballotSubtitle), name, numberElected,
-                                        votesAllowed, selectionRefs});
-                Log::trace("ContestDescription", hash.get());
-                return hash;
+                title = ref<CryptoHashable>(*ballotTitle);
+            }
+            CryptoHashableType subtitle = nullptr;
+            if (ballotSubtitle != nullptr) {
+                subtitle = ref<CryptoHashable>(*ballotSubtitle);
             }
             auto hash = hash_elems({object_id, sequenceOrder, electoralDistrictId,
-                                    getVoteVariationTypeString(voteVariation), nullptr, nullptr,
+                                    getVoteVariationTypeString(voteVariation), title, subtitle,
                                     name, numberElected, votesAllowed, selectionRefs});
             Log::trace("ContestDescription", hash.get());
             return hash;
-- 
2.43.0


From e7cca6b3a6424211da55e03a7467abc64d49841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:13 +0000
Subject: [PATCH 22/68] fix: the manifest hash crashed without contact
 information, and ignored it without a name

---
 src/electionguard/manifest.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index a381fc7..554b212 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1520,21 +1520,20 @@ namespace electionguard
                 ballotStyleRefs.push_back(ref<CryptoHashable>(*element));
             }
 
-            // TODO: handle other optional cases
-            if (name == nullptr) {
-                auto hash = hash_elems(
-                  {electionScopeId, getElectionTypeString(type), timePointToIsoString(startDate),
-                   timePointToIsoString(endDate), nullptr, nullptr, geopoliticalUnitRefs, partyRefs,
-                   contestRefs, ballotStyleRefs});
-                Log::trace("Manifest:: NO NAME!", hash->toHex());
-                return hash;
+            CryptoHashableType nameRef = nullptr;
+            if (name != nullptr) {
+                nameRef = ref<CryptoHashable>(*name);
+            }
+            CryptoHashableType contactRef = nullptr;
+            if (contactInformation != nullptr) {
+                contactRef = ref<CryptoHashable>(*contactInformation);
             }
 
             auto hash =
               hash_elems({electionScopeId, getElectionTypeString(type),
-                          timePointToIsoString(startDate), timePointToIsoString(endDate),
-                          ref<CryptoHashable>(*name), ref<CryptoHashable>(*contactInformation),
-                          geopoliticalUnitRefs, partyRefs, contestRefs, ballotStyleRefs});
+                          timePointToIsoString(startDate), timePointToIsoString(endDate), nameRef,
+                          contactRef, geopoliticalUnitRefs, partyRefs, contestRefs,
+                          ballotStyleRefs});
 
             Log::trace("Manifest", hash->toHex());
             return hash;
-- 
2.43.0


From 9f94a4d28032b449b5aec5bac0a7f8680114656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:13 +0000
Subject: [PATCH 23/68] fix: reading a manifest lost the contact information
 when it has no name

---
 src/electionguard/serialize.hpp | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 3f96141..d91de9b 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -550,22 +550,19 @@ namespace electionguard
                 auto contests = contestDescriptionsFromJson(j["contests"]);
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
 
-                // TODO: just a stub for now.
-                // we need to handle all of the otpional serilization cases.
-                if (j.contains("name") && !j["name"].is_null()) {
-                    auto name = internationalizedTextFromJson(j["name"]);
-                    auto contactInformation = contactInformationFromJson(j["contact_information"]);
-
-                    return make_unique<electionguard::Manifest>(
-                      electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
-                      timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                      move(candidates), move(contests), move(ballotStyles), move(name),
-                      move(contactInformation));
-                }
+                auto name = j.contains("name") && !j["name"].is_null()
+                              ? internationalizedTextFromJson(j["name"])
+                              : nullptr;
+                auto contactInformation =
+                  j.contains("contact_information") && !j["contact_information"].is_null()
+                    ? contactInformationFromJson(j["contact_information"])
+                    : nullptr;
+
                 return make_unique<electionguard::Manifest>(
                   electionScopeId, getElectionType(type), timePointFromIsoString(startDate),
                   timePointFromIsoString(endDate), move(geopoliticalUnits), move(parties),
-                  move(candidates), move(contests), move(ballotStyles));
+                  move(candidates), move(contests), move(ballotStyles), move(name),
+                  move(contactInformation));
             }
 
           public:
-- 
2.43.0


From bcc0da38bd7938cb232009ff0c40cd46316d087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 24/68] fix: contact information without a name could not be
 read

---
 include/electionguard/manifest.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/electionguard/manifest.hpp b/include/electionguard/manifest.hpp
index 733b693..d24c686 100644
--- a/include/electionguard/manifest.hpp
+++ b/include/electionguard/manifest.hpp
@@ -252,14 +252,14 @@ namespace electionguard
         ContactInformation(ContactInformation &&other);
         explicit ContactInformation(std::string name);
         explicit ContactInformation(std::vector<std::string> addressLine,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         explicit ContactInformation(std::vector<std::string> addressLine,
                                     std::vector<std::unique_ptr<AnnotatedString>> email,
                                     std::vector<std::unique_ptr<AnnotatedString>> phone,
-                                    std::string name = nullptr);
+                                    std::string name = "");
         ~ContactInformation();
 
         ContactInformation &operator=(ContactInformation other);
-- 
2.43.0


From de475a1a73eadcf37fcbe612dbe968cd7e708064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 25/68] fix: empty contact information was serialised as
 missing

---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index d91de9b..7f835a1 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -79,7 +79,7 @@ namespace electionguard
 
     static json contactInformationToJson(const ContactInformation &serializable)
     {
-        json serialized = {};
+        json serialized = json::object();
 
         if (!serializable.getName().empty()) {
             serialized["name"] = serializable.getName();
-- 
2.43.0


From 799e3797eb73c71f1ed61f6368e7ed073ddde454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 26/68] fix: a contest allowing zero votes was read back as
 allowing the number elected

---
 src/electionguard/serialize.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 7f835a1..8c416dc 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -422,9 +422,7 @@ namespace electionguard
         serialized["vote_variation"] = getVoteVariationTypeString(serializable.getVoteVariation());
         serialized["number_elected"] = serializable.getNumberElected();
 
-        if (serializable.getVotesAllowed() > 0) {
-            serialized["votes_allowed"] = serializable.getVotesAllowed();
-        }
+        serialized["votes_allowed"] = serializable.getVotesAllowed();
 
         serialized["name"] = serializable.getName();
 
-- 
2.43.0


From 69144db4a0f390912a3cd57dbb813054a4d96945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 27/68] fix: a candidate without a name had another hash after
 reading it back

---
 src/electionguard/manifest.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 554b212..fa83df2 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -808,25 +808,27 @@ namespace electionguard
         string imageUri;
         bool isWriteIn;
 
-        explicit Impl(const string &objectId, bool isWriteIn)
+        void init(const string &objectId, bool isWriteIn)
         {
             this->object_id = objectId;
             this->isWriteIn = isWriteIn;
+            vector<unique_ptr<Language>> text;
+            this->name = make_unique<InternationalizedText>(move(text));
         }
 
+        explicit Impl(const string &objectId, bool isWriteIn) { init(objectId, isWriteIn); }
+
         explicit Impl(const string &objectId, const string &partyId, bool isWriteIn)
             : partyId(partyId)
         {
-            this->object_id = objectId;
-            this->isWriteIn = isWriteIn;
+            init(objectId, isWriteIn);
         }
 
         explicit Impl(const string &objectId, const string &partyId, const string &imageUri,
                       bool isWriteIn)
             : partyId(partyId), imageUri(imageUri)
         {
-            this->object_id = objectId;
-            this->isWriteIn = isWriteIn;
+            init(objectId, isWriteIn);
         }
 
         explicit Impl(const string &objectId, unique_ptr<InternationalizedText> name,
-- 
2.43.0


From 0aefbde43a63a40eb10f62b989d4f8b0dc01f721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 28/68] fix: an internal manifest with ballot titles or votes
 allowed was not read back as written

---
 src/electionguard/serialize.hpp | 46 ++++++++++++++-------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 8c416dc..2acb6f8 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -624,14 +624,13 @@ namespace electionguard
                       {"ballot_placeholders", placeholders}};
 
                     if (contest.get().getBallotTitle() != nullptr) {
-                        contest_json["ballot_title"] = {
-                          {"text", internationalizedTextToJson(*contest.get().getBallotTitle())}};
+                        contest_json["ballot_title"] =
+                          internationalizedTextToJson(*contest.get().getBallotTitle());
                     }
 
                     if (contest.get().getBallotSubtitle() != nullptr) {
-                        contest_json["ballot_subtitle"] = {
-                          {"text",
-                           internationalizedTextToJson(*contest.get().getBallotSubtitle())}};
+                        contest_json["ballot_subtitle"] =
+                          internationalizedTextToJson(*contest.get().getBallotSubtitle());
                     }
 
                     contests.push_back(contest_json);
@@ -671,28 +670,21 @@ namespace electionguard
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
 
-                    // TODO: ust a stub for now.
-                    // we need to handle all of the otpional serilization cases.
-                    if (contest.contains("ballot_title") && !contest["ballot_title"].is_null()) {
-                        auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
-                        auto ballotTitle = internationalizedTextFromJson(contest["ballot_title"]);
-                        auto ballotSubtitle =
-                          internationalizedTextFromJson(contest["ballot_subtitle"]);
-
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, votes_allowed,
-                            name, move(ballotTitle), move(ballotSubtitle), move(selections),
-                            move(placeholders)));
-
-                    } else {
-                        contestDescriptions.push_back(
-                          make_unique<ContestDescriptionWithPlaceholders>(
-                            contest_object_id, electoral_district_id, contest_sequence_order,
-                            getVoteVariationType(vote_variation), number_elected, name,
-                            move(selections), move(placeholders)));
-                    }
+                    auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
+                    auto ballotTitle =
+                      contest.contains("ballot_title") && !contest["ballot_title"].is_null()
+                        ? internationalizedTextFromJson(contest["ballot_title"])
+                        : nullptr;
+                    auto ballotSubtitle =
+                      contest.contains("ballot_subtitle") && !contest["ballot_subtitle"].is_null()
+                        ? internationalizedTextFromJson(contest["ballot_subtitle"])
+                        : nullptr;
+
+                    contestDescriptions.push_back(make_unique<ContestDescriptionWithPlaceholders>(
+                      contest_object_id, electoral_district_id, contest_sequence_order,
+                      getVoteVariationType(vote_variation), number_elected, votes_allowed, name,
+                      move(ballotTitle), move(ballotSubtitle), move(selections),
+                      move(placeholders)));
                 }
 
                 auto ballotStyles = ballotStylesFromJson(j["ballot_styles"]);
-- 
2.43.0


From 65c1ca6d80ffa2eae64ceeef3993a8695eca76de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 29/68] fix: placeholder sequence orders were truncated to 32
 bits

---
 src/electionguard/manifest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index fa83df2..bf2e7c1 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1995,7 +1995,7 @@ namespace electionguard
 
             vector<unique_ptr<SelectionDescription>> placeholders;
             placeholders.reserve(contest.get().getNumberElected());
-            uint32_t maxSequenceOrder = 0;
+            uint64_t maxSequenceOrder = 0;
             for (const auto &selection : contest.get().getSelections()) {
                 auto sequenceOrder = selection.get().getSequenceOrder();
                 if (sequenceOrder > maxSequenceOrder) {
-- 
2.43.0


From 926e0dbc4b6d00031f82c31a403ec4657c64e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 30/68] fix: getContestsFor returned a contest twice when a
 style lists its unit twice

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index bf2e7c1..8f9fde7 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1943,6 +1943,7 @@ namespace electionguard
             for (const auto &gpUnitId : style->getGeopoliticalUnitIds()) {
                 if (reference->getElectoralDistrictId() == gpUnitId) {
                     contests.push_back(ref(*reference));
+                    break;
                 }
             }
         }
-- 
2.43.0


From 91578c716c55b13c015e1bf0c91754499df88c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 31/68] fix: compact ballots were read with quotes added to
 their write-ins

---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 2acb6f8..d52229b 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1005,7 +1005,7 @@ namespace electionguard
 
                 vector<string> writeins;
                 for (auto &writein_json : in_writeins) {
-                    writeins.push_back(writein_json.dump());
+                    writeins.push_back(writein_json.get<string>());
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-- 
2.43.0


From 4c6e6f8e63a6915fbcd435c46c3cb096d2c5a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 32/68] fix: a compact ballot without selections could not be
 read

---
 src/electionguard/serialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index d52229b..1b67ca9 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1009,7 +1009,7 @@ namespace electionguard
                 }
 
                 return make_unique<electionguard::CompactPlaintextBallot>(
-                  object_id, style_id, move(selections), move(writeins));
+                  object_id, style_id, move(votes), move(writeins));
             }
 
           public:
-- 
2.43.0


From 8e35efff062800e148b589465bdb094a8e8e2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:43 +0000
Subject: [PATCH 33/68] fix: serialising a ballot dropped the leading zero
 bytes of the encrypted extended data and its tag

---
 src/electionguard/convert.hpp   | 11 +++++++++++
 src/electionguard/serialize.hpp | 11 ++++-------
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 0eaedc7..09fe62b 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -213,6 +213,17 @@ namespace electionguard
         return detectedFirstNonZeroBytes ? (stream.str()) : "00";
     }
 
+    /// Convert bytes to hex, two digits for each byte including any initial 0-bytes
+    inline string bytes_to_padded_hex(const vector<uint8_t> &bytes)
+    {
+        stringstream stream;
+        stream << hex << uppercase << setfill('0');
+        for (auto byte : bytes) {
+            stream << setw(2) << static_cast<uint16_t>(byte);
+        }
+        return stream.str();
+    }
+
     template <typename T, size_t S> string bytes_to_hex(T (&data)[S])
     {
         vector<T> vec(begin(data), end(data));
diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 1b67ca9..9e315a8 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1097,8 +1097,8 @@ namespace electionguard
                     auto e = contest.get().getHashedElGamalCiphertext();
                     json extended_data = {
                       {"pad", e->getPad()->toHex()},
-                      {"data", bytes_to_hex(e->getData())},
-                      {"mac", bytes_to_hex(e->getMac())},
+                      {"data", bytes_to_padded_hex(e->getData())},
+                      {"mac", bytes_to_padded_hex(e->getMac())},
                     };
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
@@ -1167,14 +1167,11 @@ namespace electionguard
                     auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
                     auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
 
-                    auto hashed_el_gamal_data_sanitized = sanitize_hex_string(hashed_el_gamal_data);
-                    auto hashed_el_gamal_mac_sanitized = sanitize_hex_string(hashed_el_gamal_mac);
-
                     auto deserializedHashedElGamal =
                       make_unique<electionguard::HashedElGamalCiphertext>(
                         ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data_sanitized),
-                        hex_to_bytes(hashed_el_gamal_mac_sanitized));
+                        hex_to_bytes(hashed_el_gamal_data),
+                        hex_to_bytes(hashed_el_gamal_mac));
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From efc1be72bab67cb482d1d66ce2cc3ce52db1159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:04 +0000
Subject: [PATCH 34/68] fix: reading a manifest with a missing member was
 undefined instead of an error

---
 src/electionguard/serialize.hpp | 124 ++++++++++++++++----------------
 1 file changed, 64 insertions(+), 60 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 9e315a8..5941358 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -40,8 +40,8 @@ namespace electionguard
 
     static unique_ptr<AnnotatedString> annotatedStringFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto annotation = j["annotation"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto annotation = j.at("annotation").get<string>();
         return make_unique<AnnotatedString>(annotation, value);
     }
 
@@ -52,8 +52,8 @@ namespace electionguard
 
     static unique_ptr<Language> languageFromJson(const json &j)
     {
-        auto value = j["value"].get<string>();
-        auto language = j["language"].get<string>();
+        auto value = j.at("value").get<string>();
+        auto language = j.at("language").get<string>();
         return make_unique<Language>(value, language);
     }
 
@@ -69,8 +69,8 @@ namespace electionguard
     static unique_ptr<InternationalizedText> internationalizedTextFromJson(const json &j)
     {
         vector<unique_ptr<Language>> text;
-        if (j.contains("text") && !j["text"].is_null()) {
-            for (const auto &i : j["text"]) {
+        if (j.contains("text") && !j.at("text").is_null()) {
+            for (const auto &i : j.at("text")) {
                 text.push_back(languageFromJson(i));
             }
         }
@@ -114,29 +114,29 @@ namespace electionguard
     static unique_ptr<ContactInformation> contactInformationFromJson(const json &j)
     {
         vector<string> addressLine;
-        if (j.contains("address_line") && !j["address_line"].is_null()) {
-            for (const auto &i : j["address_line"]) {
+        if (j.contains("address_line") && !j.at("address_line").is_null()) {
+            for (const auto &i : j.at("address_line")) {
                 addressLine.push_back(i.get<string>());
             }
         }
 
         vector<unique_ptr<AnnotatedString>> email;
-        if (j.contains("email") && !j["email"].is_null()) {
-            for (const auto &i : j["email"]) {
+        if (j.contains("email") && !j.at("email").is_null()) {
+            for (const auto &i : j.at("email")) {
                 email.push_back(annotatedStringFromJson(i));
             }
         }
 
         vector<unique_ptr<AnnotatedString>> phone;
-        if (j.contains("phone") && !j["phone"].is_null()) {
-            for (const auto &i : j["phone"]) {
+        if (j.contains("phone") && !j.at("phone").is_null()) {
+            for (const auto &i : j.at("phone")) {
                 phone.push_back(annotatedStringFromJson(i));
             }
         }
 
-        if (j.contains("name") && !j["name"].is_null()) {
+        if (j.contains("name") && !j.at("name").is_null()) {
             return make_unique<ContactInformation>(move(addressLine), move(email), move(phone),
-                                                   j["name"].get<string>());
+                                                   j.at("name").get<string>());
         }
         return make_unique<ContactInformation>(move(addressLine), move(email), move(phone));
     }
@@ -158,14 +158,15 @@ namespace electionguard
 
     static unique_ptr<GeopoliticalUnit> geopoliticalUnitFromJson(const json &j)
     {
-        if (j.contains("contact_information") && !j["contact_information"].is_null()) {
+        if (j.contains("contact_information") && !j.at("contact_information").is_null()) {
             return make_unique<GeopoliticalUnit>(
-              j["object_id"].get<string>(), j["name"].get<string>(),
-              getReportingUnitType(j["type"].get<string>()),
-              contactInformationFromJson(j["contact_information"]));
+              j.at("object_id").get<string>(), j.at("name").get<string>(),
+              getReportingUnitType(j.at("type").get<string>()),
+              contactInformationFromJson(j.at("contact_information")));
         }
-        return make_unique<GeopoliticalUnit>(j["object_id"].get<string>(), j["name"].get<string>(),
-                                             getReportingUnitType(j["type"].get<string>()));
+        return make_unique<GeopoliticalUnit>(j.at("object_id").get<string>(),
+                                             j.at("name").get<string>(),
+                                             getReportingUnitType(j.at("type").get<string>()));
     }
 
     static json
@@ -217,20 +218,20 @@ namespace electionguard
         string abbreviation;
         string color;
         string logo_uri;
-        if (j.contains("abbreviation") && !j["abbreviation"].is_null()) {
-            abbreviation = j["abbreviation"].get<string>();
+        if (j.contains("abbreviation") && !j.at("abbreviation").is_null()) {
+            abbreviation = j.at("abbreviation").get<string>();
         }
-        if (j.contains("color") && !j["color"].is_null()) {
-            color = j["color"].get<string>();
+        if (j.contains("color") && !j.at("color").is_null()) {
+            color = j.at("color").get<string>();
         }
-        if (j.contains("logo_uri") && !j["logo_uri"].is_null()) {
-            logo_uri = j["logo_uri"].get<string>();
+        if (j.contains("logo_uri") && !j.at("logo_uri").is_null()) {
+            logo_uri = j.at("logo_uri").get<string>();
         }
-        auto name = j.contains("name") && !j["name"].is_null()
-                      ? internationalizedTextFromJson(j["name"])
+        auto name = j.contains("name") && !j.at("name").is_null()
+                      ? internationalizedTextFromJson(j.at("name"))
                       : internationalizedTextFromJson(json("{}"));
 
-        return make_unique<Party>(j["object_id"].get<string>(), move(name), abbreviation, color,
+        return make_unique<Party>(j.at("object_id").get<string>(), move(name), abbreviation, color,
                                   logo_uri);
     }
 
@@ -279,17 +280,19 @@ namespace electionguard
 
     static unique_ptr<Candidate> candidateFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
-        auto name = j.contains("name") && !j["name"].is_null()
-                      ? internationalizedTextFromJson(j["name"])
+        auto objectId = j.at("object_id").get<string>();
+        auto name = j.contains("name") && !j.at("name").is_null()
+                      ? internationalizedTextFromJson(j.at("name"))
                       : internationalizedTextFromJson("{}");
-        bool isWriteIn = j.contains("is_write_in") && !j["is_write_in"].is_null()
-                           ? j["is_write_in"].get<bool>()
+        bool isWriteIn = j.contains("is_write_in") && !j.at("is_write_in").is_null()
+                           ? j.at("is_write_in").get<bool>()
                            : false;
-        auto partyId =
-          j.contains("party_id") && !j["party_id"].is_null() ? j["party_id"].get<string>() : "";
-        auto imageUri =
-          j.contains("image_uri") && !j["image_uri"].is_null() ? j["image_uri"].get<string>() : "";
+        auto partyId = j.contains("party_id") && !j.at("party_id").is_null()
+                         ? j.at("party_id").get<string>()
+                         : "";
+        auto imageUri = j.contains("image_uri") && !j.at("image_uri").is_null()
+                          ? j.at("image_uri").get<string>()
+                          : "";
 
         return make_unique<Candidate>(objectId, move(name), partyId, imageUri, isWriteIn);
     }
@@ -343,20 +346,21 @@ namespace electionguard
     static unique_ptr<BallotStyle> ballotStyleFromJson(const json &j)
     {
         vector<string> gpUnitIds;
-        for (const auto &element : j["geopolitical_unit_ids"]) {
+        for (const auto &element : j.at("geopolitical_unit_ids")) {
             gpUnitIds.push_back(element);
         }
 
         vector<string> partyIds;
-        if (j.contains("party_ids") && !j["party_ids"].is_null()) {
-            for (const auto &element : j["party_ids"]) {
+        if (j.contains("party_ids") && !j.at("party_ids").is_null()) {
+            for (const auto &element : j.at("party_ids")) {
                 partyIds.push_back(element);
             }
         }
 
-        auto imageUri =
-          j.contains("image_uri") && !j["image_uri"].is_null() ? j["image_uri"].get<string>() : "";
-        return make_unique<BallotStyle>(j["object_id"].get<string>(), gpUnitIds, partyIds,
+        auto imageUri = j.contains("image_uri") && !j.at("image_uri").is_null()
+                          ? j.at("image_uri").get<string>()
+                          : "";
+        return make_unique<BallotStyle>(j.at("object_id").get<string>(), gpUnitIds, partyIds,
                                         imageUri);
     }
 
@@ -389,9 +393,9 @@ namespace electionguard
 
     static unique_ptr<SelectionDescription> selectionDescriptionFromJson(const json &j)
     {
-        return make_unique<SelectionDescription>(j["object_id"].get<string>(),
-                                                 j["candidate_id"].get<string>(),
-                                                 j["sequence_order"].get<uint64_t>());
+        return make_unique<SelectionDescription>(j.at("object_id").get<string>(),
+                                                 j.at("candidate_id").get<string>(),
+                                                 j.at("sequence_order").get<uint64_t>());
     }
 
     static json
@@ -443,26 +447,26 @@ namespace electionguard
 
     static unique_ptr<ContestDescription> contestDescriptionFromJson(const json &j)
     {
-        auto objectId = j["object_id"].get<string>();
-        auto electoralDistrictId = j["electoral_district_id"].get<string>();
-        auto sequenceOrder = j["sequence_order"].get<uint64_t>();
-        auto variation = getVoteVariationType(j["vote_variation"].get<string>());
-        auto elected = j["number_elected"].get<uint64_t>();
+        auto objectId = j.at("object_id").get<string>();
+        auto electoralDistrictId = j.at("electoral_district_id").get<string>();
+        auto sequenceOrder = j.at("sequence_order").get<uint64_t>();
+        auto variation = getVoteVariationType(j.at("vote_variation").get<string>());
+        auto elected = j.at("number_elected").get<uint64_t>();
         auto allowed =
-          j.contains("votes_allowed") && !j["votes_allowed"].is_null()
-            ? j["votes_allowed"].get<uint64_t>()
+          j.contains("votes_allowed") && !j.at("votes_allowed").is_null()
+            ? j.at("votes_allowed").get<uint64_t>()
           : variation == VoteVariationType::n_of_m || variation == VoteVariationType::one_of_m
             ? elected
             : 0;
-        auto name = j["name"].get<string>();
-        auto title = j.contains("ballot_title") && !j["ballot_title"].is_null()
-                       ? internationalizedTextFromJson(j["ballot_title"])
+        auto name = j.at("name").get<string>();
+        auto title = j.contains("ballot_title") && !j.at("ballot_title").is_null()
+                       ? internationalizedTextFromJson(j.at("ballot_title"))
                        : nullptr;
-        auto subtitle = j.contains("ballot_subtitle") && !j["ballot_subtitle"].is_null()
-                          ? internationalizedTextFromJson(j["ballot_subtitle"])
+        auto subtitle = j.contains("ballot_subtitle") && !j.at("ballot_subtitle").is_null()
+                          ? internationalizedTextFromJson(j.at("ballot_subtitle"))
                           : nullptr;
 
-        auto selections = selectionDescriptionsFromJson(j["ballot_selections"]);
+        auto selections = selectionDescriptionsFromJson(j.at("ballot_selections"));
 
         return make_unique<ContestDescription>(
           objectId, electoralDistrictId, sequenceOrder, variation, elected, allowed, name,
-- 
2.43.0


From c18a3cc014190c70cb722dd3e2ab05b6d57bc44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:04 +0000
Subject: [PATCH 35/68] fix: dates that cannot be parsed were read as 1970, and
 dates out of range overflowed

---
 src/electionguard/convert.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/convert.cpp b/src/electionguard/convert.cpp
index b5b93a8..b31f72e 100644
--- a/src/electionguard/convert.cpp
+++ b/src/electionguard/convert.cpp
@@ -7,6 +7,7 @@
 #include <iostream>
 #include <karamel/LowStar_Endianness.h>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -54,8 +55,13 @@ namespace electionguard
             ss.str(time);
             ss >> date::parse(secondaryFormat, tm);
         }
-
-        auto testTime = timePointToIsoString(tm, format);
+        if (ss.fail()) {
+            throw std::invalid_argument("could not parse the date " + time);
+        }
+        if (tm < std::chrono::ceil<std::chrono::seconds>(time_point::min()) ||
+            tm > std::chrono::floor<std::chrono::seconds>(time_point::max())) {
+            throw std::out_of_range("the date is out of range " + time);
+        }
         return tm;
     }
 
-- 
2.43.0


From e219bbf0af73a734d9fd88856a5372eef8d4f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 36/68] fix: a ballot made from contests out of sequence order
 got a hash it does not verify against

---
 src/electionguard/ballot.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 234a6ec..a8eaafe 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1024,6 +1024,13 @@ namespace electionguard
             contestsRefs.push_back(ref(*contest));
         }
 
+        // hash the contests in the same order as crypto_hash_with
+        sort(contestsRefs.begin(), contestsRefs.end(),
+             [](const reference_wrapper<CiphertextBallotContest> left,
+                const reference_wrapper<CiphertextBallotContest> right) {
+                 return left.get().getSequenceOrder() < right.get().getSequenceOrder();
+             });
+
         auto cryptoHash = makeCryptoHash(objectId, contestsRefs, manifestHash);
         auto ballotTimestamp = timestamp == 0 ? getSystemTimestamp() : timestamp;
         if (!ballotCodeSeed) {
-- 
2.43.0


From 29f224e9dc56fe76dba4587bd7094eabdb62c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 37/68] fix: an invalid selection or contest was masked by a
 valid one with the same identifier

---
 src/electionguard/ballot.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index a8eaafe..d61a656 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -1079,22 +1079,21 @@ namespace electionguard
         }
 
         // Check the proofs on the ballot
-        unordered_map<string, bool> validProofs;
+        bool isValid = true;
         for (const auto &contest : this->getContests()) {
             for (const auto &selection : contest.get().getSelections()) {
-                string key = contest.get().getObjectId() + '-' + selection.get().getObjectId();
-                validProofs[key] = selection.get().isValidEncryption(
-                  *selection.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
+                if (!selection.get().isValidEncryption(*selection.get().getDescriptionHash(),
+                                                       elgamalPublicKey,
+                                                       cryptoExtendedBaseHash)) {
+                    Log::info(": CiphertextBallot found invalid proof for: " +
+                              contest.get().getObjectId() + '-' + selection.get().getObjectId());
+                    isValid = false;
+                }
             }
-            string key = contest.get().getObjectId();
-            validProofs[key] = contest.get().isValidEncryption(
-              *contest.get().getDescriptionHash(), elgamalPublicKey, cryptoExtendedBaseHash);
-        }
-
-        bool isValid = true;
-        for (const auto &[key, value] : validProofs) {
-            if (!value) {
-                Log::info(": CiphertextBallot found invalid proof for: " + key);
+            if (!contest.get().isValidEncryption(*contest.get().getDescriptionHash(),
+                                                 elgamalPublicKey, cryptoExtendedBaseHash)) {
+                Log::info(": CiphertextBallot found invalid proof for: " +
+                          contest.get().getObjectId());
                 isValid = false;
             }
         }
-- 
2.43.0


From f783c6973302e913c1e25214ceeb10fefe4ea1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 38/68] fix: verifying a contest without a proof crashed
 instead of failing

---
 src/electionguard/ballot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index d61a656..8e5330f 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -740,6 +740,7 @@ namespace electionguard
         }
 
         bool valid_proof =
+          proof_exists &&
           pimpl->proof->isValid(*computedAccumulation, elgamalPublicKey, cryptoExtendedBaseHash);
 
         bool success = consistent_encryption_seed && consistent_crypto_hash && proof_exists &&
-- 
2.43.0


From 1e4269428af52bcfa28a69b6a5d81c03f30436fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 39/68] fix: copying an encrypted ballot without its optional
 nonces, proofs or extended data crashed

---
 src/electionguard/ballot.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 8e5330f..fc47e8e 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -173,9 +173,10 @@ namespace electionguard
         {
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
             auto _ciphertext = make_unique<ElGamalCiphertext>(*ciphertext);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<DisjunctiveChaumPedersenProof>(*proof);
+            auto _proof =
+              proof != nullptr ? make_unique<DisjunctiveChaumPedersenProof>(*proof) : nullptr;
             auto _extendedData =
               extendedData != nullptr ? make_unique<ElGamalCiphertext>(*extendedData) : nullptr;
 
@@ -550,11 +551,14 @@ namespace electionguard
             }
 
             auto _descriptionHash = make_unique<ElementModQ>(*descriptionHash);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _accumulation = make_unique<ElGamalCiphertext>(*ciphertextAccumulation);
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
-            auto _proof = make_unique<ConstantChaumPedersenProof>(*proof);
-            auto _hashedElGamal = make_unique<HashedElGamalCiphertext>(*hashedElGamal);
+            auto _proof =
+              proof != nullptr ? make_unique<ConstantChaumPedersenProof>(*proof) : nullptr;
+            auto _hashedElGamal = hashedElGamal != nullptr
+                                    ? make_unique<HashedElGamalCiphertext>(*hashedElGamal)
+                                    : nullptr;
 
             return make_unique<CiphertextBallotContest::Impl>(
               object_id, sequenceOrder, move(_descriptionHash), move(_selections), move(_nonce),
@@ -632,7 +636,7 @@ namespace electionguard
 
     unique_ptr<HashedElGamalCiphertext> CiphertextBallotContest::getHashedElGamalCiphertext() const
     {
-        return pimpl->hashedElGamal.get()->clone();
+        return pimpl->hashedElGamal != nullptr ? pimpl->hashedElGamal->clone() : nullptr;
     }
 
     // Interface Overrides
@@ -931,7 +935,7 @@ namespace electionguard
             auto _manifestHash = make_unique<ElementModQ>(*manifestHash);
             auto _ballotCodeSeed = make_unique<ElementModQ>(*ballotCodeSeed);
             auto _ballotCode = make_unique<ElementModQ>(*ballotCode);
-            auto _nonce = make_unique<ElementModQ>(*nonce);
+            auto _nonce = nonce != nullptr ? make_unique<ElementModQ>(*nonce) : nullptr;
             auto _cryptoHash = make_unique<ElementModQ>(*cryptoHash);
             return make_unique<CiphertextBallot::Impl>(
               object_id, styleId, move(_manifestHash), move(_ballotCodeSeed), move(_contests),
-- 
2.43.0


From f32132e8183e6e71e21f1d78cde702c5217cf45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 40/68] fix: serialising an encrypted ballot without its
 optional nonces, proofs or extended data crashed

---
 src/electionguard/serialize.hpp | 48 +++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 5941358..77a8343 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -1059,6 +1059,10 @@ namespace electionguard
                           {"pad", selection.get().getCiphertext()->getPad()->toHex()},
                           {"data", selection.get().getCiphertext()->getData()->toHex()}};
                         auto *p = selection.get().getProof();
+                        if (p == nullptr) {
+                            throw std::invalid_argument("no proof exists for " +
+                                                        selection.get().getObjectId());
+                        }
                         json selection_proof = {
                           {"proof_zero_pad", p->getProofZeroPad()->toHex()},
                           {"proof_zero_data", p->getProofZeroData()->toHex()},
@@ -1080,7 +1084,7 @@ namespace electionguard
                           {"crypto_hash", selection.get().getCryptoHash()->toHex()},
                           {"proof", selection_proof}};
 
-                        if (withNonces) {
+                        if (withNonces && selection.get().getNonce() != nullptr) {
                             selection_props["nonce"] = selection.get().getNonce()->toHex();
                         }
                         selections.push_back(selection_props);
@@ -1091,6 +1095,10 @@ namespace electionguard
                       {"data", contest.get().getCiphertextAccumulation()->getData()->toHex()}};
 
                     auto *p = contest.get().getProof();
+                    if (p == nullptr) {
+                        throw std::invalid_argument("no proof exists for " +
+                                                    contest.get().getObjectId());
+                    }
                     json contest_proof = {
                       {"pad", p->getPad()->toHex()},
                       {"data", p->getData()->toHex()},
@@ -1099,11 +1107,14 @@ namespace electionguard
                       {"constant", p->getConstant()},
                     };
                     auto e = contest.get().getHashedElGamalCiphertext();
-                    json extended_data = {
-                      {"pad", e->getPad()->toHex()},
-                      {"data", bytes_to_padded_hex(e->getData())},
-                      {"mac", bytes_to_padded_hex(e->getMac())},
-                    };
+                    json extended_data;
+                    if (e != nullptr) {
+                        extended_data = {
+                          {"pad", e->getPad()->toHex()},
+                          {"data", bytes_to_padded_hex(e->getData())},
+                          {"mac", bytes_to_padded_hex(e->getMac())},
+                        };
+                    }
                     json contest_props = {
                       {"object_id", contest.get().getObjectId()},
                       {"sequence_order", contest.get().getSequenceOrder()},
@@ -1114,7 +1125,7 @@ namespace electionguard
                       {"proof", contest_proof},
                       {"extended_data", extended_data},
                     };
-                    if (withNonces) {
+                    if (withNonces && contest.get().getNonce() != nullptr) {
                         contest_props["nonce"] = contest.get().getNonce()->toHex();
                     }
 
@@ -1130,7 +1141,7 @@ namespace electionguard
                   {"timestamp", serializable.getTimestamp()},
                   {"crypto_hash", serializable.getCryptoHash()->toHex()},
                 };
-                if (withNonces) {
+                if (withNonces && serializable.getNonce() != nullptr) {
                     result["nonce"] = serializable.getNonce()->toHex();
                 }
                 return result;
@@ -1167,15 +1178,18 @@ namespace electionguard
                     auto contest_crypto_hash = contest["crypto_hash"].get<string>();
 
                     auto hashed_el_gamal = contest["extended_data"];
-                    auto hashed_el_gamal_pad = hashed_el_gamal["pad"].get<string>();
-                    auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
-                    auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
-
-                    auto deserializedHashedElGamal =
-                      make_unique<electionguard::HashedElGamalCiphertext>(
-                        ElementModP::fromHex(hashed_el_gamal_pad),
-                        hex_to_bytes(hashed_el_gamal_data),
-                        hex_to_bytes(hashed_el_gamal_mac));
+                    unique_ptr<electionguard::HashedElGamalCiphertext> deserializedHashedElGamal;
+                    if (!hashed_el_gamal.is_null()) {
+                        auto hashed_el_gamal_pad = hashed_el_gamal["pad"].get<string>();
+                        auto hashed_el_gamal_data = hashed_el_gamal["data"].get<string>();
+                        auto hashed_el_gamal_mac = hashed_el_gamal["mac"].get<string>();
+
+                        deserializedHashedElGamal =
+                          make_unique<electionguard::HashedElGamalCiphertext>(
+                            ElementModP::fromHex(hashed_el_gamal_pad),
+                            hex_to_bytes(hashed_el_gamal_data),
+                            hex_to_bytes(hashed_el_gamal_mac));
+                    }
 
                     auto proof = contest["proof"];
                     auto contest_proof_pad = proof["pad"].get<string>();
-- 
2.43.0


From 47321eb662a863b04dfe513f18a533fd2f5f16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 41/68] fix: assigning a contest description with placeholders
 replaced only its placeholders

---
 src/electionguard/manifest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 8f9fde7..7c3e5b7 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1391,8 +1391,7 @@ namespace electionguard
     ContestDescriptionWithPlaceholders &
     ContestDescriptionWithPlaceholders::operator=(ContestDescriptionWithPlaceholders other)
     {
-        // TODO: swap the base as well via cast?
-        //(ContestDescription) this = (ContestDescription)other;
+        ContestDescription::operator=(static_cast<const ContestDescription &>(other));
         swap(pimpl, other.pimpl);
         return *this;
     }
-- 
2.43.0


From e2ff77d0501edc86cfedc2903ee8be1b1ba82ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 42/68] fix: encrypting a compact ballot or contests of an
 unknown style crashed instead of failing

---
 src/electionguard/encrypt.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index e6aa92a..0daf445 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -233,6 +233,9 @@ namespace electionguard
                                                      const InternalManifest &manifest)
     {
         auto *style = manifest.getBallotStyle(ballot.getStyleId());
+        if (style == nullptr) {
+            throw invalid_argument("could not find a ballot style: " + ballot.getStyleId());
+        }
 
         vector<unique_ptr<PlaintextBallotContest>> contests;
         // loop through the contests for the ballot style
-- 
2.43.0


From 159bf83c868ac629f25423095eb08ac473b6d950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:10 +0000
Subject: [PATCH 43/68] fix: a compact ballot with more selections than its
 style was expanded by dropping the rest

---
 src/electionguard/ballot_compact.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/electionguard/ballot_compact.cpp b/src/electionguard/ballot_compact.cpp
index 44c6a5c..cf4c8f1 100644
--- a/src/electionguard/ballot_compact.cpp
+++ b/src/electionguard/ballot_compact.cpp
@@ -300,6 +300,12 @@ namespace electionguard
               make_unique<PlaintextBallotContest>(contest.get().getObjectId(), move(selections)));
         }
 
+        if (compactBallot.getSelections().size() != index ||
+            compactBallot.getWriteIns().size() != index) {
+            throw invalid_argument("the compact ballot does not match its ballot style: " +
+                                   compactBallot.getStyleId());
+        }
+
         return make_unique<PlaintextBallot>(compactBallot.getObjectId(), compactBallot.getStyleId(),
                                             move(contests));
     }
-- 
2.43.0


From 7b910c994efe1d55ef990cf4a2101336b7d2b9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:11 +0000
Subject: [PATCH 44/68] fix: threads logging for the first time raced to create
 the logger

---
 src/electionguard/log.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/electionguard/log.cpp b/src/electionguard/log.cpp
index c2ad724..1fdb450 100644
--- a/src/electionguard/log.cpp
+++ b/src/electionguard/log.cpp
@@ -79,18 +79,18 @@ namespace electionguard
 
     class Log::Impl
     {
-      private:
-        Impl() {}
-
       public:
         shared_ptr<spdlog::logger> logger;
 
         static Impl &instance()
         {
             static Impl _instance;
-            if (_instance.logger != nullptr)
-                return _instance;
+            return _instance;
+        }
 
+      private:
+        Impl()
+        {
             auto console = spdlog::stdout_logger_mt("console");
 #if LOG_DEBUG
             console->set_level(spdlog::level::debug);
@@ -101,8 +101,7 @@ namespace electionguard
 #endif
             spdlog::set_default_logger(console);
             spdlog::set_pattern("[%H:%M:%S:%e %z] [p: %P] [t: %t] [%l] :: %v");
-            _instance.logger = console;
-            return _instance;
+            logger = console;
         }
     };
 
-- 
2.43.0


From 753d040bb37074b3b442f622bc7a09eda6b49cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:39 +0000
Subject: [PATCH 45/68] fix: precompute buffers raced between filling, stopping
 and size queries, and a full buffer grew by one on every fill

---
 include/electionguard/precompute_buffers.hpp | 5 +++--
 src/electionguard/precompute_buffers.cpp     | 8 +++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/electionguard/precompute_buffers.hpp b/include/electionguard/precompute_buffers.hpp
index 10b6c4c..2138fc6 100644
--- a/include/electionguard/precompute_buffers.hpp
+++ b/include/electionguard/precompute_buffers.hpp
@@ -4,6 +4,7 @@
 #include "electionguard/group.hpp"
 
 #include <array>
+#include <atomic>
 #include <cstdint>
 #include <electionguard/constants.h>
 #include <electionguard/export.h>
@@ -237,9 +238,9 @@ namespace electionguard
         static void empty_queues();
 
       private:
-        uint32_t max = DEFAULT_PRECOMPUTE_SIZE;
+        std::atomic<uint32_t> max = DEFAULT_PRECOMPUTE_SIZE;
         static std::mutex queue_lock;
-        bool populate_OK = false;
+        std::atomic<bool> populate_OK = false;
         std::queue<std::unique_ptr<Triple>> triple_queue;
         std::queue<std::unique_ptr<TwoTriplesAndAQuadruple>> twoTriplesAndAQuadruple_queue;
     };
diff --git a/src/electionguard/precompute_buffers.cpp b/src/electionguard/precompute_buffers.cpp
index c342092..27d0488 100644
--- a/src/electionguard/precompute_buffers.cpp
+++ b/src/electionguard/precompute_buffers.cpp
@@ -207,12 +207,13 @@ namespace electionguard
         // queue size in we could use that.
         // for now we just go through the loop once
         int iteration_count = 0;
-        do {
+        while (true) {
             // TODO - Can we tolerate not returning until we have finished
             // generating two triples and a quadruple?
             // If not we can get more elaborate with the populate_OK checking
             std::lock_guard<std::mutex> lock(queue_lock);
-            if (getInstance().populate_OK) {
+            if (getInstance().populate_OK &&
+                getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max) {
                 // generate two triples and a quadruple
                 //
                 // these constuctors will generate the precomputed values
@@ -244,7 +245,7 @@ namespace electionguard
             } else {
                 return;
             }
-        } while (getInstance().twoTriplesAndAQuadruple_queue.size() < getInstance().max);
+        }
     }
 
     void PrecomputeBufferContext::stop_populate() { getInstance().populate_OK = false; }
@@ -253,6 +254,7 @@ namespace electionguard
 
     uint32_t PrecomputeBufferContext::get_current_queue_size()
     {
+        std::lock_guard<std::mutex> lock(queue_lock);
         return getInstance().twoTriplesAndAQuadruple_queue.size();
     }
 
-- 
2.43.0


From fee2456cebb804232da8ac3c413064d7167742fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:34 +0000
Subject: [PATCH 46/68] fix: the approval vote variation had no name (undefined
 behaviour, lost on reload)

---
 src/electionguard/manifest.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index 7c3e5b7..a5e5db6 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -129,6 +129,7 @@ namespace electionguard
     const map<VoteVariationType, const string> _vote_variation_type<T>::_map = {
       {VoteVariationType::unknown, "unknown"},
       {VoteVariationType::one_of_m, "one_of_m"},
+      {VoteVariationType::approval, "approval"},
       {VoteVariationType::borda, "borda"},
       {VoteVariationType::cumulative, "cumulative"},
       {VoteVariationType::majority, "majority"},
-- 
2.43.0


From 582bd8f81e7aaeb3a863ccf274b37f1599052b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:13 +0000
Subject: [PATCH 47/68] fix: an overvote by several votes on one selection was
 missing from the overvote record

---
 src/electionguard/encrypt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/encrypt.cpp b/src/electionguard/encrypt.cpp
index 0daf445..12044c6 100644
--- a/src/electionguard/encrypt.cpp
+++ b/src/electionguard/encrypt.cpp
@@ -355,7 +355,7 @@ namespace electionguard
             // the number of selections should be short, the number of ballot selections
             // and candidates will be longer but shouldn't be too long
             for (const auto &selection : selections) {
-                if (selection.get().getVote() == 1) {
+                if (selection.get().getVote() >= 1) {
                     errorData.push_back(selection.get().getObjectId());
                 }
             }
@@ -377,7 +377,7 @@ namespace electionguard
         // the number of selections should be short, the number of ballot selections
         // and candidates will be longer but shouldn't be too long
         for (const auto &selection : selections) {
-            if (selection.get().getVote() == 1) {
+            if (selection.get().getVote() >= 1) {
                 for (const auto ballotSelection : ballotSelections) {
                     if (selection.get().getObjectId() == ballotSelection.get().getObjectId()) {
                         for (const auto &candidate : candidates) {
-- 
2.43.0


From 486a07c1a01e58e488f4b8ca17b86539fd7263da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:00 +0000
Subject: [PATCH 48/68] fix: wipe the copy of the key that get_hmac leaves
 behind

---
 src/electionguard/hmac.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/electionguard/hmac.cpp b/src/electionguard/hmac.cpp
index 78b3407..2f3f2bf 100644
--- a/src/electionguard/hmac.cpp
+++ b/src/electionguard/hmac.cpp
@@ -39,6 +39,7 @@ namespace electionguard
         Hacl_HMAC_compute_sha2_256(hmac.data(), key.data(), key.size(), data_to_hmac.data(),
                                    data_to_hmac.size());
         Lib_Memzero0_memzero(data_to_hmac.data(), data_to_hmac.size());
+        Lib_Memzero0_memzero(key.data(), key.size());
 
         return hmac;
     }
-- 
2.43.0


From 592b880cca08a778721375869f895c8c988c20d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:39 +0000
Subject: [PATCH 49/68] fix: wipe a released vector, it may hold a secret value

---
 src/electionguard/convert.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/convert.hpp b/src/electionguard/convert.hpp
index 09fe62b..1167057 100644
--- a/src/electionguard/convert.hpp
+++ b/src/electionguard/convert.hpp
@@ -1,6 +1,7 @@
 #ifndef __ELECTIONGUARD_CPP_CONVERT_HPP_INCLUDED__
 #define __ELECTIONGUARD_CPP_CONVERT_HPP_INCLUDED__
 
+#include "../karamel/Lib_Memzero0.h"
 #include "facades/Hacl_Bignum256.hpp"
 #include "facades/Hacl_Bignum4096.hpp"
 #include "log.hpp"
@@ -39,6 +40,7 @@ namespace electionguard
 
     template <typename T> auto release(std::vector<T> &container)
     {
+        Lib_Memzero0_memzero(container.data(), container.size() * sizeof(T));
         container.clear();
         container.shrink_to_fit();
         container = vector<T>();
@@ -75,6 +77,7 @@ namespace electionguard
     inline vector<uint8_t> hex_to_bytes(const string &hexString)
     {
         vector<uint8_t> bytes;
+        bytes.reserve((hexString.size() + 1) / 2);
         const size_t baseHex = 16;
         for (size_t i = 0; i < hexString.size(); i += 2) {
             auto byteString = hexString.substr(i, 2);
@@ -243,7 +246,9 @@ namespace electionguard
     inline string bignum_to_hex_string(const vector<uint64_t> &bignum)
     {
         auto bytes = bignum_to_bytes(bignum);
-        return bytes_to_hex(bytes);
+        auto result = bytes_to_hex(bytes);
+        release(bytes);
+        return result;
     }
 
     inline string bignum_to_hex_string(uint64_t *data, size_t size)
-- 
2.43.0


From e10df568bf89304e8cb90eb0c9b2732a6575f1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:44 +0000
Subject: [PATCH 50/68] fix: wipe the temporary number of a converted, random
 or derived element

---
 src/electionguard/group.cpp | 14 ++++++++++++--
 src/electionguard/hash.cpp  |  2 ++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index 59c6a2b..f4f385b 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -451,6 +451,7 @@ namespace electionguard
         // and free the allocated resources
         uint64_t element[MAX_P_LEN] = {};
         memcpy(static_cast<uint64_t *>(element), bigNum, size);
+        Lib_Memzero0_memzero(bigNum, size);
         free(bigNum);
         return make_unique<electionguard::ElementModP>(element, unchecked);
     }
@@ -462,7 +463,9 @@ namespace electionguard
     unique_ptr<electionguard::ElementModP> bytes_to_p(vector<uint8_t> bytes,
                                                       bool unchecked /* = false */)
     {
-        return bytes_to_p(bytes.data(), bytes.size(), unchecked);
+        auto element = bytes_to_p(bytes.data(), bytes.size(), unchecked);
+        release(bytes);
+        return element;
     }
 
     /// <summary>
@@ -488,6 +491,7 @@ namespace electionguard
         // and free the allocated resources
         uint64_t element[MAX_Q_LEN] = {};
         memcpy(static_cast<uint64_t *>(element), bigNum, size);
+        Lib_Memzero0_memzero(bigNum, size);
         free(bigNum);
         return make_unique<electionguard::ElementModQ>(element, unchecked);
     }
@@ -495,7 +499,9 @@ namespace electionguard
     unique_ptr<electionguard::ElementModQ> bytes_to_q(vector<uint8_t> bytes,
                                                       bool unchecked /* = false */)
     {
-        return bytes_to_q(bytes.data(), bytes.size(), unchecked);
+        auto element = bytes_to_q(bytes.data(), bytes.size(), unchecked);
+        release(bytes);
+        return element;
     }
 
 #pragma endregion
@@ -815,7 +821,9 @@ namespace electionguard
 
         uint64_t element[MAX_P_LEN] = {0};
         memcpy(static_cast<uint64_t *>(element), bigNum, MAX_P_SIZE);
+        Lib_Memzero0_memzero(bigNum, MAX_P_SIZE);
         free(bigNum);
+        release(bytes);
 
         auto random_p = make_unique<ElementModP>(element, true);
         return add_mod_p(*random_p, ZERO_MOD_P());
@@ -832,7 +840,9 @@ namespace electionguard
 
         uint64_t element[MAX_Q_LEN] = {0};
         memcpy(static_cast<uint64_t *>(element), bigNum, MAX_Q_SIZE);
+        Lib_Memzero0_memzero(bigNum, MAX_Q_SIZE);
         free(bigNum);
+        release(bytes);
 
         auto random_q = make_unique<ElementModQ>(element, true);
         return add_mod_q(*random_q, ZERO_MOD_Q());
diff --git a/src/electionguard/hash.cpp b/src/electionguard/hash.cpp
index 8ef4930..65540ba 100644
--- a/src/electionguard/hash.cpp
+++ b/src/electionguard/hash.cpp
@@ -2,6 +2,7 @@
 
 #include "../karamel/Hacl_Bignum256.h"
 #include "../karamel/Hacl_Streaming_SHA2.h"
+#include "../karamel/Lib_Memzero0.h"
 #include "log.hpp"
 
 #include <iomanip>
@@ -105,6 +106,7 @@ namespace electionguard
         uint64_t normalized[MAX_Q_LEN] = {};
         memcpy(static_cast<uint64_t *>(normalized), bigNum, sizeof(output));
         Hacl_Streaming_SHA2_free_256(p);
+        Lib_Memzero0_memzero(bigNum, sizeof(output));
         free(bigNum);
 
         auto element = make_unique<ElementModQ>(normalized, true);
-- 
2.43.0


From 006cfd38b7443c0702c620ad04522a868b4f3a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:51 +0000
Subject: [PATCH 51/68] fix: wipe the generator's state and the drawn bytes

---
 src/electionguard/random.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/random.hpp b/src/electionguard/random.hpp
index 304f9c5..66db33e 100644
--- a/src/electionguard/random.hpp
+++ b/src/electionguard/random.hpp
@@ -2,6 +2,7 @@
 #define __ELECTIONGUARD_CPP_SERIALIZE_HPP_INCLUDED__
 
 #include "../karamel/Hacl_HMAC_DRBG.h"
+#include "../karamel/Lib_Memzero0.h"
 #include "../karamel/Lib_RandomBuffer_System.h"
 #include "convert.hpp"
 #include "log.hpp"
@@ -79,6 +80,7 @@ namespace electionguard
                                         input.data())) {
                 vector<uint8_t> result(array, array + size);
                 cleanup(state, entropy, nonce);
+                Lib_Memzero0_memzero(array, size);
                 delete[] array;
                 return result;
             } else {
@@ -89,11 +91,14 @@ namespace electionguard
         }
 
       private:
-        static void cleanup(Hacl_HMAC_DRBG_state &state, vector<uint8_t> entropy,
-                            vector<uint8_t> nonce)
+        static void cleanup(Hacl_HMAC_DRBG_state &state, vector<uint8_t> &entropy,
+                            vector<uint8_t> &nonce)
         {
             release(entropy);
             release(nonce);
+            // k and v are as long as a SHA256 digest
+            Lib_Memzero0_memzero(state.k, 32U);
+            Lib_Memzero0_memzero(state.v, 32U);
             free(state.k);
             free(state.v);
             free(state.reseed_counter);
@@ -110,6 +115,7 @@ namespace electionguard
             auto *array = new uint8_t[count];
             if (Lib_RandomBuffer_System_randombytes(array, count)) {
                 vector<uint8_t> result(array, array + count);
+                Lib_Memzero0_memzero(array, count);
                 delete[] array;
                 return result;
 
-- 
2.43.0


From c29c7e9d1f8e6f117b26d7fdc1be0a350c650d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:23 +0000
Subject: [PATCH 52/68] fix: wipe the temporary result of a fixed-base
 exponentiation

---
 src/electionguard/group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/group.cpp b/src/electionguard/group.cpp
index f4f385b..2df1a80 100644
--- a/src/electionguard/group.cpp
+++ b/src/electionguard/group.cpp
@@ -629,7 +629,9 @@ namespace electionguard
             auto exp_ptr = exponent.get();
             auto result = LookupTableContext::pow_mod_p(hex, base.ref(), exponent.ref());
 
-            return make_unique<ElementModP>(result, true);
+            auto element = make_unique<ElementModP>(result, true);
+            release(result);
+            return element;
         }
 
         // if none exists, execute the modular exponentiation directly
-- 
2.43.0


From ca4d26a4f92d75c185cbe2073e116ea9ead9ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 53/68] fix: aggregating nonces of selections without nonces
 crashed

---
 src/electionguard/ballot.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index fc47e8e..a8fd004 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -770,7 +770,12 @@ namespace electionguard
         vector<reference_wrapper<ElementModQ>> elements;
         elements.reserve(selections.size());
         for (const auto &selection : selections) {
-            elements.push_back(ref(*selection.get().getNonce()));
+            auto *nonce = selection.get().getNonce();
+            if (nonce == nullptr) {
+                throw invalid_argument("aggregateNonce:: selection " +
+                                       selection.get().getObjectId() + " has no nonce");
+            }
+            elements.push_back(ref(*nonce));
         }
         return add_mod_q(elements);
     }
-- 
2.43.0


From 475eb029951430bba42217ee9e45669b337740d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 54/68] fix: out of range floating point numbers in documents
 were converted with undefined behaviour

---
 src/electionguard/serialize.hpp | 58 ++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 77a8343..116e0b5 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -15,6 +15,7 @@
 #include <cstring>
 #include <memory>
 #include <nlohmann/json.hpp>
+#include <stdexcept>
 #include <unordered_map>
 
 using electionguard::G;
@@ -33,6 +34,19 @@ namespace electionguard
 {
     // TODO: input sanitization and safety
 
+    /// read an unsigned number; converting a floating point number
+    /// that is out of range would be undefined
+    static uint64_t uint64FromJson(const json &j)
+    {
+        if (j.is_number_float()) {
+            const auto value = j.get<double>();
+            if (!(value >= 0 && value < 18446744073709551616.0)) {
+                throw std::out_of_range("number is out of range");
+            }
+        }
+        return j.get<uint64_t>();
+    }
+
     static json annotatedStringToJson(const AnnotatedString &serializable)
     {
         return {{"annotation", serializable.getAnnotation()}, {"value", serializable.getValue()}};
@@ -395,7 +409,7 @@ namespace electionguard
     {
         return make_unique<SelectionDescription>(j.at("object_id").get<string>(),
                                                  j.at("candidate_id").get<string>(),
-                                                 j.at("sequence_order").get<uint64_t>());
+                                                 uint64FromJson(j.at("sequence_order")));
     }
 
     static json
@@ -449,12 +463,12 @@ namespace electionguard
     {
         auto objectId = j.at("object_id").get<string>();
         auto electoralDistrictId = j.at("electoral_district_id").get<string>();
-        auto sequenceOrder = j.at("sequence_order").get<uint64_t>();
+        auto sequenceOrder = uint64FromJson(j.at("sequence_order"));
         auto variation = getVoteVariationType(j.at("vote_variation").get<string>());
-        auto elected = j.at("number_elected").get<uint64_t>();
+        auto elected = uint64FromJson(j.at("number_elected"));
         auto allowed =
           j.contains("votes_allowed") && !j.at("votes_allowed").is_null()
-            ? j.at("votes_allowed").get<uint64_t>()
+            ? uint64FromJson(j.at("votes_allowed"))
           : variation == VoteVariationType::n_of_m || variation == VoteVariationType::one_of_m
             ? elected
             : 0;
@@ -665,16 +679,16 @@ namespace electionguard
                 for (auto &contest : contests) {
                     auto contest_object_id = contest["object_id"].get<string>();
                     auto electoral_district_id = contest["electoral_district_id"].get<string>();
-                    auto contest_sequence_order = contest["sequence_order"].get<uint64_t>();
+                    auto contest_sequence_order = uint64FromJson(contest["sequence_order"]);
                     auto vote_variation = contest["vote_variation"].get<string>();
-                    auto number_elected = contest["number_elected"].get<uint64_t>();
+                    auto number_elected = uint64FromJson(contest["number_elected"]);
                     auto name = contest["name"].get<string>();
 
                     auto selections = selectionDescriptionsFromJson(contest["ballot_selections"]);
                     auto placeholders =
                       selectionDescriptionsFromJson(contest["ballot_placeholders"]);
 
-                    auto votes_allowed = contest["votes_allowed"].get<uint64_t>();
+                    auto votes_allowed = uint64FromJson(contest["votes_allowed"]);
                     auto ballotTitle =
                       contest.contains("ballot_title") && !contest["ballot_title"].is_null()
                         ? internationalizedTextFromJson(contest["ballot_title"])
@@ -768,13 +782,13 @@ namespace electionguard
                 auto commitment_hash = j["commitment_hash"].get<string>();
                 auto manifest_hash = j["manifest_hash"].get<string>();
                 auto elgamal_public_key = j["elgamal_public_key"].get<string>();
-                auto number_of_guardians = j["number_of_guardians"].get<uint64_t>();
-                auto quorum = j["quorum"].get<uint64_t>();
+                auto number_of_guardians = uint64FromJson(j["number_of_guardians"]);
+                auto quorum = uint64FromJson(j["quorum"]);
                 bool allows_overvotes = true;
                 uint64_t max_ballots = DEFAULT_MAX_BALLOTS;
                 if (j.contains("configuration") && !j["configuration"].is_null()) {
                     allows_overvotes = j["configuration"]["allow_overvotes"].get<bool>();
-                    max_ballots = j["configuration"]["max_votes"].get<uint64_t>();
+                    max_ballots = uint64FromJson(j["configuration"]["max_votes"]);
                 }
 
                 auto commitmentHash = ElementModQ::fromHex(commitment_hash);
@@ -873,7 +887,7 @@ namespace electionguard
                     plaintextSelections.reserve(selections.size());
                     for (auto &selection : selections) {
                         auto selection_object_id = selection["object_id"].get<string>();
-                        auto vote = selection["vote"].get<uint64_t>();
+                        auto vote = uint64FromJson(selection["vote"]);
 
                         bool isPlaceholder = false;
                         if (selection.contains("is_placeholder_selection") &&
@@ -943,9 +957,9 @@ namespace electionguard
 
             static unique_ptr<electionguard::EncryptionDevice> toObject(json j)
             {
-                auto deviceUuid = j["device_id"].get<uint64_t>();
-                auto sessionUuid = j["session_id"].get<uint64_t>();
-                auto launchCode = j["launch_code"].get<uint64_t>();
+                auto deviceUuid = uint64FromJson(j["device_id"]);
+                auto sessionUuid = uint64FromJson(j["session_id"]);
+                auto launchCode = uint64FromJson(j["launch_code"]);
                 auto location = j["location"].get<string>();
 
                 return make_unique<electionguard::EncryptionDevice>(deviceUuid, sessionUuid,
@@ -1003,7 +1017,7 @@ namespace electionguard
                 vector<uint64_t> votes;
                 votes.reserve(selections.size());
                 for (auto &selection : selections) {
-                    auto vote = selection.get<uint64_t>();
+                    auto vote = uint64FromJson(selection);
                     votes.push_back(vote);
                 }
 
@@ -1153,7 +1167,7 @@ namespace electionguard
                 auto manifest_hash = j["manifest_hash"].get<string>();
                 auto code_seed = j["code_seed"].get<string>();
                 auto ballot_code = j["code"].get<string>();
-                auto timestamp = j["timestamp"].get<uint64_t>();
+                auto timestamp = uint64FromJson(j["timestamp"]);
                 auto ballot_nonce = j["nonce"].is_null() ? "" : j["nonce"].get<string>();
                 auto crypto_hash = j["crypto_hash"].get<string>();
 
@@ -1163,7 +1177,7 @@ namespace electionguard
                 ciphertextContests.reserve(contests.size());
                 for (auto &contest : contests) {
                     auto contest_object_id = contest["object_id"].get<string>();
-                    auto contest_sequence_order = contest["sequence_order"].get<uint64_t>();
+                    auto contest_sequence_order = uint64FromJson(contest["sequence_order"]);
                     auto contest_description_hash = contest["description_hash"].get<string>();
                     auto contest_nonce =
                       contest["nonce"].is_null() ? "" : contest["nonce"].get<string>();
@@ -1196,7 +1210,7 @@ namespace electionguard
                     auto contest_proof_data = proof["data"].get<string>();
                     auto contest_proof_challenge = proof["challenge"].get<string>();
                     auto contest_proof_response = proof["response"].get<string>();
-                    auto contest_proof_constant = proof["constant"].get<uint64_t>();
+                    auto contest_proof_constant = uint64FromJson(proof["constant"]);
 
                     auto deserializedProof = make_unique<electionguard::ConstantChaumPedersenProof>(
                       ElementModP::fromHex(contest_proof_pad),
@@ -1210,7 +1224,7 @@ namespace electionguard
                     ciphertextSelections.reserve(selections.size());
                     for (auto &selection : selections) {
                         auto selection_object_id = selection["object_id"].get<string>();
-                        auto selection_sequence_order = selection["sequence_order"].get<uint64_t>();
+                        auto selection_sequence_order = uint64FromJson(selection["sequence_order"]);
                         auto selection_description_hash =
                           selection["description_hash"].get<string>();
                         auto selection_is_placeholder_selection =
@@ -1351,7 +1365,7 @@ namespace electionguard
             static unique_ptr<electionguard::SubmittedBallot> toObject(json j)
             {
                 auto ciphertext = SubmittedBallotWrapper::toObjectWrapper(j);
-                auto state = electionguard::BallotBoxState(j["state"].get<uint64_t>());
+                auto state = electionguard::BallotBoxState(uint64FromJson(j["state"]));
                 // TODO: make this a move instead of a copy
                 return electionguard::SubmittedBallot::from(*ciphertext, state);
             }
@@ -1419,9 +1433,9 @@ namespace electionguard
                 auto codeSeed = j["code_seed"].get<string>();
                 auto ballotCode = j["code"].get<string>();
                 auto nonce = j["nonce"].get<string>();
-                auto timestamp = j["timestamp"].get<uint64_t>();
+                auto timestamp = uint64FromJson(j["timestamp"]);
                 auto ballotBoxState =
-                  electionguard::BallotBoxState(j["ballot_box_state"].get<uint64_t>());
+                  electionguard::BallotBoxState(uint64FromJson(j["ballot_box_state"]));
 
                 auto plaintext = CompactPlaintextBallotWrapper::toObjectWrapper(j["plaintext"]);
 
-- 
2.43.0


From 57f69b8c60a6dab8c5a66581a96ecbc001676edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 55/68] fix: deeply nested documents overflowed the stack

---
 src/electionguard/serialize.hpp | 106 ++++++++++++++++++++++++--------
 1 file changed, 81 insertions(+), 25 deletions(-)

diff --git a/src/electionguard/serialize.hpp b/src/electionguard/serialize.hpp
index 116e0b5..04fa608 100644
--- a/src/electionguard/serialize.hpp
+++ b/src/electionguard/serialize.hpp
@@ -34,6 +34,62 @@ namespace electionguard
 {
     // TODO: input sanitization and safety
 
+    /// stops the parser when a document is nested too deeply:
+    /// the binary parsers and copies of a document recurse
+    struct NestingLimit : public nlohmann::json_sax<json> {
+        static constexpr size_t MAX_DEPTH = 512;
+        size_t depth = 0;
+        bool exceeded = false;
+
+        bool enter()
+        {
+            exceeded = ++depth > MAX_DEPTH;
+            return !exceeded;
+        }
+        bool leave()
+        {
+            depth--;
+            return true;
+        }
+        bool start_object(std::size_t /*elements*/) override { return enter(); }
+        bool end_object() override { return leave(); }
+        bool start_array(std::size_t /*elements*/) override { return enter(); }
+        bool end_array() override { return leave(); }
+        bool null() override { return true; }
+        bool boolean(bool /*value*/) override { return true; }
+        bool number_integer(number_integer_t /*value*/) override { return true; }
+        bool number_unsigned(number_unsigned_t /*value*/) override { return true; }
+        bool number_float(number_float_t /*value*/, const string_t & /*text*/) override
+        {
+            return true;
+        }
+        bool string(string_t & /*value*/) override { return true; }
+        bool binary(binary_t & /*value*/) override { return true; }
+        bool key(string_t & /*value*/) override { return true; }
+        bool parse_error(std::size_t /*position*/, const std::string & /*token*/,
+                         const nlohmann::detail::exception & /*error*/) override
+        {
+            return false; // reported by the parser that builds the document
+        }
+    };
+
+    template <typename T> static json parseDocument(const T &data, json::input_format_t format)
+    {
+        NestingLimit limit;
+        json::sax_parse(data, &limit, format);
+        if (limit.exceeded) {
+            throw std::invalid_argument("document is nested too deeply");
+        }
+        switch (format) {
+            case json::input_format_t::bson:
+                return json::from_bson(data);
+            case json::input_format_t::msgpack:
+                return json::from_msgpack(data);
+            default:
+                return json::parse(data);
+        }
+    }
+
     /// read an unsigned number; converting a floating point number
     /// that is out of range would be undefined
     static uint64_t uint64FromJson(const json &j)
@@ -599,17 +655,17 @@ namespace electionguard
 
             static unique_ptr<electionguard::Manifest> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
 
             static unique_ptr<electionguard::Manifest> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
 
             static unique_ptr<electionguard::Manifest> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
         };
         class InternalManifest
@@ -733,17 +789,17 @@ namespace electionguard
 
             static unique_ptr<electionguard::InternalManifest> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
 
             static unique_ptr<electionguard::InternalManifest> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
 
             static unique_ptr<electionguard::InternalManifest> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
         };
 
@@ -834,11 +890,11 @@ namespace electionguard
             static unique_ptr<electionguard::CiphertextElectionContext>
             fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::CiphertextElectionContext> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
         };
 
@@ -928,15 +984,15 @@ namespace electionguard
             }
             static unique_ptr<electionguard::PlaintextBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::PlaintextBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::PlaintextBallot> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
         class EncryptionDevice
@@ -977,11 +1033,11 @@ namespace electionguard
             }
             static unique_ptr<electionguard::EncryptionDevice> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::EncryptionDevice> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
         };
         class CompactPlaintextBallot
@@ -1046,16 +1102,16 @@ namespace electionguard
             }
             static unique_ptr<electionguard::CompactPlaintextBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::CompactPlaintextBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::CompactPlaintextBallot>
             fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
 
@@ -1325,15 +1381,15 @@ namespace electionguard
             }
             static unique_ptr<electionguard::CiphertextBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::CiphertextBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::CiphertextBallot> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
 
@@ -1385,15 +1441,15 @@ namespace electionguard
             }
             static unique_ptr<electionguard::SubmittedBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::SubmittedBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::SubmittedBallot> fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
 
@@ -1461,16 +1517,16 @@ namespace electionguard
             }
             static unique_ptr<electionguard::CompactCiphertextBallot> fromBson(vector<uint8_t> data)
             {
-                return toObject(json::from_bson(data));
+                return toObject(parseDocument(data, json::input_format_t::bson));
             }
             static unique_ptr<electionguard::CompactCiphertextBallot> fromJson(string data)
             {
-                return toObject(json::parse(data));
+                return toObject(parseDocument(data, json::input_format_t::json));
             }
             static unique_ptr<electionguard::CompactCiphertextBallot>
             fromMsgPack(vector<uint8_t> data)
             {
-                return toObject(json::from_msgpack(data));
+                return toObject(parseDocument(data, json::input_format_t::msgpack));
             }
         };
 
-- 
2.43.0


From 4cba96584b2e3bc302bb47212117cf8939d493b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:18 +0000
Subject: [PATCH 56/68] fix: generator state leaked when the operating system's
 random source failed

---
 src/electionguard/random.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/electionguard/random.hpp b/src/electionguard/random.hpp
index 66db33e..c0c86bf 100644
--- a/src/electionguard/random.hpp
+++ b/src/electionguard/random.hpp
@@ -57,12 +57,16 @@ namespace electionguard
             // Get some random bytes from the operating system
             auto entropy = getRandomBytes(static_cast<uint32_t>(size * 2));
 
-            // Allocate the DRBG
-            Hacl_HMAC_DRBG_state state = Hacl_HMAC_DRBG_create_in(hashAlgo);
-
             // Derive a nonce from the OS entropy pool
             auto nonce = getRandomBytes(size);
 
+            // Get the additional input, before anything is allocated that
+            // would have to be released when the operating system fails
+            auto input = getRandomBytes(size);
+
+            // Allocate the DRBG
+            Hacl_HMAC_DRBG_state state = Hacl_HMAC_DRBG_create_in(hashAlgo);
+
             // Derive a personalization string from the system clock
             auto personalization = getTime();
 
@@ -73,7 +77,6 @@ namespace electionguard
                                        reinterpret_cast<uint8_t *>(personalization.data()));
 
             auto *array = new uint8_t[size];
-            auto input = getRandomBytes(size);
 
             // Try to generate some random bits
             if (Hacl_HMAC_DRBG_generate(hashAlgo, array, state, size, convert(input.size()),
-- 
2.43.0


From 0a4af1761373c71f6764b03598e39bda3a20fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:38 +0000
Subject: [PATCH 57/68] fix: the name of an unknown status code was read past
 the end of the table

---
 include/electionguard/status.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/electionguard/status.h b/include/electionguard/status.h
index c7dd091..af5fde1 100644
--- a/include/electionguard/status.h
+++ b/include/electionguard/status.h
@@ -36,7 +36,7 @@ static const char *const eg_electionguard_status_codes[] = {
 static const char *eg_electionguard_get_status(eg_electionguard_status_t status)
 {
     if (status >= ELECTIONGUARD_STATUS_UNKNOWN) {
-        eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
+        return eg_electionguard_status_codes[ELECTIONGUARD_STATUS_UNKNOWN];
     }
     return eg_electionguard_status_codes[status];
 }
-- 
2.43.0


From 9c87794b349923be11645ce980c0fd2bba7f6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:38 +0000
Subject: [PATCH 58/68] fix: the C functions encrypting with a nonce freed the
 caller's nonce

---
 src/electionguard/facades/encrypt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/encrypt.cpp b/src/electionguard/facades/encrypt.cpp
index a42fb42..ba05dd9 100644
--- a/src/electionguard/facades/encrypt.cpp
+++ b/src/electionguard/facades/encrypt.cpp
@@ -350,7 +350,7 @@ eg_electionguard_status_t eg_encrypt_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        auto nonce_ptr = nonce == nullptr ? nullptr : nonce->clone();
 
         auto ciphertext = encryptBallot(*plaintext, *manifest, *context, *code_seed,
                                         move(nonce_ptr), 0, in_should_verify_proofs);
@@ -413,7 +413,7 @@ eg_electionguard_status_t eg_encrypt_compact_ballot_with_nonce(
         auto *context = AS_TYPE(CiphertextElectionContext, in_context);
         auto *code_seed = AS_TYPE(ElementModQ, in_ballot_code_seed);
         auto *nonce = AS_TYPE(ElementModQ, in_nonce);
-        unique_ptr<ElementModQ> nonce_ptr{nonce};
+        auto nonce_ptr = nonce == nullptr ? nullptr : nonce->clone();
 
         auto ciphertext = encryptCompactBallot(*plaintext, *manifest, *context, *code_seed,
                                                move(nonce_ptr), 0, in_should_verify_proofs);
-- 
2.43.0


From d6190e7ea6f6050640cabd3ac36106ef491959fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:54 +0000
Subject: [PATCH 59/68] fix: a context made from hex with extended data lost
 the extended data

---
 src/electionguard/facades/election.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/facades/election.cpp b/src/electionguard/facades/election.cpp
index e2aa39e..3d9ba9a 100644
--- a/src/electionguard/facades/election.cpp
+++ b/src/electionguard/facades/election.cpp
@@ -328,7 +328,8 @@ eg_electionguard_status_t eg_ciphertext_election_context_make_from_hex_with_exte
         }
 
         auto context = CiphertextElectionContext::make(
-          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash);
+          in_number_of_guardians, in_quorum, elGamalPublicKey, commitmentHash, manifestHash,
+          move(extendedData));
         *out_handle = AS_TYPE(eg_ciphertext_election_context_t, context.release());
 
         return ELECTIONGUARD_STATUS_SUCCESS;
-- 
2.43.0


From a1f4d826bbca7ac78dfdf588fa26f160e859cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:54 +0000
Subject: [PATCH 60/68] fix: C functions of contacts and candidates treated
 them as other types

---
 src/electionguard/facades/manifest.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index 5d9ecc0..a0085de 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -396,7 +396,7 @@ eg_electionguard_status_t eg_contact_information_get_name(eg_contact_information
                                                           const char **out_name)
 {
     try {
-        auto result = AS_TYPE(GeopoliticalUnit, handle)->getName();
+        auto result = AS_TYPE(ContactInformation, handle)->getName();
         *out_name = dynamicCopy(result);
 
         return ELECTIONGUARD_STATUS_SUCCESS;
@@ -410,7 +410,7 @@ eg_electionguard_status_t eg_contact_information_crypto_hash(eg_contact_informat
                                                              eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(InternationalizedText, handle)->crypto_hash();
+        auto result = AS_TYPE(ContactInformation, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
@@ -965,7 +965,7 @@ eg_electionguard_status_t eg_candidate_crypto_hash(eg_candidate_t *handle,
                                                    eg_element_mod_q_t **out_crypto_hash)
 {
     try {
-        auto result = AS_TYPE(Party, handle)->crypto_hash();
+        auto result = AS_TYPE(Candidate, handle)->crypto_hash();
         *out_crypto_hash = AS_TYPE(eg_element_mod_q_t, result.release());
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
-- 
2.43.0


From 8d034ba01eb9003b65eee78270d171687e179540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:55 +0000
Subject: [PATCH 61/68] fix: the C validity check of a plaintext contest
 answered the opposite

---
 src/electionguard/facades/ballot.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 58a8e32..5929146 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -427,8 +427,9 @@ bool eg_plaintext_ballot_contest_is_valid(eg_plaintext_ballot_contest_t *handle,
 {
     try {
         return AS_TYPE(PlaintextBallotContest, handle)
-          ->isValid(string(in_expected_object_id), in_expected_num_selections,
-                    in_expected_num_elected, in_votes_allowed);
+                 ->isValid(string(in_expected_object_id), in_expected_num_selections,
+                           in_expected_num_elected, in_votes_allowed) ==
+               electionguard::eg_valid_contest_return_type_t::SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_plaintext_ballot_contest_is_valid", e);
         return false;
-- 
2.43.0


From 333b0d7bca105ca67a538ce14780014401459711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:55 +0000
Subject: [PATCH 62/68] fix: the C getters of a manifest's dates answered in
 seconds, unlike the constructor

---
 src/electionguard/facades/manifest.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/electionguard/facades/manifest.cpp b/src/electionguard/facades/manifest.cpp
index a0085de..e42b5b0 100644
--- a/src/electionguard/facades/manifest.cpp
+++ b/src/electionguard/facades/manifest.cpp
@@ -1795,8 +1795,9 @@ eg_election_type_t eg_election_manifest_get_type(eg_election_manifest_t *handle)
 uint64_t eg_election_manifest_get_start_date(eg_election_manifest_t *handle)
 {
     try {
-        return AS_TYPE(Manifest, handle)->getStartDate().time_since_epoch().count() *
-               system_clock::period::num / system_clock::period::den;
+        return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(
+                 AS_TYPE(Manifest, handle)->getStartDate().time_since_epoch())
+          .count();
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error(":eg_election_manifest_get_election_scope_id", e);
@@ -1807,8 +1808,9 @@ uint64_t eg_election_manifest_get_start_date(eg_election_manifest_t *handle)
 uint64_t eg_election_manifest_get_end_date(eg_election_manifest_t *handle)
 {
     try {
-        return AS_TYPE(Manifest, handle)->getEndDate().time_since_epoch().count() *
-               system_clock::period::num / system_clock::period::den;
+        return (uint64_t)std::chrono::duration_cast<std::chrono::milliseconds>(
+                 AS_TYPE(Manifest, handle)->getEndDate().time_since_epoch())
+          .count();
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error(":eg_election_manifest_get_election_scope_id", e);
-- 
2.43.0


From 3f17b6c935678b24a7b26522b6ae2c4bce2f056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:19 +0000
Subject: [PATCH 63/68] fix: C functions of encrypted contests and ballots were
 declared differently from their definitions and could not be linked

---
 include/electionguard/ballot.h       |  8 ++++----
 src/electionguard/facades/ballot.cpp | 15 ++++++++-------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 99fae7c..76aa66d 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -431,7 +431,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_crypto_hash(
  *                           The value is a reference and is not owned by the caller
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
-  eg_ciphertext_ballot_contest_t *handle, eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref);
+  eg_ciphertext_ballot_contest_t *handle, eg_constant_chaum_pedersen_proof_t **out_proof_ref);
 
 /**
  * Given an encrypted Ballotcontest, generates a hash, suitable for rolling up
@@ -446,7 +446,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_get_proof(
  *                             The caller is responsible for lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t *in_encryption_seed,
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t *in_encryption_seed,
   eg_element_mod_q_t **out_crypto_hash);
 
 // TODO: eg_ciphertext_ballot_contest_make
@@ -461,7 +461,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_crypto_hash_with(
  *                           The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
-  eg_ciphertext_ballot_selection_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
+  eg_ciphertext_ballot_contest_t *handle, eg_element_mod_q_t **out_aggregate_nonce);
 
 /**
  * Add the individual ballot_selections `message` fields together, suitable for use
@@ -471,7 +471,7 @@ EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_aggregate_nonce(
  *                                         The caller is responsible for the object lifecycle.
  */
 EG_API eg_electionguard_status_t eg_ciphertext_ballot_contest_elgamal_accumulate(
-  eg_ciphertext_ballot_selection_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
+  eg_ciphertext_ballot_contest_t *handle, eg_elgamal_ciphertext_t **out_ciphertext_accumulation);
 
 /**
  * Given an encrypted BallotContest, validates the encryption state against a specific seed hash and public key
diff --git a/src/electionguard/facades/ballot.cpp b/src/electionguard/facades/ballot.cpp
index 5929146..61bf844 100644
--- a/src/electionguard/facades/ballot.cpp
+++ b/src/electionguard/facades/ballot.cpp
@@ -556,12 +556,12 @@ eg_ciphertext_ballot_contest_get_crypto_hash(eg_ciphertext_ballot_contest_t *han
 }
 
 eg_electionguard_status_t
-eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_selection_t *handle,
-                                       eg_disjunctive_chaum_pedersen_proof_t **out_proof_ref)
+eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_contest_t *handle,
+                                       eg_constant_chaum_pedersen_proof_t **out_proof_ref)
 {
     try {
         auto *reference = AS_TYPE(CiphertextBallotContest, handle)->getProof();
-        *out_proof_ref = AS_TYPE(eg_disjunctive_chaum_pedersen_proof_t, reference);
+        *out_proof_ref = AS_TYPE(eg_constant_chaum_pedersen_proof_t, reference);
         return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error("eg_ciphertext_ballot_contest_get_proof", e);
@@ -930,14 +930,15 @@ eg_ciphertext_ballot_get_ballot_code(eg_ciphertext_ballot_t *handle,
     }
 }
 
-uint64_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *ciphertext)
+eg_electionguard_status_t eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *handle,
+                                                             uint64_t *out_timestamp)
 {
     try {
-        auto result = AS_TYPE(CiphertextBallot, ciphertext)->getTimestamp();
-        return result;
+        *out_timestamp = AS_TYPE(CiphertextBallot, handle)->getTimestamp();
+        return ELECTIONGUARD_STATUS_SUCCESS;
     } catch (const exception &e) {
         Log::error(":eg_ciphertext_ballot_get_timestamp", e);
-        return 0;
+        return ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC;
     }
 }
 
-- 
2.43.0


From f0f8d14688559eb48c0a187b5bc62561add574b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:41 +0000
Subject: [PATCH 64/68] fix: C functions for contest titles, contest encryption
 and write-ins were not declared as defined and could not be linked

---
 include/electionguard/ballot.h   | 15 +++++++--------
 include/electionguard/encrypt.h  |  3 ++-
 include/electionguard/manifest.h |  9 ++++++---
 3 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/electionguard/ballot.h b/include/electionguard/ballot.h
index 76aa66d..8d5f21c 100644
--- a/include/electionguard/ballot.h
+++ b/include/electionguard/ballot.h
@@ -85,10 +85,9 @@ EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
   eg_plaintext_ballot_selection_t **out_handle);
 
-EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_extended_data(
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_new_with_write_in(
   const char *in_object_id, const uint64_t in_vote, bool in_is_placeholder_selection,
-  const char *in_extended_data_value, uint64_t in_extended_data_length,
-  eg_plaintext_ballot_selection_t **out_handle);
+  const char *in_write_in, eg_plaintext_ballot_selection_t **out_handle);
 
 EG_API eg_electionguard_status_t
 eg_plaintext_ballot_selection_free(eg_plaintext_ballot_selection_t *handle);
@@ -117,14 +116,14 @@ EG_API bool
 eg_plaintext_ballot_selection_get_is_placeholder(eg_plaintext_ballot_selection_t *handle);
 
 /**
- * an optional field of arbitrary data, such as the value of a write-in candidate
+ * an optional field holding the value of a write-in candidate
  * 
  * @param[in] handle A poiner to the `eg_plaintext_ballot_selection_t` opaque instance
- * @param[out] out_extended_data_ref A pointer to the extended data.  
-                                     The value is a reference and is not owned by the caller
+ * @param[out] out_write_in A pointer to the output write-in.  
+                            The caller is responsible for freeing the string.
  */
-EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_get_extended_data(
-  eg_plaintext_ballot_selection_t *handle, eg_extended_data_t **out_extended_data_ref);
+EG_API eg_electionguard_status_t eg_plaintext_ballot_selection_get_write_in(
+  eg_plaintext_ballot_selection_t *handle, char **out_write_in);
 
 /**
  * Given a PlaintextBallotSelection validates that the object matches an expected object
diff --git a/include/electionguard/encrypt.h b/include/electionguard/encrypt.h
index eb953ab..07e1587 100644
--- a/include/electionguard/encrypt.h
+++ b/include/electionguard/encrypt.h
@@ -151,6 +151,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * votes
 *
 * @param[in] in_plaintext: the contest in the valid input form
+* @param[in] in_manifest: the `InternalManifest` which defines the contest
 * @param[in] in_description the `ContestDescriptionWithPlaceholders`
 *        from the `ContestDescription` which defines this contest's structure
 * @param[in] in_public_key the public key (k) used to encrypt the ballot
@@ -161,7 +162,7 @@ EG_API eg_electionguard_status_t eg_encrypt_selection(
 * @param[out] out_handle a handle to an `eg_ciphertext_ballot_contest_t`. Caller is responsible for lifecycle.
 */
 EG_API eg_electionguard_status_t eg_encrypt_contest(
-  eg_plaintext_ballot_contest_t *in_plaintext,
+  eg_plaintext_ballot_contest_t *in_plaintext, eg_internal_manifest_t *in_manifest,
   eg_contest_description_with_placeholders_t *in_description, eg_element_mod_p_t *in_public_key,
   eg_element_mod_q_t *in_crypto_extended_base_hash, eg_element_mod_q_t *in_nonce_seed,
   bool in_should_verify_proofs, eg_ciphertext_ballot_contest_t **out_handle);
diff --git a/include/electionguard/manifest.h b/include/electionguard/manifest.h
index a600e62..03436ce 100644
--- a/include/electionguard/manifest.h
+++ b/include/electionguard/manifest.h
@@ -595,7 +595,8 @@ EG_API eg_electionguard_status_t eg_contest_description_new_with_parties(
 
 EG_API eg_electionguard_status_t eg_contest_description_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected,
+  uint64_t in_votes_allowed, char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
@@ -694,7 +695,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new(
 
 EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_with_title(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected,
+  uint64_t in_votes_allowed, char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   eg_selection_description_t *in_placeholder_selections[], uint64_t in_placeholder_selections_size,
@@ -711,7 +713,8 @@ EG_API eg_electionguard_status_t eg_contest_description_with_placeholders_new_wi
 EG_API eg_electionguard_status_t
 eg_contest_description_with_placeholders_new_with_title_and_parties(
   const char *in_object_id, char *in_electoral_district_id, uint64_t in_sequence_order,
-  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected, char *in_name,
+  eg_vote_variation_type_t in_vote_variation, uint64_t in_number_elected,
+  uint64_t in_votes_allowed, char *in_name,
   eg_internationalized_text_t *in_ballot_title, eg_internationalized_text_t *in_ballot_subtitle,
   eg_selection_description_t *in_selections[], uint64_t in_selections_size,
   char *in_primary_party_ids[], uint64_t in_primary_party_ids_size,
-- 
2.43.0


From d3894ad00358eea1e9a3403d532ead537bf3d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:41 +0000
Subject: [PATCH 65/68] fix: exceptions of the proof verifiers crossed the C
 interface

---
 src/electionguard/facades/chaum_pedersen.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/electionguard/facades/chaum_pedersen.cpp b/src/electionguard/facades/chaum_pedersen.cpp
index 003401f..c8ce01f 100644
--- a/src/electionguard/facades/chaum_pedersen.cpp
+++ b/src/electionguard/facades/chaum_pedersen.cpp
@@ -172,7 +172,13 @@ bool eg_disjunctive_chaum_pedersen_proof_is_valid(eg_disjunctive_chaum_pedersen_
     auto *ciphertext = AS_TYPE(ElGamalCiphertext, in_ciphertext);
     auto *k = AS_TYPE(ElementModP, in_k);
     auto *q = AS_TYPE(ElementModQ, in_q);
-    return AS_TYPE(DisjunctiveChaumPedersenProof, handle)->isValid(*ciphertext, *k, *q);
+
+    try {
+        return AS_TYPE(DisjunctiveChaumPedersenProof, handle)->isValid(*ciphertext, *k, *q);
+    } catch (const exception &e) {
+        Log::error(":eg_disjunctive_chaum_pedersen_proof_is_valid", e);
+        return false;
+    }
 }
 
 #pragma endregion
@@ -261,7 +267,13 @@ bool eg_constant_chaum_pedersen_proof_is_valid(eg_constant_chaum_pedersen_proof_
     auto *ciphertext = AS_TYPE(ElGamalCiphertext, in_ciphertext);
     auto *k = AS_TYPE(ElementModP, in_k);
     auto *q = AS_TYPE(ElementModQ, in_q);
-    return AS_TYPE(ConstantChaumPedersenProof, handle)->isValid(*ciphertext, *k, *q);
+
+    try {
+        return AS_TYPE(ConstantChaumPedersenProof, handle)->isValid(*ciphertext, *k, *q);
+    } catch (const exception &e) {
+        Log::error(":eg_constant_chaum_pedersen_proof_is_valid", e);
+        return false;
+    }
 }
 
 #pragma endregion
\ No newline at end of file
-- 
2.43.0


From 1aa2579edd5d0468939fb932f6e694c562654b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:45 +0000
Subject: [PATCH 66/68] fix: making an encrypted selection without a nonce
 dereferenced a null pointer

---
 src/electionguard/ballot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index a8fd004..7c6050e 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -274,7 +274,7 @@ namespace electionguard
         }
 
         unique_ptr<DisjunctiveChaumPedersenProof> proof = nullptr;
-        if (computeProof) {
+        if (computeProof && nonce != nullptr) {
             // always make a proof using the faster, non-deterministic method
             proof = DisjunctiveChaumPedersenProof::make(*ciphertext, *nonce, elgamalPublicKey,
                                                         cryptoExtendedBaseHash, plaintext);
-- 
2.43.0


From a05542e625397def1be97a636de2bff339f86d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:31 +0000
Subject: [PATCH 67/68] fix: a placeholder could take the identifier of a
 selection of its contest

A selection of the contest whose identifier equals the one generated for a
placeholder made two selections of the contest indistinguishable.
---
 src/electionguard/manifest.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/electionguard/manifest.cpp b/src/electionguard/manifest.cpp
index a5e5db6..df7a4f5 100644
--- a/src/electionguard/manifest.cpp
+++ b/src/electionguard/manifest.cpp
@@ -1997,19 +1997,22 @@ namespace electionguard
             vector<unique_ptr<SelectionDescription>> placeholders;
             placeholders.reserve(contest.get().getNumberElected());
             uint64_t maxSequenceOrder = 0;
+            std::set<string> selectionIds;
             for (const auto &selection : contest.get().getSelections()) {
+                selectionIds.insert(selection.get().getObjectId());
                 auto sequenceOrder = selection.get().getSequenceOrder();
                 if (sequenceOrder > maxSequenceOrder) {
                     maxSequenceOrder = sequenceOrder;
                 }
             }
 
-            maxSequenceOrder += 1;
-
-            for (uint64_t i = 0; i < contest.get().getNumberElected(); i++) {
+            while (placeholders.size() < contest.get().getNumberElected()) {
                 auto placeholder =
-                  generatePlaceholderSelectionFrom(contest.get(), maxSequenceOrder + i);
-                placeholders.push_back(move(placeholder));
+                  generatePlaceholderSelectionFrom(contest.get(), ++maxSequenceOrder);
+                // the contest may already use the generated identifier for a selection of its own
+                if (selectionIds.count(placeholder->getObjectId()) == 0) {
+                    placeholders.push_back(move(placeholder));
+                }
             }
             contests.push_back(
               make_unique<ContestDescriptionWithPlaceholders>(contest.get(), move(placeholders)));
-- 
2.43.0


From 672552edcf17d7d7056ac2237c260c8de6c987ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:31 +0000
Subject: [PATCH 68/68] fix: a sum of votes beyond 64 bits wrapped and was
 judged valid

---
 src/electionguard/ballot.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/electionguard/ballot.cpp b/src/electionguard/ballot.cpp
index 7c6050e..ea2751d 100644
--- a/src/electionguard/ballot.cpp
+++ b/src/electionguard/ballot.cpp
@@ -483,7 +483,9 @@ namespace electionguard
         uint64_t votes = 0;
 
         for (const auto &selection : pimpl->selections) {
-            votes += selection->getVote();
+            // more votes than can be counted are too many, not a small number of votes
+            votes = selection->getVote() > UINT64_MAX - votes ? UINT64_MAX
+                                                              : votes + selection->getVote();
             if (selection->getVote() >= 1) {
                 numberElected += 1;
             }
-- 
2.43.0

