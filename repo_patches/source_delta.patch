From a870a10ba7ef9f7a8a2fd4efb74ba6bdf597a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:59 +0000
Subject: [PATCH 1/9] fix: keep Grisu2 power lookup in bounds

generateDigits() indexes POWER10 with -kappa, which reaches 17 for
doubles with small integral parts, but the table only had 10 entries,
reading past the array and rounding with garbage.
---
 src/detail/dtoa.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/detail/dtoa.cpp b/src/detail/dtoa.cpp
index d925785..b3d4eba 100644
--- a/src/detail/dtoa.cpp
+++ b/src/detail/dtoa.cpp
@@ -31,7 +31,12 @@ static const char DIGITS[200] = {
     '9', '0', '9', '1', '9', '2', '9', '3', '9', '4', '9', '5', '9', '6', '9', '7', '9', '8', '9', '9'
 };
 static const char *DIGITS_PTR = DIGITS;
-static const uint32_t POWER10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000};
+static const uint64_t POWER10[] = {
+    1ULL, 10ULL, 100ULL, 1000ULL, 10000ULL,
+    100000ULL, 1000000ULL, 10000000ULL, 100000000ULL, 1000000000ULL,
+    10000000000ULL, 100000000000ULL, 1000000000000ULL, 10000000000000ULL, 100000000000000ULL,
+    1000000000000000ULL, 10000000000000000ULL, 100000000000000000ULL, 1000000000000000000ULL, 10000000000000000000ULL
+};
 static const uint64_t CACHED_POWERS_F[] = {
     0XFA8FD5A0081C0288ULL,
     0XBAAEE17FA23EBF76ULL,
-- 
2.43.0


From 201290ff6f520a1025e169ca0960ddefbfe88660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:37 +0000
Subject: [PATCH 2/9] fix: shift every word in BigInteger::operator<<=

A shift by a multiple of 64 only moved the most significant word (and
read past the last one), so any value wider than one word was corrupted.
---
 src/detail/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index b3cfba8..27761ac 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -331,7 +331,7 @@ BigInteger & BigInteger::operator<<=(size_t shift)
     LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
-        memmove(&digits_[count_ - 1 + offset], &digits_[count_ - 1], count_ * sizeof(uint64_t));
+        memmove(&digits_[offset], digits_, count_ * sizeof(uint64_t));
         count_ += offset;
     }
     else {
-- 
2.43.0


From f6cf82e9e3966b9125a2f1981b7d814773cae7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:37 +0000
Subject: [PATCH 3/9] fix: bound the carry word in BigInteger::operator<<=

A shift that is not a multiple of 64 writes one word above
count_ + offset, past the end of digits_ (over count_) when the
value fills the capacity.
---
 src/detail/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index 27761ac..c2bb414 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -328,7 +328,7 @@ BigInteger & BigInteger::operator<<=(size_t shift)
 
     size_t offset = shift / INT64_BYTE;
     size_t interShift = shift % INT64_BYTE;
-    LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");
+    LEXI_ASSERT(count_ + offset + (interShift != 0 ? 1 : 0) <= capacity, "BigInteger::operator<<= would exceeds bounds.");
 
     if (interShift == 0) {
         memmove(&digits_[offset], digits_, count_ * sizeof(uint64_t));
-- 
2.43.0


From 6ac9ffae2f2d4de783a34908dec99b5ec70f09a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:37 +0000
Subject: [PATCH 4/9] fix: propagate the borrow in BigInteger::difference

When a borrow came in and the subtrahend word was 2^64 - 1, the word was
unchanged and the outgoing borrow was lost.
---
 src/detail/bigint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/bigint.cpp b/src/detail/bigint.cpp
index c2bb414..05cacbe 100644
--- a/src/detail/bigint.cpp
+++ b/src/detail/bigint.cpp
@@ -409,10 +409,11 @@ bool BigInteger::difference(const BigInteger &other,
     uint64_t borrow = 0;
     for (size_t i = 0; i < a->count_; i++) {
         uint64_t d = a->digits_[i] - borrow;
+        borrow = (d > a->digits_[i]) ? 1 : 0;
         if (i < b->count_) {
+            borrow |= (d < b->digits_[i]) ? 1 : 0;
             d -= b->digits_[i];
         }
-        borrow = (d > a->digits_[i]) ? 1 : 0;
         out->digits_[i] = d;
         if (d != 0) {
             out->count_ = i + 1;
-- 
2.43.0


From d33620c6652b48a02a81a878c0a14eff4edf2292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:37 +0000
Subject: [PATCH 5/9] fix: derive the literal sizes from the configured
 literals

LEXI_TRUE, LEXI_FALSE and LEXI_NULL can be configured, but the sizes were
those of the defaults, and a longer literal overran the buffer. Use the
size of the literal, and reject at build time one that does not fit.
---
 src/bool.cpp  | 7 +++++--
 src/float.cpp | 4 ++++
 src/null.cpp  | 4 +++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bool.cpp b/src/bool.cpp
index a67d1b4..e5988a0 100644
--- a/src/bool.cpp
+++ b/src/bool.cpp
@@ -25,12 +25,15 @@ static const char FALSE_STRING[] = LEXI_FALSE;
 
 FormatBool::FormatBool(const bool b)
 {
+    static_assert(sizeof(TRUE_STRING) <= sizeof(buffer_), "LEXI_TRUE is too long.");
+    static_assert(sizeof(FALSE_STRING) <= sizeof(buffer_), "LEXI_FALSE is too long.");
+
     if (b) {
         strncpy(buffer_, TRUE_STRING, sizeof(TRUE_STRING));
-        size_ = 4;
+        size_ = sizeof(TRUE_STRING) - 1;
     } else {
         strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));
-        size_ = 5;
+        size_ = sizeof(FALSE_STRING) - 1;
     }
 }
 
diff --git a/src/float.cpp b/src/float.cpp
index 52f7535..10d4317 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -30,6 +30,10 @@ static const char NEGATIVE_INFINITY_STRING[] = LEXI_NEGATIVE_INFINITY;
  */
 void FormatFloat::format(long double value)
 {
+    static_assert(sizeof(NAN_STRING) <= sizeof(buffer_), "LEXI_NAN is too long.");
+    static_assert(sizeof(INFINITY_STRING) <= sizeof(buffer_), "LEXI_INFINITY is too long.");
+    static_assert(sizeof(NEGATIVE_INFINITY_STRING) <= sizeof(buffer_), "LEXI_NEGATIVE_INFINITY is too long.");
+
     first = buffer_;
     last = buffer_;
     if (!detail::isFinite(value)) {
diff --git a/src/null.cpp b/src/null.cpp
index 905a338..e2d6336 100644
--- a/src/null.cpp
+++ b/src/null.cpp
@@ -24,12 +24,14 @@ static const char NULL_STRING[] = LEXI_NULL;
 
 FormatNull::FormatNull()
 {
+    static_assert(sizeof(NULL_STRING) <= sizeof(buffer_), "LEXI_NULL is too long.");
     strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
 }
 
 
 FormatNull::FormatNull(const std::nullptr_t nullp)
 {
+    static_assert(sizeof(NULL_STRING) <= sizeof(buffer_), "LEXI_NULL is too long.");
     strncpy(buffer_, NULL_STRING, sizeof(NULL_STRING));
 }
 
@@ -38,7 +40,7 @@ FormatNull::FormatNull(const std::nullptr_t nullp)
  */
 size_t FormatNull::size() const
 {
-    return 4;
+    return sizeof(NULL_STRING) - 1;
 }
 
 
-- 
2.43.0


From 2546d9803b761476d738c6d68fd14605612089ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:37 +0000
Subject: [PATCH 6/9] fix: round extracted floats once

float and double were narrowed from a parsed long double, which rounds
twice: 2.3229841458370558e201, as formatted, was read back as the next
double.
---
 include/lexi/float.hpp | 2 ++
 src/float.cpp          | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index caf710e..018d814 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -52,6 +52,8 @@ public:
 class ExtractFloat
 {
 protected:
+    float float_;
+    double double_;
     long double data_;
 
 public:
diff --git a/src/float.cpp b/src/float.cpp
index 10d4317..b7853f8 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -141,6 +141,9 @@ FormatFloat::operator std::string() const
 ExtractFloat::ExtractFloat(const std::string &string)
 {
     // TODO: optimize this.
+    // Each type is parsed on its own: narrowing a long double would round twice.
+    float_ = std::strtof(string.data(), nullptr);
+    double_ = std::strtod(string.data(), nullptr);
     data_ = std::strtold(string.data(), nullptr);
 }
 
@@ -149,7 +152,7 @@ ExtractFloat::ExtractFloat(const std::string &string)
  */
 ExtractFloat::operator float() const
 {
-    return data_;
+    return float_;
 }
 
 
@@ -157,7 +160,7 @@ ExtractFloat::operator float() const
  */
 ExtractFloat::operator double() const
 {
-    return data_;
+    return double_;
 }
 
 
-- 
2.43.0


From c94d5e75c2ea16a82d437284152457c7c934feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:37 +0000
Subject: [PATCH 7/9] fix: make copies of formatters independent

The implicit copy operations of FormatInt (and FormatEnum) and
FormatFloat kept pointers into the buffer of the source, which dangle
once it is gone.
---
 include/lexi/float.hpp |  2 ++
 include/lexi/int.hpp   |  2 ++
 src/float.cpp          | 25 +++++++++++++++++++++++++
 src/int.cpp            | 27 +++++++++++++++++++++++++++
 4 files changed, 56 insertions(+)

diff --git a/include/lexi/float.hpp b/include/lexi/float.hpp
index 018d814..4a2b128 100644
--- a/include/lexi/float.hpp
+++ b/include/lexi/float.hpp
@@ -31,6 +31,8 @@ public:
     FormatFloat(float value);
     FormatFloat(double value);
     FormatFloat(long double value);
+    FormatFloat(const FormatFloat &other);
+    FormatFloat & operator=(const FormatFloat &other);
 
     // DATA
     size_t size() const;
diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index bd6e3ae..afd22ae 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -36,6 +36,8 @@ public:
     FormatInt(unsigned long value);
     FormatInt(long long value);
     FormatInt(unsigned long long value);
+    FormatInt(const FormatInt &other);
+    FormatInt & operator=(const FormatInt &other);
 
     // DATA
     size_t size() const;
diff --git a/src/float.cpp b/src/float.cpp
index b7853f8..7e2fcb7 100644
--- a/src/float.cpp
+++ b/src/float.cpp
@@ -72,6 +72,31 @@ FormatFloat::FormatFloat(long double value)
 }
 
 
+/** \brief Copy constructor.
+ *
+ *  The bounds must point into the new buffer, not into that of `other`.
+ */
+FormatFloat::FormatFloat(const FormatFloat &other)
+{
+    memcpy(buffer_, other.buffer_, sizeof(buffer_));
+    first = buffer_;
+    last = buffer_ + other.size();
+}
+
+
+/** \brief Copy assignment operator.
+ */
+FormatFloat & FormatFloat::operator=(const FormatFloat &other)
+{
+    if (this != &other) {
+        memcpy(buffer_, other.buffer_, sizeof(buffer_));
+        first = buffer_;
+        last = buffer_ + other.size();
+    }
+    return *this;
+}
+
+
 /** \brief Size of current buffer.
  */
 size_t FormatFloat::size() const
diff --git a/src/int.cpp b/src/int.cpp
index 93884db..93a70ea 100644
--- a/src/int.cpp
+++ b/src/int.cpp
@@ -9,6 +9,8 @@
 #include "lexi/detail/architecture.hpp"
 #include "lexi/detail/itoa.hpp"
 
+#include <cstring>
+
 
 namespace lexi
 {
@@ -110,6 +112,31 @@ FormatInt::FormatInt(unsigned long long value)
 }
 
 
+/** \brief Copy constructor.
+ *
+ *  The bounds must point into the new buffer, not into that of `other`.
+ */
+FormatInt::FormatInt(const FormatInt &other)
+{
+    memcpy(buffer_, other.buffer_, sizeof(buffer_));
+    first = buffer_;
+    last = buffer_ + other.size();
+}
+
+
+/** \brief Copy assignment operator.
+ */
+FormatInt & FormatInt::operator=(const FormatInt &other)
+{
+    if (this != &other) {
+        memcpy(buffer_, other.buffer_, sizeof(buffer_));
+        first = buffer_;
+        last = buffer_ + other.size();
+    }
+    return *this;
+}
+
+
 /** \brief Number of characters written to the output buffer.
  */
 size_t FormatInt::size() const
-- 
2.43.0


From ca926263adca4cdb09e7b4827c94b27010f1d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:43 +0000
Subject: [PATCH 8/9] fix: include <cstdint> in int.hpp

lexi.hpp, int.hpp and enum.hpp use uint8_t and did not compile on their own.
---
 include/lexi/int.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lexi/int.hpp b/include/lexi/int.hpp
index afd22ae..18759ec 100644
--- a/include/lexi/int.hpp
+++ b/include/lexi/int.hpp
@@ -9,6 +9,8 @@
 
 #include "detail/fmt.hpp"
 
+#include <cstdint>
+
 
 namespace lexi
 {
-- 
2.43.0


From 826783c400978a1d2a025981f5b4d9ab07a19138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:29 +0000
Subject: [PATCH 9/9] fix: long is formatted with 32 bits by compilers other
 than GCC and MSVC

SYSTEM_ARCHITECTURE was left undefined unless _WIN32 or __GNUC__ is defined,
so a 64-bit long was formatted from its low 32 bits.
---
 include/lexi/detail/architecture.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/lexi/detail/architecture.hpp b/include/lexi/detail/architecture.hpp
index 34aa284..6746280 100644
--- a/include/lexi/detail/architecture.hpp
+++ b/include/lexi/detail/architecture.hpp
@@ -34,3 +34,15 @@
 #       define SYSTEM_ARCHITECTURE 32
 #   endif
 #endif
+
+// OTHER
+// -----
+
+#ifndef SYSTEM_ARCHITECTURE
+#   include <climits>
+#   if ULONG_MAX > 0xFFFFFFFFUL
+#       define SYSTEM_ARCHITECTURE 64
+#   else
+#       define SYSTEM_ARCHITECTURE 32
+#   endif
+#endif
-- 
2.43.0

