From 2849897b2f6f891bf0c80fb58a620622aafff77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 01/92] fix: Round exact rationals exactly, and ties to even

floor, ceiling, truncate and round of an exact non-integer went through
double; round rounded ties away from zero.
---
 src/kernel/number/nearest_integer.cpp | 29 +++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/kernel/number/nearest_integer.cpp b/src/kernel/number/nearest_integer.cpp
index 9d2e5d7..ca69b85 100644
--- a/src/kernel/number/nearest_integer.cpp
+++ b/src/kernel/number/nearest_integer.cpp
@@ -18,7 +18,24 @@
 
 namespace meevax::inline kernel::number
 {
-  #define DEFINE(NAME, CMATH)                                                  \
+  template <void (*mpz_div_q)(mpz_ptr, mpz_srcptr, mpz_srcptr)>
+  auto divide(ratio const& x) -> large_integer
+  {
+    large_integer q {};
+    mpz_div_q(q.value, x.numerator().value, x.denominator().value);
+    return q;
+  }
+
+  auto divide_to_even(ratio const& x) -> large_integer
+  {
+    large_integer q {}, r {};
+    mpz_mul_2exp(r.value, x.numerator().value, 1);
+    mpz_add(r.value, r.value, x.denominator().value);
+    mpz_fdiv_qr(q.value, r.value, r.value, large_integer(x.denominator() + x.denominator()).value); // floor(x + 1/2)
+    return r or mpz_even_p(q.value) ? q : q - 1_i64;
+  }
+
+  #define DEFINE(NAME, CMATH, DIVIDE)                                          \
   auto NAME(object const& x) -> object                                         \
   {                                                                            \
     auto f = []<typename T>(T const& x)                                        \
@@ -29,7 +46,7 @@ namespace meevax::inline kernel::number
       }                                                                        \
       else if constexpr (std::is_same_v<T, ratio>)                             \
       {                                                                        \
-        return large_integer(CMATH(static_cast<double>(x)));                   \
+        return DIVIDE(x);                                                      \
       }                                                                        \
       else if constexpr (std::is_same_v<T, large_integer> or std::is_integral_v<T>) \
       {                                                                        \
@@ -45,8 +62,8 @@ namespace meevax::inline kernel::number
     return apply_to<complex_number>(f, x);                                     \
   }
 
-  DEFINE(floor,    std::floor)
-  DEFINE(ceiling,  std::ceil)
-  DEFINE(truncate, std::trunc)
-  DEFINE(round,    std::round)
+  DEFINE(floor,    std::floor,     divide<mpz_fdiv_q>)
+  DEFINE(ceiling,  std::ceil,      divide<mpz_cdiv_q>)
+  DEFINE(truncate, std::trunc,     divide<mpz_tdiv_q>)
+  DEFINE(round,    std::nearbyint, divide_to_even)
 } // namespace meevax::kernel::number
-- 
2.43.0


From a03f2a957000b3f4a26a4104fb5b9601071361b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 02/92] fix: Convert large integers and ratios to the closest
 flonum

mpz_get_d and mpq_get_d truncate: (inexact 1/10) was not 0.1.
---
 include/meevax/kernel/large_integer.hpp |  4 +++-
 include/meevax/kernel/ratio.hpp         |  4 +++-
 src/kernel/large_integer.cpp            | 28 +++++++++++++++++++++++++
 src/kernel/ratio.cpp                    | 21 +++++++++++++++++++
 4 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/large_integer.hpp b/include/meevax/kernel/large_integer.hpp
index 0ed1333..87d13ba 100644
--- a/include/meevax/kernel/large_integer.hpp
+++ b/include/meevax/kernel/large_integer.hpp
@@ -71,7 +71,7 @@ namespace meevax::inline kernel
     {
       if constexpr (std::is_floating_point_v<T>)
       {
-        return mpz_get_d(value);
+        return to_double();
       }
       else if constexpr (std::is_signed_v<T>)
       {
@@ -83,6 +83,8 @@ namespace meevax::inline kernel
       }
     }
 
+    auto to_double() const -> double; // The closest double (mpz_get_d truncates).
+
     auto sqrt() const -> std::tuple<large_integer, large_integer>;
   };
 
diff --git a/include/meevax/kernel/ratio.hpp b/include/meevax/kernel/ratio.hpp
index 03daa0e..823d946 100644
--- a/include/meevax/kernel/ratio.hpp
+++ b/include/meevax/kernel/ratio.hpp
@@ -50,8 +50,10 @@ namespace meevax::inline kernel
     template <typename T>
     explicit operator T() const
     {
-      return mpq_get_d(value);
+      return static_cast<T>(to_double());
     }
+
+    auto to_double() const -> double; // The closest double (mpq_get_d truncates).
   };
 
   auto operator <<(std::ostream &, ratio const&) -> std::ostream &;
diff --git a/src/kernel/large_integer.cpp b/src/kernel/large_integer.cpp
index b2df3d4..ebfbeb1 100644
--- a/src/kernel/large_integer.cpp
+++ b/src/kernel/large_integer.cpp
@@ -14,7 +14,9 @@
    limitations under the License.
 */
 
+#include <cmath> // std::ldexp
 #include <cstring> // std::strlen
+#include <limits>
 #include <memory> // std::unique_ptr
 
 #include <meevax/kernel/collector.hpp>
@@ -90,6 +92,32 @@ namespace meevax::inline kernel
     return (*value)._mp_size;
   }
 
+  auto large_integer::to_double() const -> double
+  {
+    if (auto const width = mpz_sizeinbase(value, 2); width <= 64)
+    {
+      auto const magnitude = static_cast<double>(mpz_get_ui(value));
+      return mpz_sgn(value) < 0 ? -magnitude : magnitude;
+    }
+    else
+    {
+      auto const shift = width - 64;
+
+      large_integer i {};
+      mpz_tdiv_q_2exp(i.value, value, shift);
+
+      auto bits = mpz_get_ui(i.value); // Absolute value.
+
+      if (mpz_scan1(value, 0) < shift)
+      {
+        bits |= 1; // Sticky bit.
+      }
+
+      auto const magnitude = shift < 2048 ? std::ldexp(static_cast<double>(bits), static_cast<int>(shift)) : std::numeric_limits<double>::infinity();
+      return mpz_sgn(value) < 0 ? -magnitude : magnitude;
+    }
+  }
+
   auto large_integer::sqrt() const -> std::tuple<large_integer, large_integer>
   {
     large_integer s, r;
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 9842e7d..3cffa75 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -93,6 +93,27 @@ namespace meevax::inline kernel
     return large_integer(mpq_numref(value));
   }
 
+  auto ratio::to_double() const -> double
+  {
+    auto const shift = 63 + static_cast<std::int64_t>(mpz_sizeinbase(mpq_denref(value), 2))
+                          - static_cast<std::int64_t>(mpz_sizeinbase(mpq_numref(value), 2));
+
+    auto const s = std::min<std::int64_t>(shift, 1076); // Bits below half the smallest subnormal matter only as a sticky bit.
+
+    auto n = numerator(), d = denominator(), r = large_integer();
+
+    mpz_mul_2exp(n.value, n.value, std::max<std::int64_t>(+s, 0));
+    mpz_mul_2exp(d.value, d.value, std::max<std::int64_t>(-s, 0));
+    mpz_tdiv_qr(n.value, r.value, n.value, d.value);
+
+    if (r and mpz_even_p(n.value))
+    {
+      n = n + static_cast<widen_integer>(mpq_sgn(value));
+    }
+
+    return std::ldexp(n.to_double(), static_cast<int>(-s));
+  }
+
   auto operator <<(std::ostream & os, ratio const& datum) -> std::ostream &
   {
     auto free = [](char * data)
-- 
2.43.0


From 59746b65d7be853e4ed50efe146db23422244483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 03/92] fix: Infinities are not integers and NaN is not finite

---
 src/kernel/number.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 78f6b73..52eaac2 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -628,7 +628,7 @@ namespace number
       }
       else if constexpr (std::is_floating_point_v<T>)
       {
-        return x == std::trunc(x);
+        return std::isfinite(x) and x == std::trunc(x);
       }
       else if constexpr (std::is_same_v<T, ratio>)
       {
@@ -678,7 +678,7 @@ namespace number
 
   auto is_finite(object const& x) -> bool
   {
-    return not is_infinite(x);
+    return not is_infinite(x) and not is_nan(x);
   }
 
   auto is_infinite(object const& x) -> bool
-- 
2.43.0


From daac8240774e0a7c8fc64bd2dd4426c91fed94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 04/92] fix: Comparing NaN with a large integer raised SIGFPE

---
 src/kernel/number.cpp | 48 +++++++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 52eaac2..8a476b5 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -101,24 +101,24 @@ namespace meevax::inline kernel
   auto operator * (large_integer const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (large_integer const& a, float b) -> float { return static_cast<float>(a) /  b; }
   auto operator % (large_integer const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
-  auto operator ==(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) == 0; }
-  auto operator !=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) != 0; }
-  auto operator < (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <  0; }
-  auto operator <=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) <= 0; }
-  auto operator > (large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) >  0; }
-  auto operator >=(large_integer const& a, float b) -> bool  { return mpz_cmp_d(a.value, b) >= 0; }
+  auto operator ==(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) == 0; }
+  auto operator !=(large_integer const& a, float b) -> bool  { return std::isnan(b) or mpz_cmp_d(a.value, b) != 0; }
+  auto operator <(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) <  0; }
+  auto operator <=(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) <= 0; }
+  auto operator >(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) >  0; }
+  auto operator >=(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) >= 0; }
 
   auto operator + (large_integer const& a, double b) -> double { return static_cast<double>(a) +  b; }
   auto operator - (large_integer const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (large_integer const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (large_integer const& a, double b) -> double { return static_cast<double>(a) /  b; }
   auto operator % (large_integer const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
-  auto operator ==(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) == 0; }
-  auto operator !=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) != 0; }
-  auto operator < (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <  0; }
-  auto operator <=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) <= 0; }
-  auto operator > (large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) >  0; }
-  auto operator >=(large_integer const& a, double b) -> bool   { return mpz_cmp_d(a.value, b) >= 0; }
+  auto operator ==(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) == 0; }
+  auto operator !=(large_integer const& a, double b) -> bool   { return std::isnan(b) or mpz_cmp_d(a.value, b) != 0; }
+  auto operator <(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) <  0; }
+  auto operator <=(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) <= 0; }
+  auto operator >(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) >  0; }
+  auto operator >=(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) >= 0; }
 
   auto operator + (large_integer const& a, complex const& b) -> complex { return complex(make<large_integer>(a), e0) +  b; }
   auto operator - (large_integer const& a, complex const& b) -> complex { return complex(make<large_integer>(a), e0) -  b; }
@@ -199,12 +199,12 @@ namespace meevax::inline kernel
   auto operator * (float a, large_integer const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, large_integer const& b) -> float { return a /  static_cast<float>(b); }
   auto operator % (float a, large_integer const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
-  auto operator ==(float a, large_integer const& b) -> bool  { return 0 == mpz_cmp_d(b.value, a); }
-  auto operator !=(float a, large_integer const& b) -> bool  { return 0 != mpz_cmp_d(b.value, a); }
-  auto operator < (float a, large_integer const& b) -> bool  { return 0 <  mpz_cmp_d(b.value, a); }
-  auto operator <=(float a, large_integer const& b) -> bool  { return 0 <= mpz_cmp_d(b.value, a); }
-  auto operator > (float a, large_integer const& b) -> bool  { return 0 >  mpz_cmp_d(b.value, a); }
-  auto operator >=(float a, large_integer const& b) -> bool  { return 0 >= mpz_cmp_d(b.value, a); }
+  auto operator ==(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 == mpz_cmp_d(b.value, a); }
+  auto operator !=(float a, large_integer const& b) -> bool  { return std::isnan(a) or 0 != mpz_cmp_d(b.value, a); }
+  auto operator <(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 <  mpz_cmp_d(b.value, a); }
+  auto operator <=(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 <= mpz_cmp_d(b.value, a); }
+  auto operator >(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 >  mpz_cmp_d(b.value, a); }
+  auto operator >=(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 >= mpz_cmp_d(b.value, a); }
 
   auto operator + (float a, ratio const& b) -> float { return a +  static_cast<float>(b); }
   auto operator - (float a, ratio const& b) -> float { return a -  static_cast<float>(b); }
@@ -230,12 +230,12 @@ namespace meevax::inline kernel
   auto operator * (double a, large_integer const& b) -> double { return a * static_cast<double>(b); }
   auto operator / (double a, large_integer const& b) -> double { return a / static_cast<double>(b); }
   auto operator % (double a, large_integer const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
-  auto operator ==(double a, large_integer const& b) -> bool   { return 0 == mpz_cmp_d(b.value, a); }
-  auto operator !=(double a, large_integer const& b) -> bool   { return 0 != mpz_cmp_d(b.value, a); }
-  auto operator < (double a, large_integer const& b) -> bool   { return 0 <  mpz_cmp_d(b.value, a); }
-  auto operator <=(double a, large_integer const& b) -> bool   { return 0 <= mpz_cmp_d(b.value, a); }
-  auto operator > (double a, large_integer const& b) -> bool   { return 0 >  mpz_cmp_d(b.value, a); }
-  auto operator >=(double a, large_integer const& b) -> bool   { return 0 >= mpz_cmp_d(b.value, a); }
+  auto operator ==(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 == mpz_cmp_d(b.value, a); }
+  auto operator !=(double a, large_integer const& b) -> bool   { return std::isnan(a) or 0 != mpz_cmp_d(b.value, a); }
+  auto operator <(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 <  mpz_cmp_d(b.value, a); }
+  auto operator <=(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 <= mpz_cmp_d(b.value, a); }
+  auto operator >(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 >  mpz_cmp_d(b.value, a); }
+  auto operator >=(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 >= mpz_cmp_d(b.value, a); }
 
   auto operator + (double a, ratio const& b) -> double { return a +  static_cast<double>(b); }
   auto operator - (double a, ratio const& b) -> double { return a -  static_cast<double>(b); }
-- 
2.43.0


From 81b090f6ada4d21013044e7f558dfafa90baf0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 05/92] fix: gcd and lcm of one negative integer, lcm of zeros

---
 src/kernel/boot.cpp   | 4 ++--
 src/kernel/number.cpp | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 898916c..d68d341 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -213,8 +213,8 @@ namespace meevax::inline kernel
       { "quotient",                      [](let const& xs) { return quotient(car(xs), cadr(xs)); } },
       { "remainder",                     [](let const& xs) { return remainder(car(xs), cadr(xs)); } },
       { "modulo",                        [](let const& xs) { return modulo(car(xs), cadr(xs)); } },
-      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
-      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return car(xs); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
+      { "gcd",                           [](let const& xs) { switch (length(xs)) { case 0: return e0; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), gcd); } } },
+      { "lcm",                           [](let const& xs) { switch (length(xs)) { case 0: return e1; case 1: return abs(car(xs)); default: return fold_left(cdr(xs) | as_proper_list, car(xs), lcm); } } },
       { "numerator",                     [](let const& xs) { return numerator(car(xs)); } },
       { "denominator",                   [](let const& xs) { return denominator(car(xs)); } },
       { "floor",                         [](let const& xs) { return floor(car(xs)); } },
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 8a476b5..e9385bf 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -803,7 +803,8 @@ namespace number
 
   auto lcm(object const& x, object const& y) -> object
   {
-    return abs(quotient(x * y, gcd(x, y)));
+    let const z = gcd(x, y);
+    return is_zero(z) ? z : abs(quotient(x * y, z));
   }
 
   auto real(object const& x) -> object
-- 
2.43.0


From 8d5f02df9ccc0813ef41b8c04067231f01fb02cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 06/92] fix: magnitude of a negative real and the argument
 order of angle

---
 src/kernel/number.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index e9385bf..4ce4a21 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -851,7 +851,7 @@ namespace number
       }
       else
       {
-        return x;
+        return abs(canonicalize(x));
       }
     };
 
@@ -860,7 +860,7 @@ namespace number
 
   auto angle(object const& x) -> object
   {
-    return atan2(real(x), imag(x));
+    return atan2(imag(x), real(x));
   }
 
   auto numerator(object const& x) -> object
-- 
2.43.0


From a842ac4774fc05820589eb7de040a6adbdcf21f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 07/92] fix: remainder of a flonum and a large integer
 truncates

std::remainder rounds to nearest, unlike the std::fmod used for other operands.
---
 src/kernel/number.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 4ce4a21..f22575e 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
   auto operator - (large_integer const& a, float b) -> float { return static_cast<float>(a) -  b; }
   auto operator * (large_integer const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (large_integer const& a, float b) -> float { return static_cast<float>(a) /  b; }
-  auto operator % (large_integer const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
+  auto operator % (large_integer const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) == 0; }
   auto operator !=(large_integer const& a, float b) -> bool  { return std::isnan(b) or mpz_cmp_d(a.value, b) != 0; }
   auto operator <(large_integer const& a, float b) -> bool  { return not std::isnan(b) and mpz_cmp_d(a.value, b) <  0; }
@@ -112,7 +112,7 @@ namespace meevax::inline kernel
   auto operator - (large_integer const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (large_integer const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (large_integer const& a, double b) -> double { return static_cast<double>(a) /  b; }
-  auto operator % (large_integer const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
+  auto operator % (large_integer const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) == 0; }
   auto operator !=(large_integer const& a, double b) -> bool   { return std::isnan(b) or mpz_cmp_d(a.value, b) != 0; }
   auto operator <(large_integer const& a, double b) -> bool   { return not std::isnan(b) and mpz_cmp_d(a.value, b) <  0; }
@@ -167,7 +167,7 @@ namespace meevax::inline kernel
   auto operator - (ratio const& a, float b) -> float { return static_cast<float>(a) -  b; }
   auto operator * (ratio const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (ratio const& a, float b) -> float { return static_cast<float>(a) /  b; }
-  auto operator % (ratio const& a, float b) -> float { return std::remainder(static_cast<float>(a), b); }
+  auto operator % (ratio const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(ratio const& a, float b) -> bool  { return inexact_equals(static_cast<float>(a), b); }
   auto operator !=(ratio const& a, float b) -> bool  { return not (a == b); }
   auto operator < (ratio const& a, float b) -> bool  { return static_cast<float>(a) <  b; }
@@ -179,7 +179,7 @@ namespace meevax::inline kernel
   auto operator - (ratio const& a, double b) -> double { return static_cast<double>(a) -  b; }
   auto operator * (ratio const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (ratio const& a, double b) -> double { return static_cast<double>(a) /  b; }
-  auto operator % (ratio const& a, double b) -> double { return std::remainder(static_cast<double>(a), b); }
+  auto operator % (ratio const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(ratio const& a, double b) -> bool   { return inexact_equals(static_cast<double>(a), b); }
   auto operator !=(ratio const& a, double b) -> bool   { return not (a == b); }
   auto operator < (ratio const& a, double b) -> bool   { return static_cast<double>(a) <  b; }
@@ -198,7 +198,7 @@ namespace meevax::inline kernel
   auto operator - (float a, large_integer const& b) -> float { return a -  static_cast<float>(b); }
   auto operator * (float a, large_integer const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, large_integer const& b) -> float { return a /  static_cast<float>(b); }
-  auto operator % (float a, large_integer const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
+  auto operator % (float a, large_integer const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 == mpz_cmp_d(b.value, a); }
   auto operator !=(float a, large_integer const& b) -> bool  { return std::isnan(a) or 0 != mpz_cmp_d(b.value, a); }
   auto operator <(float a, large_integer const& b) -> bool  { return not std::isnan(a) and 0 <  mpz_cmp_d(b.value, a); }
@@ -210,7 +210,7 @@ namespace meevax::inline kernel
   auto operator - (float a, ratio const& b) -> float { return a -  static_cast<float>(b); }
   auto operator * (float a, ratio const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, ratio const& b) -> float { return a /  static_cast<float>(b); }
-  auto operator % (float a, ratio const& b) -> float { return std::remainder(a, static_cast<float>(b)); }
+  auto operator % (float a, ratio const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, ratio const& b) -> bool  { return inexact_equals(a, static_cast<float>(b)); }
   auto operator !=(float a, ratio const& b) -> bool  { return not (a == b); }
   auto operator < (float a, ratio const& b) -> bool  { return a <  static_cast<float>(b); }
@@ -229,7 +229,7 @@ namespace meevax::inline kernel
   auto operator - (double a, large_integer const& b) -> double { return a - static_cast<double>(b); }
   auto operator * (double a, large_integer const& b) -> double { return a * static_cast<double>(b); }
   auto operator / (double a, large_integer const& b) -> double { return a / static_cast<double>(b); }
-  auto operator % (double a, large_integer const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
+  auto operator % (double a, large_integer const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 == mpz_cmp_d(b.value, a); }
   auto operator !=(double a, large_integer const& b) -> bool   { return std::isnan(a) or 0 != mpz_cmp_d(b.value, a); }
   auto operator <(double a, large_integer const& b) -> bool   { return not std::isnan(a) and 0 <  mpz_cmp_d(b.value, a); }
@@ -241,7 +241,7 @@ namespace meevax::inline kernel
   auto operator - (double a, ratio const& b) -> double { return a -  static_cast<double>(b); }
   auto operator * (double a, ratio const& b) -> double { return a *  static_cast<double>(b); }
   auto operator / (double a, ratio const& b) -> double { return a /  static_cast<double>(b); }
-  auto operator % (double a, ratio const& b) -> double { return std::remainder(a, static_cast<double>(b)); }
+  auto operator % (double a, ratio const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, ratio const& b) -> bool   { return inexact_equals(a, static_cast<double>(b)); }
   auto operator !=(double a, ratio const& b) -> bool   { return not (a == b); }
   auto operator < (double a, ratio const& b) -> bool   { return a <  static_cast<double>(b); }
-- 
2.43.0


From 055f3cc80dfe3074ee0bb4a44977866b9073e892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:16 +0000
Subject: [PATCH 08/92] fix: Negating 0.0 gives -0.0

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index d68d341..b9115e0 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -207,7 +207,7 @@ namespace meevax::inline kernel
       { "min",                           [](let const& xs) { if (auto iter = std::ranges::min_element(xs | as_proper_list, less_than); iter != std::ranges::end(xs | as_proper_list)) { return std::ranges::any_of(xs | as_proper_list, is_inexact) ? inexact(*iter) : *iter; } else { return unspecified; } } },
       { "+",                             [](let const& xs) { return fold_left(xs | as_proper_list, e0, std::plus()); } },
       { "*",                             [](let const& xs) { return fold_left(xs | as_proper_list, e1, std::multiplies()); } },
-      { "-",                             [](let const& xs) { return cdr(xs).is<pair>() ? fold_left(cdr(xs) | as_proper_list, car(xs), std::minus  ()) : e0 - car(xs); } },
+      { "-",                             [](let const& xs) { return cdr(xs).is<pair>() ? fold_left(cdr(xs) | as_proper_list, car(xs), std::minus  ()) : make<small_integer>(-1) * car(xs); } },
       { "/",                             [](let const& xs) { return cdr(xs).is<pair>() ? fold_left(cdr(xs) | as_proper_list, car(xs), std::divides()) : e1 / car(xs); } },
       { "abs",                           [](let const& xs) { return abs(car(xs)); } },
       { "quotient",                      [](let const& xs) { return quotient(car(xs), cadr(xs)); } },
-- 
2.43.0


From 2d42cee6a104045d4eb3b95e234c075374298d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 09/92] fix: expt of an exact rational and an exact integer is
 exact

It went through double: (expt 3 50) lost digits and (expt 10 -2) was 0.
---
 src/kernel/number/power.cpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/kernel/number/power.cpp b/src/kernel/number/power.cpp
index 0953a43..674e1ee 100644
--- a/src/kernel/number/power.cpp
+++ b/src/kernel/number/power.cpp
@@ -43,25 +43,29 @@ namespace meevax::inline kernel::number
         return complex(make<double>(z.real()),
                        make<double>(z.imag()));
       }
-      else if constexpr (std::is_same_v<T, widen_integer> and
-                         std::is_same_v<U, widen_integer>)
+      else if constexpr (not std::is_floating_point_v<T> and
+                         std::is_same_v<U, widen_integer>) // An exact rational to the power of an exact integer.
       {
-        if (auto result = std::pow(x, y); std::numeric_limits<small_integer>::min() <= result and result <= std::numeric_limits<small_integer>::max())
+        auto const q = ratio(x);
+
+        auto n = q.numerator(), d = q.denominator();
+
+        mpz_pow_ui(n.value, n.value, std::abs(y));
+        mpz_pow_ui(d.value, d.value, std::abs(y));
+
+        if (0 <= y)
         {
-          return make<small_integer>(static_cast<small_integer>(result));
+          return ratio(n, d);
+        }
+        else if (n)
+        {
+          return ratio(d, n);
         }
         else
         {
-          return make<large_integer>(result);
+          throw error(make<string>("division by zero"), unit);
         }
       }
-      else if constexpr (std::is_same_v<T, large_integer> and
-                         std::is_same_v<U, large_integer>)
-      {
-        large_integer result {};
-        mpz_pow_ui(result.value, x.value, static_cast<unsigned long>(y));
-        return result;
-      }
       else
       {
         return std::pow(static_cast<double>(std::forward<decltype(x)>(x)),
-- 
2.43.0


From ba1cdfe488acca2cc84abd3b8f30bfc5808dc967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 10/92] fix: Compare strings case-insensitively

string-ci=?, string-ci<=? and string-ci>=? passed something that is not a
strict weak order to std::lexicographical_compare.
---
 src/kernel/boot.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index b9115e0..04a5936 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -356,11 +356,11 @@ namespace meevax::inline kernel
       { "string>?",                      [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >  b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string<=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() <= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string>=?",                     [](let const& xs) { auto compare = [](let const& a, let const& b) { return not (a.as<string>() >= b.as<string>()); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci=?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() == c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>?",                   [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >  c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci<=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() <= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
-      { "string-ci>=?",                  [](let const& xs) { auto compare = [](let const& s1, let const& s2) { auto compare = [](auto const& c1, auto const& c2) { return c1.downcase() >= c2.downcase(); }; return not std::lexicographical_compare(s1.as<string>().characters.begin(), s1.as<string>().characters.end(), s2.as<string>().characters.begin(), s2.as<string>().characters.end(), compare); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci=?",                   [](let const& xs) { auto compare = [](let const& a, let const& b) { auto downcase = [](std::vector<character> cs) { for (auto& c : cs) { c = character(c.downcase()); } return cs; }; return not (downcase(a.as<string>().characters) == downcase(b.as<string>().characters)); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<?",                   [](let const& xs) { auto compare = [](let const& a, let const& b) { auto downcase = [](std::vector<character> cs) { for (auto& c : cs) { c = character(c.downcase()); } return cs; }; return not (downcase(a.as<string>().characters) <  downcase(b.as<string>().characters)); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>?",                   [](let const& xs) { auto compare = [](let const& a, let const& b) { auto downcase = [](std::vector<character> cs) { for (auto& c : cs) { c = character(c.downcase()); } return cs; }; return not (downcase(a.as<string>().characters) >  downcase(b.as<string>().characters)); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci<=?",                  [](let const& xs) { auto compare = [](let const& a, let const& b) { auto downcase = [](std::vector<character> cs) { for (auto& c : cs) { c = character(c.downcase()); } return cs; }; return not (downcase(a.as<string>().characters) <= downcase(b.as<string>().characters)); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
+      { "string-ci>=?",                  [](let const& xs) { auto compare = [](let const& a, let const& b) { auto downcase = [](std::vector<character> cs) { for (auto& c : cs) { c = character(c.downcase()); } return cs; }; return not (downcase(a.as<string>().characters) >= downcase(b.as<string>().characters)); }; return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, compare) == std::ranges::end(xs | as_proper_list)); } },
       { "string-append",                 [](let const& xs) { let s = make<string>(); for (let const& x : xs | as_proper_list) { s.as<string>().characters.insert(s.as<string>().characters.end(), x.as<string>().characters.begin(), x.as<string>().characters.end()); } return s; } },
       { "string->list",                  [](let const& xs) { auto push = [](let const& xs, character const& c) { return cons(make<character>(c), xs); }; switch (length(xs)) { case 1: return std::accumulate(car(xs).as<string>().characters.rbegin(), car(xs).as<string>().characters.rend(), unit, push); case 2: return std::accumulate(car(xs).as<string>().characters.rbegin(), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); case 3: return std::accumulate(std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<string>().characters.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, push); default: throw error(make<string>("procedure string->list takes one to three arugments, but got"), xs); } } },
       { "list->string",                  [](let const& xs) { return make<string>(car(xs) | as_proper_list); } },
-- 
2.43.0


From 5a4066b78582adf3a5ab6d6c020efb6c4253b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 11/92] fix: vector-copy! and bytevector-copy! within one
 vector

Copying towards higher indices overwrote elements still to be copied.
---
 src/kernel/boot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 04a5936..12e5505 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -396,7 +396,7 @@ namespace meevax::inline kernel
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
-      { "vector-copy!",                  [](let const& xs) { car(xs).as<vector>().objects.reserve(car(xs).as<vector>().objects.size() + caddr(xs).as<vector>().objects.size()); switch (length(xs)) { case 3: std::copy(caddr(xs).as<vector>().objects.begin(), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 4: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), caddr(xs).as<vector>().objects.end(), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; case 5: std::copy(std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), std::next(caddr(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddddr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs)))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
+      { "vector-copy!",                  [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { auto&& from = caddr(xs).as<vector>().objects; auto&& to = car(xs).as_mutable<vector>().objects; if (begin < at) { std::copy_backward(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at + (end - begin))); } else { std::copy(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at)); } }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<vector>().objects.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<vector>().objects.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
       { "vector-fill!",                  [](let const& xs) { switch (length(xs)) { case 2: std::fill(car(xs).as_mutable<vector>().objects.begin(), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 3: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), car(xs).as_mutable<vector>().objects.end(), cadr(xs)); return unspecified; case 4: std::fill(std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), std::next(car(xs).as_mutable<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadddr(xs))), cadr(xs)); return unspecified; default: return unspecified; } } },
 
@@ -408,7 +408,7 @@ namespace meevax::inline kernel
       { #TAG "vector-ref",               [](let const& xs) { return TAG##vector::output_cast(car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))]); } }, \
       { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
-      { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = caddr(xs).as<TAG##vector>().values[j]; }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
+      { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = TAG##vector::values_type(caddr(xs).as<TAG##vector>().values[j]); }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
       { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
-- 
2.43.0


From d71da2d46908df7e4598d485940dbbcd7e9ff697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 12/92] fix: string->vector takes start and end

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 12e5505..22f9be5 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -394,7 +394,7 @@ namespace meevax::inline kernel
       { "vector->list",                  [](let const& xs) { switch (length(xs)) { case 1: return std::accumulate(car(xs).as<vector>().objects.rbegin(), car(xs).as<vector>().objects.rend(), unit, xcons); case 2: return std::accumulate(car(xs).as<vector>().objects.rbegin(), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); case 3: return std::accumulate(std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(caddr(xs))), std::prev(car(xs).as<vector>().objects.rend(), exact_integer_cast<std::size_t>(cadr(xs))), unit, xcons); default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
       { "list->vector",                  [](let const& xs) { return make<vector>(car(xs) | as_proper_list); } },
       { "vector->string",                [](let const& xs) { let s = make<string>(); auto push_back = [&](let const& x) { s.as<string>().characters.push_back(x.as<character>()); }; switch (length(xs)) { case 1: std::for_each(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end(), push_back); return s; case 2: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end(), push_back); return s; case 3: std::for_each(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs))), push_back); return s; default: throw error(make<string>("procedure vector->list takes one to three arugments, but got"), xs); } } },
-      { "string->vector",                [](let const& xs) { let v = make<vector>(); for (auto c : car(xs).as<string>().characters) { v.as<vector>().objects.push_back(make<character>(c)); } return v; } },
+      { "string->vector",                [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { let v = make<vector>(); for (auto i = begin; i < end; ++i) { v.as<vector>().objects.push_back(make<character>(car(xs).as<string>().characters.at(i))); } return v; }; switch (length(xs)) { case 1: return copy(0, car(xs).as<string>().characters.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<string>().characters.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure string->vector takes one to three arugments, but got"), xs); } } },
       { "vector-copy",                   [](let const& xs) { switch (length(xs)) { case 1: return make<vector>(car(xs).as<vector>().objects.begin(), car(xs).as<vector>().objects.end()); case 2: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), car(xs).as<vector>().objects.end()); case 3: return make<vector>(std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(cadr(xs))), std::next(car(xs).as<vector>().objects.begin(), exact_integer_cast<std::size_t>(caddr(xs)))); default: throw error(make<string>("procedure vector-copy takes one to three arugments, but got"), xs); } } },
       { "vector-copy!",                  [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { auto&& from = caddr(xs).as<vector>().objects; auto&& to = car(xs).as_mutable<vector>().objects; if (begin < at) { std::copy_backward(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at + (end - begin))); } else { std::copy(std::next(from.begin(), begin), std::next(from.begin(), end), std::next(to.begin(), at)); } }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<vector>().objects.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<vector>().objects.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure vector-copy takes three to five arugments, but got"), xs); } } },
       { "vector-append",                 [](let const& xs) { let v = make<vector>(); for (let const& x : xs | as_proper_list) { v.as<vector>().objects.insert(v.as<vector>().objects.end(), x.as<vector>().objects.begin(), x.as<vector>().objects.end()); } return v; } },
-- 
2.43.0


From ecee1579bf71e0a93e285cb581647521f45871d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 13/92] fix: number->string of ratios and complex numbers

---
 src/kernel/number.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index f22575e..f288610 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -937,9 +937,15 @@ namespace number
       {
         return string(std::unique_ptr<char, gmp_free>(mpz_get_str(nullptr, radix, x.value)).get());
       }
+      else if constexpr (std::is_same_v<T, ratio>)
+      {
+        return string(std::unique_ptr<char, gmp_free>(mpq_get_str(nullptr, radix, x.value)).get());
+      }
       else
       {
-        return string("TODO");
+        auto const real = number_to_string(x.real(), radix).template as<string>().utf8();
+        auto const imag = number_to_string(x.imag(), radix).template as<string>().utf8();
+        return string(real + (imag[0] == '-' or imag[0] == '+' ? "" : "+") + imag + "i");
       }
     };
 
-- 
2.43.0


From 0dc4423c86d9e0f0ff0b5695af678f9762ad0f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 14/92] fix: string->number of something else returns #f

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 22f9be5..10e5513 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -265,7 +265,7 @@ namespace meevax::inline kernel
       { "bit-count",                     [](let const& xs) { return bit_count(car(xs)); } },
       { "bit-width",                     [](let const& xs) { return bit_width(car(xs)); } },
       { "number->string",                [](let const& xs) { switch (length(xs)) { case 1: return number_to_string(car(xs), 10); case 2: return number_to_string(car(xs), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure number->string takes one or two arugments, but got"), xs); } } },
-      { "string->number",                [](let const& xs) { switch (length(xs)) { case 1: return make_number(car(xs).as<string>().utf8(), 10); case 2: return make_number(car(xs).as<string>().utf8(), exact_integer_cast<std::size_t>(cadr(xs))); default: throw error(make<string>("procedure string->number takes one or two arugments, but got"), xs); } } },
+      { "string->number",                [](let const& xs) { auto convert = [](let const& s, int radix) -> object { try { return make_number(s.as<string>().utf8(), radix); } catch (std::invalid_argument const&) { return f; } }; switch (length(xs)) { case 1: return convert(car(xs), 10); case 2: return convert(car(xs), exact_integer_cast<int>(cadr(xs))); default: throw error(make<string>("procedure string->number takes one or two arugments, but got"), xs); } } },
 
       { "pair?",                         [](let const& xs) { return make<bool>(car(xs).is<pair>()); } },
       { "not-pair?",                     [](let const& xs) { return make<bool>(not car(xs).is<pair>()); } },
-- 
2.43.0


From 5caaf8dc617c3ca16b8b7468077e14163bb5a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 15/92] fix: char-whitespace? of control characters such as
 newline and tab

---
 include/meevax/kernel/character.hpp | 7 ++++++-
 src/kernel/boot.cpp                 | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index f5f5bec..8e323e9 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -113,7 +113,7 @@ namespace meevax::inline kernel
 
       constexpr auto is_whitespace() const noexcept
       {
-        return value == Zs;
+        return is_any_of(Zl, Zp, Zs);
       }
     };
 
@@ -175,6 +175,11 @@ namespace meevax::inline kernel
       return is_eof(codepoint);
     }
 
+    auto constexpr is_whitespace() const noexcept
+    {
+      return (0x09 <= codepoint and codepoint <= 0x0D) or codepoint == 0x85 or property().is_whitespace();
+    }
+
     auto constexpr property() const noexcept -> property_code
     {
       return codepoint;
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 10e5513..7ebad76 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       { "char-ci>=?",                    [](let const& xs) { return make<bool>(std::ranges::adjacent_find(xs | as_proper_list, [](let const& a, let const& b) { return not (a.as<character>().downcase() >= b.as<character>().downcase()); }) == std::ranges::end(xs | as_proper_list)); } },
       { "char-alphabetic?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_letter()); } },
       { "char-numeric?",                 [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_numeric()); } },
-      { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_whitespace()); } },
+      { "char-whitespace?",              [](let const& xs) { return make<bool>(car(xs).as<character>().is_whitespace()); } },
       { "char-upper-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_upper_case()); } },
       { "char-lower-case?",              [](let const& xs) { return make<bool>(car(xs).as<character>().property().is_lower_case()); } },
       { "digit-value",                   [](let const& xs) { if (auto digit_value = car(xs).as<character>().digit_value(); digit_value) { return make<small_integer>(*digit_value); } else { return f; } } },
-- 
2.43.0


From f5776f7dfdabb4516c5065f2ed68a52b98125eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 16/92] fix: Do not lose U+0000 when encoding to UTF-8

---
 include/meevax/kernel/textual_input_port.hpp | 4 ++--
 src/kernel/character.cpp                     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 0b06064..650057c 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -87,7 +87,7 @@ namespace meevax::inline kernel
     template <typename F>
     auto take_character_until(F satisfy, character c = {})
     {
-      auto s = c.utf8();
+      auto s = c ? c.utf8() : std::string();
 
       while (get_ready() and not satisfy(c = take_character()))
       {
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
     template <typename F>
     auto take_character_while(F satisfy, character c = {})
     {
-      auto s = c.utf8();
+      auto s = c ? c.utf8() : std::string();
 
       while (get_ready() and satisfy(peek_character()))
       {
diff --git a/src/kernel/character.cpp b/src/kernel/character.cpp
index 9914347..e1c9b56 100644
--- a/src/kernel/character.cpp
+++ b/src/kernel/character.cpp
@@ -55,7 +55,7 @@ namespace meevax::inline kernel
       chars[0] = std::char_traits<char_type>::to_char_type(0xBD);
     }
 
-    return chars.data();
+    return codepoint == 0 ? std::string(1, '\0') : chars.data();
   }
 
   auto operator <<(std::ostream & os, character const& datum) -> std::ostream &
-- 
2.43.0


From e4c9f0846dcadbde7add5c1f2c91df6fa5dc226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 17/92] fix: equal? of homogeneous vectors of different lengths

---
 include/meevax/kernel/homogeneous_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 99eeeae..67f5306 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -100,7 +100,7 @@ namespace meevax::inline kernel
       return std::all_of(std::begin(xs), std::end(xs), [](auto x) { return x; });
     };
 
-    return check(a.values == b.values);
+    return a.values.size() == b.values.size() and check(a.values == b.values);
   }
 
   #define FOR_EACH_BITS(F) F(8) F(16) F(32) F(64)
-- 
2.43.0


From e3f6c6433bbc2539c1a84de70ac6195ebe7063dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 18/92] fix: apply passes a fresh argument list

Parameters and rest lists shared pairs with the list given to apply, so that
assigning a parameter changed the caller's list.
---
 library/meevax.ss | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 81460e6..18a9b89 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -100,21 +100,20 @@
              (emergency-exit . xs)))))
 
 (define-library (meevax apply)
-  (import (only (meevax core) define if lambda)
-          (only (meevax list) append null? reverse)
+  (import (only (meevax core) define lambda quote)
+          (only (meevax list) append reverse)
           (only (meevax pair) car cdr cons))
 
   (export apply)
 
   (begin (define (apply f x . xs)
-           (if (null? xs)
-               (f . x)
-               ((lambda (xs)
-                  ((lambda (x)
-                     (f . x))
-                   (append (reverse (cdr xs))
-                           (car xs))))
-                (reverse (cons x xs)))))))
+           ((lambda (xs)
+              ((lambda (x)
+                 (f . x))
+               (append (reverse (cdr xs))
+                       (car xs)
+                       '()))) ; The argument list must not share with the caller's list.
+            (reverse (cons x xs))))))
 
 (define-library (meevax map)
   (import (only (meevax apply) apply)
-- 
2.43.0


From 511f781d518961c43f8f217e6aa16c806c43c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 19/92] fix: An exact quotient of two fixnums that is an
 integer is an integer

---
 src/kernel/number.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index f288610..c384171 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -325,8 +325,8 @@ namespace meevax::inline kernel
       if constexpr (std::is_same_v<T, widen_integer> and
                     std::is_same_v<U, widen_integer>)
       {
-        return make<ratio>(large_integer(x),
-                           large_integer(y));
+        return ratio(large_integer(x),
+                     large_integer(y));
       }
       else
       {
-- 
2.43.0


From 527844309b89f938ab91bf98365314a2477ba1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 20/92] fix: Shift small integers right by 64 bits and more

---
 src/kernel/number/bitwise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number/bitwise.cpp b/src/kernel/number/bitwise.cpp
index 0179196..de7023b 100644
--- a/src/kernel/number/bitwise.cpp
+++ b/src/kernel/number/bitwise.cpp
@@ -106,7 +106,7 @@ namespace meevax::inline kernel::number
       {
         if (c < 0)
         {
-          return canonicalize(x >> -c);
+          return canonicalize(x >> std::min<small_integer>(-c, 63));
         }
         else if (c == 0)
         {
-- 
2.43.0


From af2eebe10dbeea77d968e1eba297aa89c25dfd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 21/92] fix: Read decimals beyond the range of normal doubles

---
 src/kernel/number.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index c384171..0547730 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -15,6 +15,7 @@
 */
 
 #include <charconv>
+#include <cstdlib>
 #include <meevax/kernel/error.hpp>
 #include <meevax/kernel/ghost.hpp>
 #include <meevax/kernel/number.hpp>
@@ -452,15 +453,15 @@ namespace meevax::inline kernel
           case 'D': case 'd':
           case 'E': case 'e':
           default:
-            return make<double>(std::stod(literal));
+            return make<double>(std::strtod(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
 
           case 'F': case 'f':
-            return make<float>(std::stof(literal.substr().replace(result.position(1), 1, "e")));
+            return make<float>(std::strtof(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
           }
         }
         else
         {
-          return make<double>(std::stod(literal));
+          return make<double>(std::strtod(literal.c_str(), nullptr));
         }
       }
       else
-- 
2.43.0


From 3a777c0b8134dd4ee250940d19cb71c3412113ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:15 +0000
Subject: [PATCH 22/92] fix: Parse decimals and complex numbers of any length,
 and complex numbers with exponents

---
 src/kernel/complex.cpp | 31 +++++++++++++++++-------
 src/kernel/number.cpp  | 54 ++++++++++++++++++++++++++++++++----------
 2 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/src/kernel/complex.cpp b/src/kernel/complex.cpp
index 22e8df4..0aca643 100644
--- a/src/kernel/complex.cpp
+++ b/src/kernel/complex.cpp
@@ -14,7 +14,7 @@
    limitations under the License.
 */
 
-#include <regex>
+#include <string_view>
 
 #include <meevax/iostream/lexical_cast.hpp>
 #include <meevax/kernel/list.hpp>
@@ -25,19 +25,32 @@ namespace meevax::inline kernel
 {
   complex::complex(std::string const& token, int radix)
   {
-    std::regex static const rectangular { R"(([+-]?.*)([+-].*)i)" };
+    auto split = [&]()
+    {
+      // The imaginary part starts at the last sign that is not the sign of an exponent.
+      for (auto i = token.find_last_of("+-"); i != std::string::npos and i != 0; i = token.find_last_of("+-", i - 1))
+      {
+        if (radix != 10 or std::string_view("DEFdef").find(token[i - 1]) == std::string_view::npos)
+        {
+          return i;
+        }
+      }
 
-    std::regex static const polar { R"(([+-]?.*)@([+-]?.*))" };
+      return token.find_first_of("+-") == 0 ? std::string::size_type(0) : std::string::npos;
+    };
 
-    if (std::smatch result; std::regex_match(token, result, rectangular))
+    if (auto const i = split(); not token.empty() and token.back() == 'i' and i != std::string::npos)
     {
-      std::get<0>(*this) = make_real(result[1].length() == 0 ?                 "0" : result.str(1), radix);
-      std::get<1>(*this) = make_real(result[2].length() == 1 ? result.str(2) + "1" : result.str(2), radix);
+      auto const real = token.substr(0, i);
+      auto const imag = token.substr(i, token.size() - i - 1);
+
+      std::get<0>(*this) = make_real(real.length() == 0 ?        "0" : real, radix);
+      std::get<1>(*this) = make_real(imag.length() == 1 ? imag + "1" : imag, radix);
     }
-    else if (std::regex_match(token, result, polar))
+    else if (auto const i = token.rfind('@'); i != std::string::npos)
     {
-      auto const magnitude = make_real(result.str(1), radix);
-      auto const angle     = make_real(result.str(2), radix);
+      auto const magnitude = make_real(token.substr(0, i), radix);
+      auto const angle     = make_real(token.substr(i + 1), radix);
 
       std::get<0>(*this) = magnitude * number::cos(angle);
       std::get<1>(*this) = magnitude * number::sin(angle);
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 0547730..396205d 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -24,7 +24,6 @@
 #include <meevax/kernel/number/trigonometric.hpp>
 #include <meevax/kernel/string.hpp>
 #include <memory> // std::unique_ptr
-#include <regex>
 #include <string_view>
 #include <unordered_map>
 
@@ -420,13 +419,49 @@ namespace meevax::inline kernel
         { "-nan.0", -std::numeric_limits<double>::quiet_NaN() },
       };
 
-      auto static const pattern = std::regex(R"([+-]?(?:\d+\.?|\d*\.\d+)(?:([DEFdef])[+-]?\d+)?)");
+      // [+-]?(\d+\.?|\d*\.\d+)([DEFdef][+-]?\d+)?
+      auto exponent_marker = std::string::npos;
+
+      auto is_decimal = [&]()
+      {
+        auto iter = std::begin(literal);
+
+        auto skip = [&](std::string_view characters, std::size_t limit = std::numeric_limits<std::size_t>::max())
+        {
+          auto n = std::size_t(0);
+          for (; n < limit and iter != std::end(literal) and characters.find(*iter) != std::string_view::npos; ++n, ++iter);
+          return n;
+        };
+
+        skip("+-", 1);
+
+        auto const integer_digits = skip("0123456789");
+
+        skip(".", 1);
+
+        if (auto const fraction_digits = skip("0123456789"); integer_digits + fraction_digits == 0)
+        {
+          return false;
+        }
+        else if (skip("DEFdef", 1))
+        {
+          exponent_marker = std::distance(std::begin(literal), iter) - 1;
+
+          skip("+-", 1);
+
+          return 0 < skip("0123456789") and iter == std::end(literal);
+        }
+        else
+        {
+          return iter == std::end(literal);
+        }
+      };
 
       if (auto iter = constants.find(literal); iter != constants.end())
       {
         return make<double>(iter->second);
       }
-      else if (auto result = std::smatch(); std::regex_match(literal, result, pattern))
+      else if (is_decimal())
       {
         /*
            R7RS 6.2.5. Syntax of numerical constants
@@ -441,22 +476,17 @@ namespace meevax::inline kernel
            double, but implementations may allow this default to be set by the
            user.
         */
-        assert(result.ready());
-        assert(result.size() == 2);
-
-        if (result[1].matched)
+        if (exponent_marker != std::string::npos)
         {
-          assert(result[1].length() == 1);
-
-          switch (*result[1].first)
+          switch (literal[exponent_marker])
           {
           case 'D': case 'd':
           case 'E': case 'e':
           default:
-            return make<double>(std::strtod(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
+            return make<double>(std::strtod(literal.substr().replace(exponent_marker, 1, "e").c_str(), nullptr));
 
           case 'F': case 'f':
-            return make<float>(std::strtof(literal.substr().replace(result.position(1), 1, "e").c_str(), nullptr));
+            return make<float>(std::strtof(literal.substr().replace(exponent_marker, 1, "e").c_str(), nullptr));
           }
         }
         else
-- 
2.43.0


From 70c3e32a0f81bb15deccc3c09daf6cea6f167438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 23/92] fix: Normalise rational literals, accept a plus sign,
 reject whitespace and zero denominators

---
 src/kernel/large_integer.cpp | 3 ++-
 src/kernel/number.cpp        | 2 +-
 src/kernel/ratio.cpp         | 8 +++++++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/kernel/large_integer.cpp b/src/kernel/large_integer.cpp
index ebfbeb1..0a0428f 100644
--- a/src/kernel/large_integer.cpp
+++ b/src/kernel/large_integer.cpp
@@ -56,7 +56,8 @@ namespace meevax::inline kernel
 
   large_integer::large_integer(std::string const& s, int radix)
   {
-    if (mpz_init_set_str(value, (s.at(0) == '+' ? s.substr(1) : s).c_str(), radix))
+    if (mpz_init_set_str(value, (s.at(0) == '+' ? s.substr(1) : s).c_str(), radix) or
+        s.find_first_of(" \t\n\v\f\r") != std::string::npos) // GMP would ignore whitespace.
     {
       mpz_clear(value);
       throw std::invalid_argument("not an exact-integer");
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 396205d..0ce53ae 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -398,7 +398,7 @@ namespace meevax::inline kernel
     }
     catch (std::invalid_argument const&)
     {
-      return make<ratio>(literal, radix);
+      return number::canonicalize(ratio(literal, radix));
     }
   }
 
diff --git a/src/kernel/ratio.cpp b/src/kernel/ratio.cpp
index 3cffa75..bcff2c5 100644
--- a/src/kernel/ratio.cpp
+++ b/src/kernel/ratio.cpp
@@ -67,7 +67,13 @@ namespace meevax::inline kernel
 
   ratio::ratio(std::string const& token, int radix)
   {
-    if (mpq_init(value); mpq_set_str(value, token.c_str(), radix))
+    auto const numeral = token.substr(0, 1) == "+" and token.substr(1, 1) != "-" ? token.substr(1) : token;
+
+    // An unsigned denominator that is not zero; GMP would ignore whitespace.
+    auto const valid = numeral.find_first_of("+-", 1) == std::string::npos and
+                       numeral.find_first_of(" \t\n\v\f\r") == std::string::npos;
+
+    if (mpq_init(value); not valid or mpq_set_str(value, numeral.c_str(), radix) or mpz_sgn(mpq_denref(value)) == 0)
     {
       mpq_clear(value);
       throw std::invalid_argument("not a ratio");
-- 
2.43.0


From 8cc82bac543bee8e21fca8f361420cbeda517a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 24/92] fix: Reject misplaced dots and closing parentheses in
 data, and do not swallow what follows a dotted tail

---
 include/meevax/kernel/textual_input_port.hpp |   4 +-
 src/kernel/textual_input_port.cpp            | 154 ++++++++++++++-----
 2 files changed, 116 insertions(+), 42 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 650057c..fd07af9 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -80,7 +80,9 @@ namespace meevax::inline kernel
 
     auto peek_character() -> character;
 
-    auto read(character = {}) -> object;
+    auto read() -> object;
+
+    auto read_element(character = {}) -> object; // May throw the closing parenthesis or the dot of an enclosing list.
 
     auto take_character() -> character;
 
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index fb3681e..b78ce9e 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -196,13 +196,57 @@ namespace meevax::inline kernel
     return c;
   }
 
-  auto textual_input_port::read(character c0) -> object
+  auto textual_input_port::read() -> object
+  {
+    try
+    {
+      return read_element();
+    }
+    catch (std::integral_constant<char, ')'> const&)
+    {
+      throw read_error(make<string>("an unexpected closing parenthesis is encountered"), unit);
+    }
+    catch (std::integral_constant<char, '.'> const&)
+    {
+      throw read_error(make<string>("an unexpected dot is encountered"), unit);
+    }
+  }
+
+  auto textual_input_port::read_element(character c0) -> object
   {
     auto is_digit = [](auto c)
     {
       return std::isdigit(c);
     };
 
+    auto is_incomplete = [this](let const& x)
+    {
+      return x.is<eof>() and not get_ready();
+    };
+
+    auto read_nested = [&](character c = {}) // A datum that must be there.
+    {
+      try
+      {
+        if (let const x = read_element(c); is_incomplete(x))
+        {
+          throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+        }
+        else
+        {
+          return x;
+        }
+      }
+      catch (std::integral_constant<char, ')'> const&)
+      {
+        throw read_error(make<string>("an unexpected closing parenthesis is encountered"), unit);
+      }
+      catch (std::integral_constant<char, '.'> const&)
+      {
+        throw read_error(make<string>("an unexpected dot is encountered"), unit);
+      }
+    };
+
     auto take_quoted = [this](character quotation_mark)
     {
       auto s = string();
@@ -297,14 +341,14 @@ namespace meevax::inline kernel
             take_character_until([](auto c) { return c == '\n'; });
           }
 
-          return read();
+          return read_element();
 
         case ',': // SRFI 10
-          return interaction_environment().as<environment>().evaluate(read());
+          return interaction_environment().as<environment>().evaluate(read_nested());
 
         case ';': // SRFI 62
-          read(); // Discard an expression.
-          return read();
+          read_nested(); // Discard an expression.
+          return read_element();
 
         case '"':
           return make_symbol(take_quoted(c2).utf8());
@@ -338,7 +382,7 @@ namespace meevax::inline kernel
             case '=':
               if (auto [iter, success] = datum_labels.emplace(n, make<datum_label>(n)); success)
               {
-                if (let xs = read(); xs != iter->second)
+                if (let xs = read_nested(); xs != iter->second)
                 {
                   circulate(xs, xs, n);
                   datum_labels.erase(n);
@@ -365,7 +409,7 @@ namespace meevax::inline kernel
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 2);
+            return make_number(lexical_cast(read_nested()), 2);
 
           default:
             return make_number(take_token(c3), 2);
@@ -375,23 +419,23 @@ namespace meevax::inline kernel
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 10);
+            return make_number(lexical_cast(read_nested()), 10);
 
           default:
             return make_number(take_token(c3), 10);
           }
 
         case 'e':
-          return number::exact(read()); // NOTE: Same as #,(exact (read))
+          return number::exact(read_nested()); // NOTE: Same as #,(exact (read))
 
         case 'f':
           switch (std::stoi(take_character_while(is_digit, character('0'))))
           {
           case 32:
-            return make<f32vector>(read() | as_proper_list);
+            return make<f32vector>(read_nested() | as_proper_list);
 
           case 64:
-            return make<f64vector>(read() | as_proper_list);
+            return make<f64vector>(read_nested() | as_proper_list);
 
           default:
             take_token(c2);
@@ -399,13 +443,13 @@ namespace meevax::inline kernel
           }
 
         case 'i':
-          return number::inexact(read()); // NOTE: Same as #,(inexact (read))
+          return number::inexact(read_nested()); // NOTE: Same as #,(inexact (read))
 
         case 'o':
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 8);
+            return make_number(lexical_cast(read_nested()), 8);
 
           default:
             return make_number(take_token(c3), 8);
@@ -415,16 +459,16 @@ namespace meevax::inline kernel
           switch (auto n = take_character_while(is_digit); std::stoi(n))
           {
           case 8:
-            return make<s8vector>(read() | as_proper_list);
+            return make<s8vector>(read_nested() | as_proper_list);
 
           case 16:
-            return make<s16vector>(read() | as_proper_list);
+            return make<s16vector>(read_nested() | as_proper_list);
 
           case 32:
-            return make<s32vector>(read() | as_proper_list);
+            return make<s32vector>(read_nested() | as_proper_list);
 
           case 64:
-            return make<s64vector>(read() | as_proper_list);
+            return make<s64vector>(read_nested() | as_proper_list);
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -439,16 +483,16 @@ namespace meevax::inline kernel
           switch (auto const n = take_character_while(is_digit); std::stoi(n))
           {
           case 8:
-            return make<u8vector>(read() | as_proper_list);
+            return make<u8vector>(read_nested() | as_proper_list);
 
           case 16:
-            return make<u16vector>(read() | as_proper_list);
+            return make<u16vector>(read_nested() | as_proper_list);
 
           case 32:
-            return make<u32vector>(read() | as_proper_list);
+            return make<u32vector>(read_nested() | as_proper_list);
 
           case 64:
-            return make<u64vector>(read() | as_proper_list);
+            return make<u64vector>(read_nested() | as_proper_list);
 
           default:
             throw read_error(make<string>("An unknown literal expression was encountered"),
@@ -459,14 +503,14 @@ namespace meevax::inline kernel
           switch (auto c3 = take_character())
           {
           case '#':
-            return make_number(lexical_cast(read()), 16);
+            return make_number(lexical_cast(read_nested()), 16);
 
           default:
             return make_number(take_token(c3), 16);
           }
 
         case '(':
-          return make<vector>(read(c2) | as_proper_list);
+          return make<vector>(read_nested(c2) | as_proper_list);
 
         case '\\':
           if (auto c3 = take_character(); is_special_character(peek_character())) // #\<character>
@@ -541,31 +585,59 @@ namespace meevax::inline kernel
             }
           }
 
-          return read();
+          return read_element();
 
         default:
           throw read_error(make<string>("unknown discriminator"), make<character>(c2));
         }
 
       case '\'': // 0x27
-        return list(make_symbol("quote"), read());
+        return list(make_symbol("quote"), read_nested());
 
       case '(':  // 0x28
-        try
+        for (let head = unit, last = unit; true;)
         {
-          let const& x = read();
+          try
+          {
+            if (let const x = read_element(); is_incomplete(x))
+            {
+              throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+            }
+            else if (let const xs = cons(x, unit); last.is<null>())
+            {
+              head = last = xs;
+            }
+            else
+            {
+              last = cdr(last) = xs;
+            }
+          }
+          catch (std::integral_constant<char, ')'> const&)
+          {
+            return head;
+          }
+          catch (std::integral_constant<char, '.'> const&)
+          {
+            if (last.is<null>())
+            {
+              throw read_error(make<string>("an unexpected dot is encountered"), unit);
+            }
 
-          return cons(x, read(c1));
-        }
-        catch (std::integral_constant<char, ')'> const&)
-        {
-          return nullptr;
-        }
-        catch (std::integral_constant<char, '.'> const&)
-        {
-          let const x = read();
-          take_character_until([](auto c) { return c == ')'; });
-          return x;
+            cdr(last) = read_nested();
+
+            try
+            {
+              read_element();
+            }
+            catch (std::integral_constant<char, ')'> const&)
+            {
+              return head;
+            }
+            catch (std::integral_constant<char, '.'> const&)
+            {}
+
+            throw read_error(make<string>("exactly one datum and a closing parenthesis must follow the dot"), unit);
+          }
         }
 
       case ')':  // 0x29
@@ -575,10 +647,10 @@ namespace meevax::inline kernel
         switch (auto c = take_character())
         {
         case '@':
-          return list(make_symbol("unquote-splicing"), read());
+          return list(make_symbol("unquote-splicing"), read_nested());
 
         default:
-          return list(make_symbol("unquote"), read(c));
+          return list(make_symbol("unquote"), read_nested(c));
         }
 
       case ';':  // 0x3B
@@ -586,7 +658,7 @@ namespace meevax::inline kernel
         break;
 
       case '`':  // 0x60
-        return list(make_symbol("quasiquote"), read());
+        return list(make_symbol("quasiquote"), read_nested());
 
       case '|':  // 0x7C
         return make_symbol(take_quoted(c1).utf8());
-- 
2.43.0


From 0a83e09ad0b423ed7d52e991634050c3b26c7e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 25/92] fix: End of file: read-line returns the last line
 without a newline, and reading again gives end of file again

---
 include/meevax/kernel/textual_input_port.hpp |  2 +-
 src/kernel/textual_input_port.cpp            | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index fd07af9..68eb0f8 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -91,7 +91,7 @@ namespace meevax::inline kernel
     {
       auto s = c ? c.utf8() : std::string();
 
-      while (get_ready() and not satisfy(c = take_character()))
+      while (get_ready() and not satisfy(c = take_character()) and not c.is_eof())
       {
         s += c;
       }
diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index b78ce9e..3f3d77f 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -155,13 +155,13 @@ namespace meevax::inline kernel
 
   auto textual_input_port::get_line() -> object
   {
-    if (auto s = take_character_until([](auto c) { return c == '\n'; }); at_end_of_file())
+    if (peek_character().is_eof())
     {
       return eof_object;
     }
     else
     {
-      return make<string>(s);
+      return make<string>(take_character_until([](auto c) { return c == '\n'; }));
     }
   }
 
@@ -184,6 +184,11 @@ namespace meevax::inline kernel
 
   auto textual_input_port::peek_character() -> character
   {
+    if (character::is_eof(istream().peek()))
+    {
+      return character(EOF);
+    }
+
     auto c = take_character();
 
     auto const s = c.utf8();
@@ -200,7 +205,7 @@ namespace meevax::inline kernel
   {
     try
     {
-      return read_element();
+      return not get_ready() and at_end_of_file() ? eof_object : read_element();
     }
     catch (std::integral_constant<char, ')'> const&)
     {
-- 
2.43.0


From 4aed3d676a1eb1b300ae7bfcb5b9ae8f4cdb34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:32 +0000
Subject: [PATCH 26/92] fix: Datum labels in any position, with the scope of
 the outermost datum

---
 src/kernel/textual_input_port.cpp | 42 ++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 3f3d77f..d5821d4 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -24,6 +24,7 @@
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/textual_input_port.hpp>
 #include <meevax/kernel/vector.hpp>
+#include <unordered_set>
 
 namespace meevax::inline kernel
 {
@@ -85,19 +86,33 @@ namespace meevax::inline kernel
     {}
   };
 
-  auto circulate(object & xs, object const& x, std::string const& n) -> void
+  // Replaces the references to the label n in x by the datum that has the label.
+  auto circulate(object & x, object const& datum, std::string const& n, std::unordered_set<void const*> & visited) -> void
   {
-    if (xs.is<pair>())
+    if (x.is<datum_label>())
     {
-      circulate(car(xs), x, n);
-
-      if (cdr(xs).is<datum_label>() and cdr(xs).as<datum_label>().n == n)
+      if (x.as<datum_label>().n == n)
       {
-        cdr(xs) = x;
+        x = datum;
       }
-      else
+    }
+    else if (x.is<pair>())
+    {
+      for (auto * xs = &x; xs->is<pair>() and visited.insert(xs->get()).second; )
       {
-        circulate(cdr(xs), x, n);
+        circulate(car(*xs), datum, n, visited);
+
+        if (xs = &cdr(*xs); not xs->is<pair>())
+        {
+          circulate(*xs, datum, n, visited);
+        }
+      }
+    }
+    else if (x.is<vector>() and visited.insert(x.get()).second)
+    {
+      for (auto & each : x.as<vector>().objects)
+      {
+        circulate(each, datum, n, visited);
       }
     }
   }
@@ -203,6 +218,8 @@ namespace meevax::inline kernel
 
   auto textual_input_port::read() -> object
   {
+    datum_labels.clear(); // The scope of a datum label is the outermost datum.
+
     try
     {
       return not get_ready() and at_end_of_file() ? eof_object : read_element();
@@ -387,11 +404,12 @@ namespace meevax::inline kernel
             case '=':
               if (auto [iter, success] = datum_labels.emplace(n, make<datum_label>(n)); success)
               {
-                if (let xs = read_nested(); xs != iter->second)
+                if (let const label = iter->second, xs = read_nested(); xs != label)
                 {
-                  circulate(xs, xs, n);
-                  datum_labels.erase(n);
-                  return xs;
+                  auto visited = std::unordered_set<void const*>();
+                  let datum = xs;
+                  circulate(datum, xs, n, visited);
+                  return datum_labels[n] = xs;
                 }
                 else
                 {
-- 
2.43.0


From 020fd1a9de63da7b45caafb1730d649d499448b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:24 +0000
Subject: [PATCH 27/92] fix: Continuations unwind to the common dynamic extent,
 enter extents one by one, and take several values

---
 library/meevax.ss | 128 +++++++++++++++++++++++++++++++++-------------
 library/r5rs.ss   |  65 +----------------------
 2 files changed, 94 insertions(+), 99 deletions(-)

diff --git a/library/meevax.ss b/library/meevax.ss
index 18a9b89..087b37b 100644
--- a/library/meevax.ss
+++ b/library/meevax.ss
@@ -41,15 +41,69 @@
              (make-syntactic-closure use-env '() (f form rename compare))))))
 
 (define-library (meevax continuation)
-  (import (only (meevax context) emergency-exit)
+  (import (only (meevax apply) apply)
+          (only (meevax context) emergency-exit)
           (only (meevax comparator) eq?)
-          (only (meevax core) begin call-with-current-continuation! current define if install lambda)
-          (only (meevax pair) caar car cdar cdr cons pair?)
-          (only (meevax list) null?))
-
-  (export call-with-current-continuation dynamic-wind exit)
-
-  (begin (define (current-dynamic-extents)
+          (only (meevax core) begin call-with-current-continuation! current define if install lambda quote)
+          (only (meevax list) length list null?)
+          (only (meevax number) - <)
+          (only (meevax pair) caar car cdar cdr cons pair?))
+
+  (export call-with-current-continuation call-with-values dynamic-wind exit values)
+
+  #|
+     This library contains many procedure and syntax definitions copied from
+     Chibi-Scheme's script lib/init-7.scm. The definitions marked
+     "Chibi-Scheme" in this file are those. Such definitions are subject to the
+     following Chibi-Scheme license.
+
+     ---
+
+     Copyright (c) 2009-2021 Alex Shinn
+     All rights reserved.
+
+     Redistribution and use in source and binary forms, with or without
+     modification, are permitted provided that the following conditions are
+     met:
+     1. Redistributions of source code must retain the above copyright notice,
+        this list of conditions and the following disclaimer.
+     2. Redistributions in binary form must reproduce the above copyright
+        notice, this list of conditions and the following disclaimer in the
+        documentation and/or other materials provided with the distribution.
+     3. The name of the author may not be used to endorse or promote products
+        derived from this software without specific prior written permission.
+
+     THIS SOFTWARE IS PROVIDED BY THE AUTHOR "AS IS" AND ANY EXPRESS OR IMPLIED
+     WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED WARRANTIES OF
+     MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO
+     EVENT SHALL THE AUTHOR BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
+     SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED
+     TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR
+     PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF
+     LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING
+     NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
+     SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+  |#
+
+  (begin (define <values> (list 'values)) ; Chibi-Scheme
+
+         (define (values . xs) ; Chibi-Scheme
+           (if (if (pair? xs)
+                   (null? (cdr xs))
+                   #f)
+               (car xs)
+               (cons <values> xs)))
+
+         (define (call-with-values produce consume) ; Chibi-Scheme
+           ((lambda (vs)
+              (if (if (pair? vs)
+                      (eq? <values> (car vs))
+                      #f)
+                  (apply consume (cdr vs))
+                  (consume vs)))
+            (produce)))
+
+         (define (current-dynamic-extents)
            (current 0))
 
          (define (install-dynamic-extents! extents)
@@ -59,45 +113,47 @@
            (before)
            (install-dynamic-extents! (cons (cons before after)
                                            (current-dynamic-extents)))
-           ((lambda (result) ; TODO let-values
+           ((lambda (result)
               (install-dynamic-extents! (cdr (current-dynamic-extents)))
               (after)
-              result) ; TODO (apply values result)
+              result)
             (thunk)))
 
+         (define (windup! from depth-from to depth-to)
+           (if (eq? from to)
+               #t
+               (if (< depth-from depth-to)
+                   (begin (windup! from
+                                   depth-from
+                                   (cdr to)
+                                   (- depth-to 1))
+                          ((caar to))
+                          (install-dynamic-extents! to))
+                   (begin (install-dynamic-extents! (cdr from))
+                          ((cdar from))
+                          (windup! (cdr from)
+                                   (- depth-from 1)
+                                   to
+                                   depth-to)))))
+
          (define (call-with-current-continuation procedure)
-           (define (windup! from to)
-             (install-dynamic-extents! from)
-             (if (eq? from to)
-                 #t
-                 (if (null? from)
-                     (begin (windup! from (cdr to))
-                            ((caar to)))
-                     (if (null? to)
-                         (begin ((cdar from))
-                                (windup! (cdr from) to))
-                         (begin ((cdar from))
-                                (windup! (cdr from)
-                                         (cdr to))
-                                ((caar to))))))
-             (install-dynamic-extents! to))
            ((lambda (dynamic-extents)
               (call-with-current-continuation!
                 (lambda (continue)
-                  (procedure (lambda (x)
-                               (windup! (current-dynamic-extents) dynamic-extents)
-                               (continue x))))))
+                  (procedure (lambda xs
+                               (windup! (current-dynamic-extents)
+                                        (length (current-dynamic-extents))
+                                        dynamic-extents
+                                        (length dynamic-extents))
+                               (continue (values . xs)))))))
             (current-dynamic-extents)))
 
          (define (exit . xs)
-           (letrec ((for-each (lambda (f x)
-                                (if (pair? x)
-                                    (begin (f (car x))
-                                           (for-each f (cdr x)))))))
-             (for-each (lambda (before/after)
-                         ((cdr before/after)))
-                       (current-dynamic-extents))
-             (emergency-exit . xs)))))
+           (windup! (current-dynamic-extents)
+                    (length (current-dynamic-extents))
+                    '()
+                    0)
+           (emergency-exit . xs))))
 
 (define-library (meevax apply)
   (import (only (meevax core) define lambda quote)
diff --git a/library/r5rs.ss b/library/r5rs.ss
index 1fd994c..ba8c948 100644
--- a/library/r5rs.ss
+++ b/library/r5rs.ss
@@ -1,5 +1,5 @@
 (define-library (scheme r5rs)
-  (import (only (meevax continuation) dynamic-wind)
+  (import (only (meevax continuation) call-with-values dynamic-wind values)
           (only (meevax core) define-syntax let-syntax letrec-syntax)
           (only (meevax environment) environment eval)
           (scheme r4rs)
@@ -37,68 +37,7 @@
           peek-char eof-object? char-ready? write display newline write-char
           load)
 
-  #|
-     This library contains many procedure and syntax definitions copied from
-     Chibi-Scheme's script lib/init-7.scm. The definitions marked
-     "Chibi-Scheme" in this file are those. Such definitions are subject to the
-     following Chibi-Scheme license.
-
-     ---
-
-     Copyright (c) 2009-2021 Alex Shinn
-     All rights reserved.
-
-     Redistribution and use in source and binary forms, with or without
-     modification, are permitted provided that the following conditions are
-     met:
-     1. Redistributions of source code must retain the above copyright notice,
-        this list of conditions and the following disclaimer.
-     2. Redistributions in binary form must reproduce the above copyright
-        notice, this list of conditions and the following disclaimer in the
-        documentation and/or other materials provided with the distribution.
-     3. The name of the author may not be used to endorse or promote products
-        derived from this software without specific prior written permission.
-
-     THIS SOFTWARE IS PROVIDED BY THE AUTHOR "AS IS" AND ANY EXPRESS OR IMPLIED
-     WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE IMPLIED WARRANTIES OF
-     MERCHANTABILITY AND FITNESS FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO
-     EVENT SHALL THE AUTHOR BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL,
-     SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED
-     TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR
-     PROFITS; OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF
-     LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING
-     NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
-     SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
-  |#
-
-  (begin ; (define values
-         ;   (lambda xs
-         ;     (call-with-current-continuation
-         ;       (lambda (cc)
-         ;         (apply cc xs)))))
-         ;
-         ; (define (call-with-values producer consumer)
-         ;   (let-values ((xs (producer)))
-         ;     (apply consumer xs)))
-
-         (define <values> (list 'values)) ; Chibi-Scheme
-
-         (define (values . xs) ; Chibi-Scheme
-           (if (and (pair? xs)
-                    (null? (cdr xs)))
-               (car xs)
-               (cons <values> xs)))
-
-         (define (call-with-values produce consume) ; Chibi-Scheme
-           (define (values? x)
-             (and (pair? x)
-                  (eq? <values> (car x))))
-           (let ((vs (produce)))
-             (if (values? vs)
-                 (apply consume (cdr vs))
-                 (consume vs))))
-
-         (define (scheme-report-environment version)
+  (begin (define (scheme-report-environment version)
            (environment `(scheme ,(string->symbol (string-append "r" (number->string version) "rs")))))
 
          (define (null-environment version)
-- 
2.43.0


From c52ee3b49b30cf65f9f73fe484ada81d97e501d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 28/92] fix: At the end of a binary port read-bytevector
 returns what is left and then, like peek-u8, end of file

---
 .../meevax/kernel/input_homogeneous_vector_port.hpp |  4 +++-
 src/kernel/binary_input_file_port.cpp               | 13 ++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/meevax/kernel/input_homogeneous_vector_port.hpp b/include/meevax/kernel/input_homogeneous_vector_port.hpp
index e3e86e7..531a511 100644
--- a/include/meevax/kernel/input_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/input_homogeneous_vector_port.hpp
@@ -53,12 +53,14 @@ namespace meevax::inline kernel
 
     auto get(std::size_t size) -> object override
     {
-      if (deque.size() < size)
+      if (deque.empty() and 0 < size)
       {
         return eof_object;
       }
       else
       {
+        size = std::min(size, deque.size());
+
         let const v =  make<homogeneous_vector<T>>(size);
         std::copy(deque.begin(), std::next(deque.begin(), size), std::begin(v.as<homogeneous_vector<T>>().values));
         deque.erase(deque.begin(), std::next(deque.begin(), size));
diff --git a/src/kernel/binary_input_file_port.cpp b/src/kernel/binary_input_file_port.cpp
index de8c9e5..c805049 100644
--- a/src/kernel/binary_input_file_port.cpp
+++ b/src/kernel/binary_input_file_port.cpp
@@ -48,11 +48,14 @@ namespace meevax::inline kernel
     {
       return make<u8vector>(buffer.data(), buffer.size());
     }
-    else
+    else if (buffer.resize(ifstream.gcount()); not buffer.empty())
     {
-      buffer.resize(ifstream.gcount());
       return make<u8vector>(buffer.data(), buffer.size());
     }
+    else
+    {
+      return eof_object;
+    }
   }
 
   auto binary_input_file_port::get_ready() const -> bool
@@ -62,13 +65,13 @@ namespace meevax::inline kernel
 
   auto binary_input_file_port::peek() -> object
   {
-    if (get_ready())
+    if (auto c = ifstream.peek(); std::ifstream::traits_type::eq_int_type(c, std::ifstream::traits_type::eof()))
     {
-      return make<small_integer>(ifstream.peek());
+      return eof_object;
     }
     else
     {
-      return eof_object;
+      return make<small_integer>(c);
     }
   }
 
-- 
2.43.0


From 8aa748a374cfba2b7fd81ed13c650f6dc9d09d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 29/92] fix: read-bytevector! returns the number of bytes read

---
 library/r7rs.ss | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/r7rs.ss b/library/r7rs.ss
index 209a5bf..4a51f30 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -311,7 +311,8 @@
                                           (current-input-port)))))
              (if (eof-object? v)
                  (eof-object)
-                 (bytevector-copy! x start v))))
+                 (begin (bytevector-copy! x start v)
+                        (bytevector-length v)))))
 
          (define (write-char x . xs)
            (%put-char x (if (pair? xs)
-- 
2.43.0


From 1205d6461dfb22c24f810ad7b7433354a87697b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 30/92] fix: char-ready? at end of file is #t

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 7ebad76..b0eab3a 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -335,7 +335,7 @@ namespace meevax::inline kernel
       { "procedure",                     [](let const& xs) { return make<procedure>(car(xs).as<string>().utf8(), cadr(xs).as<symbol>().name.c_str()); } },
 
       { "get-char",                      [](let const& xs) { return car(xs).as<textual_input_port>().get(); } },
-      { "get-char-ready?",               [](let const& xs) { return make<bool>(car(xs).as<textual_input_port>().get_ready()); } },
+      { "get-char-ready?",               [](let const& xs) { return make<bool>(car(xs).as<textual_input_port>().get_ready() or car(xs).as<textual_input_port>().at_end_of_file()); } },
       { "get-line",                      [](let const& xs) { return car(xs).as<textual_input_port>().get_line(); } },
       { "peek-char",                     [](let const& xs) { return car(xs).as<textual_input_port>().peek(); } },
       { "read",                          [](let const& xs) { return car(xs).as<textual_input_port>().read(); } },
-- 
2.43.0


From 14bba3a33a62e41ea3131afb9f0a3fd31ec3831a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 31/92] fix: A closed string or bytevector port is not open

---
 include/meevax/kernel/input_homogeneous_vector_port.hpp  | 8 ++++++--
 include/meevax/kernel/input_string_port.hpp              | 2 ++
 include/meevax/kernel/output_homogeneous_vector_port.hpp | 8 ++++++--
 include/meevax/kernel/output_string_port.hpp             | 2 ++
 src/kernel/input_string_port.cpp                         | 6 ++++--
 src/kernel/output_string_port.cpp                        | 6 ++++--
 6 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/meevax/kernel/input_homogeneous_vector_port.hpp b/include/meevax/kernel/input_homogeneous_vector_port.hpp
index 531a511..9edd0df 100644
--- a/include/meevax/kernel/input_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/input_homogeneous_vector_port.hpp
@@ -30,12 +30,16 @@ namespace meevax::inline kernel
   {
     std::deque<T> deque;
 
+    bool closed = false;
+
     explicit input_homogeneous_vector_port(homogeneous_vector<T> const& v)
       : deque(std::begin(v.values), std::end(v.values))
     {}
 
     auto close() -> void override
-    {}
+    {
+      closed = true;
+    }
 
     auto get() -> object override
     {
@@ -75,7 +79,7 @@ namespace meevax::inline kernel
 
     auto is_open() const -> bool override
     {
-      return true;
+      return not closed;
     }
 
     auto peek() -> object override
diff --git a/include/meevax/kernel/input_string_port.hpp b/include/meevax/kernel/input_string_port.hpp
index 6ae4486..744b4f7 100644
--- a/include/meevax/kernel/input_string_port.hpp
+++ b/include/meevax/kernel/input_string_port.hpp
@@ -26,6 +26,8 @@ namespace meevax::inline kernel
   {
     std::istringstream istringstream;
 
+    bool closed = false;
+
     explicit input_string_port(auto&&... xs)
       : istringstream { std::forward<decltype(xs)>(xs)... }
     {}
diff --git a/include/meevax/kernel/output_homogeneous_vector_port.hpp b/include/meevax/kernel/output_homogeneous_vector_port.hpp
index 02d4fd4..27323cf 100644
--- a/include/meevax/kernel/output_homogeneous_vector_port.hpp
+++ b/include/meevax/kernel/output_homogeneous_vector_port.hpp
@@ -27,17 +27,21 @@ namespace meevax::inline kernel
   {
     std::vector<T> vector;
 
+    bool closed = false;
+
     output_homogeneous_vector_port() = default;
 
     auto close() -> void override
-    {}
+    {
+      closed = true;
+    }
 
     auto flush() -> void override
     {}
 
     auto is_open() const -> bool override
     {
-      return true;
+      return not closed;
     }
 
     auto put(std::uint8_t x) -> void override
diff --git a/include/meevax/kernel/output_string_port.hpp b/include/meevax/kernel/output_string_port.hpp
index dd8223b..8d062dd 100644
--- a/include/meevax/kernel/output_string_port.hpp
+++ b/include/meevax/kernel/output_string_port.hpp
@@ -26,6 +26,8 @@ namespace meevax::inline kernel
   {
     std::ostringstream ostringstream;
 
+    bool closed = false;
+
     explicit output_string_port(auto&&... xs)
       : ostringstream { std::forward<decltype(xs)>(xs)... }
     {}
diff --git a/src/kernel/input_string_port.cpp b/src/kernel/input_string_port.cpp
index 8ada4da..5996e07 100644
--- a/src/kernel/input_string_port.cpp
+++ b/src/kernel/input_string_port.cpp
@@ -20,11 +20,13 @@
 namespace meevax::inline kernel
 {
   auto input_string_port::close() -> void
-  {}
+  {
+    closed = true;
+  }
 
   auto input_string_port::is_open() const -> bool
   {
-    return true;
+    return not closed;
   }
 
   auto input_string_port::istream() -> std::istream &
diff --git a/src/kernel/output_string_port.cpp b/src/kernel/output_string_port.cpp
index 47b9480..5852c1f 100644
--- a/src/kernel/output_string_port.cpp
+++ b/src/kernel/output_string_port.cpp
@@ -20,11 +20,13 @@
 namespace meevax::inline kernel
 {
   auto output_string_port::close() -> void
-  {}
+  {
+    closed = true;
+  }
 
   auto output_string_port::is_open() const -> bool
   {
-    return true;
+    return not closed;
   }
 
   output_string_port::operator std::ostream &()
-- 
2.43.0


From 06825e275e6ab44bea5f67993117af69ef225c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 32/92] fix: Write circular data that contains itself in a car
 or in a vector

---
 include/meevax/kernel/datum_label.hpp |  51 ++++++++
 src/kernel/datum_label.cpp            | 162 ++++++++++++++++++++++++++
 src/kernel/pair.cpp                   |  76 +++---------
 src/kernel/vector.cpp                 |   8 ++
 4 files changed, 234 insertions(+), 63 deletions(-)
 create mode 100644 include/meevax/kernel/datum_label.hpp
 create mode 100644 src/kernel/datum_label.cpp

diff --git a/include/meevax/kernel/datum_label.hpp b/include/meevax/kernel/datum_label.hpp
new file mode 100644
index 0000000..e5ea59b
--- /dev/null
+++ b/include/meevax/kernel/datum_label.hpp
@@ -0,0 +1,51 @@
+/*
+   Copyright 2018-2025 Tatsuya Yamasaki.
+
+   Licensed under the Apache License, Version 2.0 (the "License");
+   you may not use this file except in compliance with the License.
+   You may obtain a copy of the License at
+
+       http://www.apache.org/licenses/LICENSE-2.0
+
+   Unless required by applicable law or agreed to in writing, software
+   distributed under the License is distributed on an "AS IS" BASIS,
+   WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+   See the License for the specific language governing permissions and
+   limitations under the License.
+*/
+
+#ifndef INCLUDED_MEEVAX_KERNEL_DATUM_LABEL_HPP
+#define INCLUDED_MEEVAX_KERNEL_DATUM_LABEL_HPP
+
+#include <algorithm>
+
+#include <meevax/kernel/vector.hpp>
+#include <unordered_map>
+
+namespace meevax::inline kernel
+{
+  /*
+     The datum labels of the outermost datum being written to an output stream.
+     Only the pairs and vectors that contain themselves are labeled.
+  */
+  struct datum_labels
+  {
+    std::ostream & os;
+
+    explicit datum_labels(std::ostream &, pair const&);
+
+    explicit datum_labels(std::ostream &, heterogeneous_vector const&);
+
+    ~datum_labels();
+
+    auto has(void const*) const -> bool;
+
+    /*
+       Writes the definition (#n=) of the label of the datum, if there is one,
+       or returns true after writing a reference (#n#) to it.
+    */
+    auto write(void const*) const -> bool;
+  };
+} // namespace meevax::kernel
+
+#endif // INCLUDED_MEEVAX_KERNEL_DATUM_LABEL_HPP
diff --git a/src/kernel/datum_label.cpp b/src/kernel/datum_label.cpp
new file mode 100644
index 0000000..499162a
--- /dev/null
+++ b/src/kernel/datum_label.cpp
@@ -0,0 +1,162 @@
+/*
+   Copyright 2018-2025 Tatsuya Yamasaki.
+
+   Licensed under the Apache License, Version 2.0 (the "License");
+   you may not use this file except in compliance with the License.
+   You may obtain a copy of the License at
+
+       http://www.apache.org/licenses/LICENSE-2.0
+
+   Unless required by applicable law or agreed to in writing, software
+   distributed under the License is distributed on an "AS IS" BASIS,
+   WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+   See the License for the specific language governing permissions and
+   limitations under the License.
+*/
+
+#include <meevax/kernel/datum_label.hpp>
+
+namespace meevax::inline kernel
+{
+  namespace
+  {
+    struct table : public std::unordered_map<void const*, std::size_t>
+    {
+      std::size_t count = 0;
+    };
+
+    auto const depth_index = std::ios_base::xalloc();
+
+    auto const table_index = std::ios_base::xalloc();
+
+    struct node
+    {
+      pair const* p = nullptr;
+
+      heterogeneous_vector const* v = nullptr;
+
+      std::size_t i = 0;
+
+      explicit node(pair const& x)
+        : p { &x }
+      {}
+
+      explicit node(heterogeneous_vector const& x)
+        : v { &x }
+      {}
+
+      explicit node(object const& x)
+      {
+        if (x.is<pair>())
+        {
+          p = &x.as<pair>();
+        }
+        else if (x.is<vector>())
+        {
+          v = &x.as<vector>();
+        }
+      }
+
+      auto address() const -> void const*
+      {
+        return p ? static_cast<void const*>(p) : v;
+      }
+
+      auto next() -> object const*
+      {
+        if (auto n = i++; p)
+        {
+          return n == 0 ? &p->first : n == 1 ? &p->second : nullptr;
+        }
+        else
+        {
+          return n < v->objects.size() ? &v->objects[n] : nullptr;
+        }
+      }
+    };
+
+    auto enter(std::ostream & os, node const& root)
+    {
+      if (os.iword(depth_index)++)
+      {
+        return;
+      }
+
+      auto labels = new table();
+
+      os.pword(table_index) = labels;
+
+      auto finished = std::unordered_map<void const*, bool>();
+
+      auto path = std::vector<node> { root };
+
+      finished.emplace(root.address(), false);
+
+      while (not path.empty())
+      {
+        if (auto x = path.back().next(); not x)
+        {
+          finished[path.back().address()] = true;
+          path.pop_back();
+        }
+        else if (auto child = node(*x); child.address())
+        {
+          if (auto [iterator, success] = finished.emplace(child.address(), false); success)
+          {
+            path.push_back(child);
+          }
+          else if (not iterator->second) // The child contains itself.
+          {
+            labels->emplace(child.address(), 0);
+          }
+        }
+      }
+    }
+  } // namespace
+
+  datum_labels::datum_labels(std::ostream & os, pair const& x)
+    : os { os }
+  {
+    enter(os, node(x));
+  }
+
+  datum_labels::datum_labels(std::ostream & os, heterogeneous_vector const& x)
+    : os { os }
+  {
+    enter(os, node(x));
+  }
+
+  datum_labels::~datum_labels()
+  {
+    if (not --os.iword(depth_index))
+    {
+      delete static_cast<table *>(std::exchange(os.pword(table_index), nullptr));
+    }
+  }
+
+  auto datum_labels::has(void const* address) const -> bool
+  {
+    return static_cast<table *>(os.pword(table_index))->contains(address);
+  }
+
+  auto datum_labels::write(void const* address) const -> bool
+  {
+    auto & labels = *static_cast<table *>(os.pword(table_index));
+
+    if (auto iterator = labels.find(address); iterator == labels.end())
+    {
+      return false;
+    }
+    else if (iterator->second)
+    {
+      os << magenta("#", iterator->second, "#");
+      return true;
+    }
+    else
+    {
+      iterator->second = ++labels.count;
+      os << magenta("#", iterator->second, "=");
+      return false;
+    }
+  }
+} // namespace meevax::kernel
diff --git a/src/kernel/pair.cpp b/src/kernel/pair.cpp
index 41a6bb8..a552621 100644
--- a/src/kernel/pair.cpp
+++ b/src/kernel/pair.cpp
@@ -14,9 +14,8 @@
    limitations under the License.
 */
 
-#include <meevax/kernel/circular_list.hpp>
+#include <meevax/kernel/datum_label.hpp>
 #include <meevax/kernel/list.hpp>
-#include <unordered_map>
 
 namespace meevax::inline kernel
 {
@@ -35,78 +34,29 @@ namespace meevax::inline kernel
     return o << static_cast<pair const&>(*this);
   }
 
-  struct datum_labels
+  auto operator <<(std::ostream & os, pair const& datum) -> std::ostream &
   {
-    std::ostream & os;
-
-    auto static inline count_index = std::ios_base::xalloc();
-
-    auto static inline table_index = std::ios_base::xalloc();
-
-    using table = std::unordered_map<pair const*, std::size_t>;
+    auto labels = datum_labels(os, datum);
 
-    explicit datum_labels(std::ostream & os)
-      : os { os }
+    if (labels.write(&datum))
     {
-      if (not os.iword(count_index)++)
-      {
-        os.pword(table_index) = new table();
-      }
+      return os;
     }
 
-    ~datum_labels()
-    {
-      if (not --os.iword(count_index))
-      {
-        delete static_cast<table *>(std::exchange(os.pword(table_index), nullptr));
-      }
-    }
+    os << magenta("(") << datum.first;
 
-    auto static of(std::ostream & os)
+    auto xs = &datum.second;
+
+    for (; xs->is<pair>() and not labels.has(&xs->as<pair>()); xs = &cdr(*xs))
     {
-      return static_cast<table *>(os.pword(table_index));
+      os << " " << car(*xs);
     }
-  };
 
-  auto operator <<(std::ostream & os, pair const& datum) -> std::ostream &
-  {
-    auto _ = datum_labels(os);
-
-    if (is_circular_list(datum.second))
+    if (not xs->is<null>()) // xs is the last element of dotted-list or a datum that has a label.
     {
-      if (auto [iterator, success] = datum_labels::of(os)->emplace(&datum, datum_labels::of(os)->size() + 1); success)
-      {
-        os << magenta("#", iterator->second, "=(");
-
-        for (auto&& x : datum | as_circular_list)
-        {
-          os << x << " ";
-        }
-
-        return os << magenta(". #", iterator->second, "#)");
-      }
-      else
-      {
-        return os << magenta("#", iterator->second, "#");
-      }
+      os << magenta(" . ") << *xs;
     }
-    else
-    {
-      os << magenta("(") << datum.first;
-
-      for (let xs = datum.second; not xs.is<null>(); xs = cdr(xs))
-      {
-        if (xs.is<pair>())
-        {
-          os << " " << car(xs);
-        }
-        else // xs is the last element of dotted-list.
-        {
-          return os << magenta(" . ") << xs << magenta(")");
-        }
-      }
 
-      return os << magenta(")");
-    }
+    return os << magenta(")");
   }
 } // namespace meevax::kernel
diff --git a/src/kernel/vector.cpp b/src/kernel/vector.cpp
index 8d0de4c..b6c3b94 100644
--- a/src/kernel/vector.cpp
+++ b/src/kernel/vector.cpp
@@ -17,6 +17,7 @@
 #include <numeric>
 
 #include <meevax/kernel/comparator.hpp>
+#include <meevax/kernel/datum_label.hpp>
 #include <meevax/kernel/vector.hpp>
 
 namespace meevax::inline kernel
@@ -28,6 +29,13 @@ namespace meevax::inline kernel
 
   auto operator <<(std::ostream & output, heterogeneous_vector const& datum) -> std::ostream &
   {
+    auto labels = datum_labels(output, datum);
+
+    if (labels.write(&datum))
+    {
+      return output;
+    }
+
     output << magenta("#(");
 
     auto whitespace = "";
-- 
2.43.0


From c329314d8e12afd99e288abe4a7205b25b29930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 33/92] fix: A macro use that expands into an identifier or
 into a body refers to the innermost bindings at the use

---
 src/kernel/syntactic_environment.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 5ba72f1..f708ca3 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -28,6 +28,26 @@
 
 namespace meevax::inline kernel
 {
+  /*
+     The form that a syntactic closure closes in the given environment. When
+     that is the environment of the use of a macro, the form stands where the
+     use stood, and its identifiers undergo the same α-conversion as those of
+     the forms around it. (An alias does not; it names what it was made for.)
+  */
+  static auto open(let const& form, let const& environment) -> object
+  {
+    if (form.is<syntactic_closure>() and eq(form.as<syntactic_closure>().syntactic_environment, environment)
+                                     and form.as<syntactic_closure>().free_names.is<null>()
+                                     and not form.as<syntactic_closure>().form.is<syntactic_closure>())
+    {
+      return form.as<syntactic_closure>().form;
+    }
+    else
+    {
+      return form;
+    }
+  }
+
   auto syntactic_environment::compile(object const& form) -> object
   {
     return generate(expand(form, first), first);
@@ -74,7 +94,9 @@ namespace meevax::inline kernel
       {
         if (let const& value = cdr(identity); value.is<transformer>())
         {
-          return expand(value.as<transformer>().transform(form, make<syntactic_environment>(bound_variables, second)),
+          let const use_environment = make<syntactic_environment>(bound_variables, second);
+
+          return expand(open(value.as<transformer>().transform(form, use_environment), use_environment),
                         bound_variables,
                         alpha);
         }
@@ -238,7 +260,7 @@ namespace meevax::inline kernel
           if (let const& value = cdr(identity); value.is<transformer>())
           {
             return sweep(form,
-                         cons(value.as<transformer>().transform(car(sequence), current_environment),
+                         cons(open(value.as<transformer>().transform(car(sequence), current_environment), current_environment),
                               cdr(sequence)),
                          bound_variables,
                          current_environment,
-- 
2.43.0


From ca7a0fd39e4a2ad10dbd89ce7aff2a8f4277e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:32 +0000
Subject: [PATCH 34/92] fix: Internal definitions of variables that a macro
 introduces

---
 src/kernel/syntactic_environment.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index f708ca3..a3701d0 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -240,6 +240,25 @@ namespace meevax::inline kernel
                    formals);
     };
 
+    /*
+       A macro makes a new identifier for a variable it introduces each time it
+       is expanded, so that starting over would never find the same variable.
+    */
+    auto resume = [&](let const& formal)
+    {
+      let const extended_formals = append(formals, list(formal));
+
+      car(current_environment.as<syntactic_environment>().first) = extended_formals;
+
+      return sweep(form,
+                   sequence,
+                   bound_variables,
+                   current_environment,
+                   alpha,
+                   extended_formals,
+                   reversed_binding_specs);
+    };
+
     if (sequence.is<pair>())
     {
       if (car(sequence).is<syntactic_closure>() and identify(car(sequence), car(current_environment)) == f)
@@ -300,7 +319,7 @@ namespace meevax::inline kernel
                 }
                 else
                 {
-                  return reset(append(formals, list(variable)));
+                  return variable.is<syntactic_closure>() and formals ? resume(variable) : reset(append(formals, list(variable)));
                 }
               }
               else // <form> = ((define <variable> <expression>) <definition or expression>*)
@@ -318,7 +337,7 @@ namespace meevax::inline kernel
                 }
                 else
                 {
-                  return reset(append(formals, list(variable)));
+                  return variable.is<syntactic_closure>() and formals ? resume(variable) : reset(append(formals, list(variable)));
                 }
               }
             }
@@ -341,7 +360,9 @@ namespace meevax::inline kernel
               }
               else
               {
-                return reset(append(formals, list(make<macro>(cadar(sequence), caddar(sequence)))));
+                let const formal = make<macro>(cadar(sequence), caddar(sequence));
+
+                return car(formal).is<syntactic_closure>() and formals ? resume(formal) : reset(append(formals, list(formal)));
               }
             }
           }
-- 
2.43.0


From 9f168caac162b8a3abb5a2a2a49c63469a42c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 35/92] fix: Compare ratios and flonums exactly

---
 src/kernel/number.cpp | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 0ce53ae..2a9c8a6 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -127,6 +127,11 @@ namespace meevax::inline kernel
   auto operator ==(large_integer const& a, complex const& b) -> bool    { return complex(make<large_integer>(a), e0) == b; }
   auto operator !=(large_integer const& a, complex const& b) -> bool    { return complex(make<large_integer>(a), e0) != b; }
 
+  static auto compare(ratio const& a, double b) -> int // Exactly, so that the order is transitive.
+  {
+    return std::isinf(b) ? (b < 0 ? 1 : -1) : mpq_cmp(a.value, ratio(b).value);
+  }
+
   auto operator + (ratio const& a, widen_integer b) -> ratio { ratio q; mpq_add(q.value, a.value, ratio(b).value); return q; }
   auto operator - (ratio const& a, widen_integer b) -> ratio { ratio q; mpq_sub(q.value, a.value, ratio(b).value); return q; }
   auto operator * (ratio const& a, widen_integer b) -> ratio { ratio q; mpq_mul(q.value, a.value, ratio(b).value); return q; }
@@ -170,10 +175,10 @@ namespace meevax::inline kernel
   auto operator % (ratio const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
   auto operator ==(ratio const& a, float b) -> bool  { return inexact_equals(static_cast<float>(a), b); }
   auto operator !=(ratio const& a, float b) -> bool  { return not (a == b); }
-  auto operator < (ratio const& a, float b) -> bool  { return static_cast<float>(a) <  b; }
-  auto operator <=(ratio const& a, float b) -> bool  { return static_cast<float>(a) <= b; }
-  auto operator > (ratio const& a, float b) -> bool  { return static_cast<float>(a) >  b; }
-  auto operator >=(ratio const& a, float b) -> bool  { return static_cast<float>(a) >= b; }
+  auto operator < (ratio const& a, float b) -> bool  { return not std::isnan(b) and compare(a, b) <  0; }
+  auto operator <=(ratio const& a, float b) -> bool  { return not std::isnan(b) and compare(a, b) <= 0; }
+  auto operator > (ratio const& a, float b) -> bool  { return not std::isnan(b) and compare(a, b) >  0; }
+  auto operator >=(ratio const& a, float b) -> bool  { return not std::isnan(b) and compare(a, b) >= 0; }
 
   auto operator + (ratio const& a, double b) -> double { return static_cast<double>(a) +  b; }
   auto operator - (ratio const& a, double b) -> double { return static_cast<double>(a) -  b; }
@@ -182,10 +187,10 @@ namespace meevax::inline kernel
   auto operator % (ratio const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
   auto operator ==(ratio const& a, double b) -> bool   { return inexact_equals(static_cast<double>(a), b); }
   auto operator !=(ratio const& a, double b) -> bool   { return not (a == b); }
-  auto operator < (ratio const& a, double b) -> bool   { return static_cast<double>(a) <  b; }
-  auto operator <=(ratio const& a, double b) -> bool   { return static_cast<double>(a) <= b; }
-  auto operator > (ratio const& a, double b) -> bool   { return static_cast<double>(a) >  b; }
-  auto operator >=(ratio const& a, double b) -> bool   { return static_cast<double>(a) >= b; }
+  auto operator < (ratio const& a, double b) -> bool   { return not std::isnan(b) and compare(a, b) <  0; }
+  auto operator <=(ratio const& a, double b) -> bool   { return not std::isnan(b) and compare(a, b) <= 0; }
+  auto operator > (ratio const& a, double b) -> bool   { return not std::isnan(b) and compare(a, b) >  0; }
+  auto operator >=(ratio const& a, double b) -> bool   { return not std::isnan(b) and compare(a, b) >= 0; }
 
   auto operator + (ratio const& a, complex const& b) -> complex { return complex(make<ratio>(a), e0) +  b; }
   auto operator - (ratio const& a, complex const& b) -> complex { return complex(make<ratio>(a), e0) -  b; }
@@ -213,10 +218,10 @@ namespace meevax::inline kernel
   auto operator % (float a, ratio const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
   auto operator ==(float a, ratio const& b) -> bool  { return inexact_equals(a, static_cast<float>(b)); }
   auto operator !=(float a, ratio const& b) -> bool  { return not (a == b); }
-  auto operator < (float a, ratio const& b) -> bool  { return a <  static_cast<float>(b); }
-  auto operator <=(float a, ratio const& b) -> bool  { return a <= static_cast<float>(b); }
-  auto operator > (float a, ratio const& b) -> bool  { return a >  static_cast<float>(b); }
-  auto operator >=(float a, ratio const& b) -> bool  { return a >= static_cast<float>(b); }
+  auto operator < (float a, ratio const& b) -> bool  { return not std::isnan(a) and 0 <  compare(b, a); }
+  auto operator <=(float a, ratio const& b) -> bool  { return not std::isnan(a) and 0 <= compare(b, a); }
+  auto operator > (float a, ratio const& b) -> bool  { return not std::isnan(a) and 0 >  compare(b, a); }
+  auto operator >=(float a, ratio const& b) -> bool  { return not std::isnan(a) and 0 >= compare(b, a); }
 
   auto operator + (float a, complex const& b) -> complex { return complex(make<float>(a), e0) +  b; }
   auto operator - (float a, complex const& b) -> complex { return complex(make<float>(a), e0) -  b; }
@@ -244,10 +249,10 @@ namespace meevax::inline kernel
   auto operator % (double a, ratio const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
   auto operator ==(double a, ratio const& b) -> bool   { return inexact_equals(a, static_cast<double>(b)); }
   auto operator !=(double a, ratio const& b) -> bool   { return not (a == b); }
-  auto operator < (double a, ratio const& b) -> bool   { return a <  static_cast<double>(b); }
-  auto operator <=(double a, ratio const& b) -> bool   { return a <= static_cast<double>(b); }
-  auto operator > (double a, ratio const& b) -> bool   { return a >  static_cast<double>(b); }
-  auto operator >=(double a, ratio const& b) -> bool   { return a >= static_cast<double>(b); }
+  auto operator < (double a, ratio const& b) -> bool   { return not std::isnan(a) and 0 <  compare(b, a); }
+  auto operator <=(double a, ratio const& b) -> bool   { return not std::isnan(a) and 0 <= compare(b, a); }
+  auto operator > (double a, ratio const& b) -> bool   { return not std::isnan(a) and 0 >  compare(b, a); }
+  auto operator >=(double a, ratio const& b) -> bool   { return not std::isnan(a) and 0 >= compare(b, a); }
 
   auto operator + (double a, complex const& b) -> complex { return complex(make<double>(a), e0) +  b; }
   auto operator - (double a, complex const& b) -> complex { return complex(make<double>(a), e0) -  b; }
-- 
2.43.0


From b3c8b7df97625d03fa7e1daef0fea3440d6a6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 36/92] fix: Decimals have radix 10

---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 2a9c8a6..3a8ed33 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -466,7 +466,7 @@ namespace meevax::inline kernel
       {
         return make<double>(iter->second);
       }
-      else if (is_decimal())
+      else if (radix == 10 and is_decimal())
       {
         /*
            R7RS 6.2.5. Syntax of numerical constants
-- 
2.43.0


From 6659ca572c643a194dd5b0a8cba222531f11d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:19 +0000
Subject: [PATCH 37/92] fix: A ratio equals a flonum only if it is its exact
 value

---
 src/kernel/number.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 3a8ed33..fc8eb74 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -173,7 +173,7 @@ namespace meevax::inline kernel
   auto operator * (ratio const& a, float b) -> float { return static_cast<float>(a) *  b; }
   auto operator / (ratio const& a, float b) -> float { return static_cast<float>(a) /  b; }
   auto operator % (ratio const& a, float b) -> float { return std::fmod(static_cast<float>(a), b); }
-  auto operator ==(ratio const& a, float b) -> bool  { return inexact_equals(static_cast<float>(a), b); }
+  auto operator ==(ratio const& a, float b) -> bool  { return not std::isnan(b) and compare(a, b) == 0; }
   auto operator !=(ratio const& a, float b) -> bool  { return not (a == b); }
   auto operator < (ratio const& a, float b) -> bool  { return not std::isnan(b) and compare(a, b) <  0; }
   auto operator <=(ratio const& a, float b) -> bool  { return not std::isnan(b) and compare(a, b) <= 0; }
@@ -185,7 +185,7 @@ namespace meevax::inline kernel
   auto operator * (ratio const& a, double b) -> double { return static_cast<double>(a) *  b; }
   auto operator / (ratio const& a, double b) -> double { return static_cast<double>(a) /  b; }
   auto operator % (ratio const& a, double b) -> double { return std::fmod(static_cast<double>(a), b); }
-  auto operator ==(ratio const& a, double b) -> bool   { return inexact_equals(static_cast<double>(a), b); }
+  auto operator ==(ratio const& a, double b) -> bool   { return not std::isnan(b) and compare(a, b) == 0; }
   auto operator !=(ratio const& a, double b) -> bool   { return not (a == b); }
   auto operator < (ratio const& a, double b) -> bool   { return not std::isnan(b) and compare(a, b) <  0; }
   auto operator <=(ratio const& a, double b) -> bool   { return not std::isnan(b) and compare(a, b) <= 0; }
@@ -216,7 +216,7 @@ namespace meevax::inline kernel
   auto operator * (float a, ratio const& b) -> float { return a *  static_cast<float>(b); }
   auto operator / (float a, ratio const& b) -> float { return a /  static_cast<float>(b); }
   auto operator % (float a, ratio const& b) -> float { return std::fmod(a, static_cast<float>(b)); }
-  auto operator ==(float a, ratio const& b) -> bool  { return inexact_equals(a, static_cast<float>(b)); }
+  auto operator ==(float a, ratio const& b) -> bool  { return not std::isnan(a) and 0 == compare(b, a); }
   auto operator !=(float a, ratio const& b) -> bool  { return not (a == b); }
   auto operator < (float a, ratio const& b) -> bool  { return not std::isnan(a) and 0 <  compare(b, a); }
   auto operator <=(float a, ratio const& b) -> bool  { return not std::isnan(a) and 0 <= compare(b, a); }
@@ -247,7 +247,7 @@ namespace meevax::inline kernel
   auto operator * (double a, ratio const& b) -> double { return a *  static_cast<double>(b); }
   auto operator / (double a, ratio const& b) -> double { return a /  static_cast<double>(b); }
   auto operator % (double a, ratio const& b) -> double { return std::fmod(a, static_cast<double>(b)); }
-  auto operator ==(double a, ratio const& b) -> bool   { return inexact_equals(a, static_cast<double>(b)); }
+  auto operator ==(double a, ratio const& b) -> bool   { return not std::isnan(a) and 0 == compare(b, a); }
   auto operator !=(double a, ratio const& b) -> bool   { return not (a == b); }
   auto operator < (double a, ratio const& b) -> bool   { return not std::isnan(a) and 0 <  compare(b, a); }
   auto operator <=(double a, ratio const& b) -> bool   { return not std::isnan(a) and 0 <= compare(b, a); }
-- 
2.43.0


From 4e50119620112e8b4c0424591c21c911a16dd798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 38/92] fix: fxsqrt returns the integer root and the rest, and
 fxarithmetic-shift-right shifts right

---
 library/srfi-143.ss | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/srfi-143.ss b/library/srfi-143.ss
index e03ba0b..33a8d73 100644
--- a/library/srfi-143.ss
+++ b/library/srfi-143.ss
@@ -109,7 +109,7 @@
 
          (define fxsquare square)
 
-         (define fxsqrt sqrt)
+         (define fxsqrt exact-integer-sqrt)
 
          (define (fx+/carry i j k)
            (let*-values (((s) (+ i j k))
@@ -133,7 +133,8 @@
 
          (define fxarithmetic-shift       arithmetic-shift)
          (define fxarithmetic-shift-left  arithmetic-shift)
-         (define fxarithmetic-shift-right arithmetic-shift)
+         (define (fxarithmetic-shift-right i count)
+           (arithmetic-shift i (- count)))
 
          (define fxbit-count bit-count)
 
-- 
2.43.0


From d8da7bb2fbd123e7df8c7a1cd452113ffe1ac95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:56 +0000
Subject: [PATCH 39/92] fix: flcbrt of a negative flonum

---
 library/srfi-144.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-144.ss b/library/srfi-144.ss
index 2abafc6..5a968aa 100644
--- a/library/srfi-144.ss
+++ b/library/srfi-144.ss
@@ -274,7 +274,7 @@
          (define flsqrt sqrt)
 
          (define (flcbrt x)
-           (expt x (/ 1 3)))
+           (flcopysign (expt (flabs x) (/ 1 3)) x))
 
          (define (flhypot x y)
            (sqrt (+ (square x)
-- 
2.43.0


From 9f15a05c3eedb05488cbbf3e1c5385d55de19360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:19 +0000
Subject: [PATCH 40/92] fix: Rotating an empty bit field divided by zero

---
 library/srfi-151.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-151.ss b/library/srfi-151.ss
index d35d437..0ace25d 100644
--- a/library/srfi-151.ss
+++ b/library/srfi-151.ss
@@ -159,7 +159,7 @@
   ;
   (begin (define (bit-field-rotate n count start end)
            (define width (- end start))
-           (set! count (modulo count width))
+           (set! count (if (zero? width) 0 (modulo count width)))
            (let ((mask (bitwise-not (arithmetic-shift -1 width))))
              (define zn (bitwise-and mask (arithmetic-shift n (- start))))
              (bitwise-ior (arithmetic-shift (bitwise-ior (bitwise-and mask (arithmetic-shift zn count))
-- 
2.43.0


From b4946b41ea121aa21f4b4a4df6e0104ee38b6228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 41/92] fix: Code points inside the ranges of UnicodeData.txt,
 such as CJK ideographs, have the category of their range

---
 include/meevax/kernel/character.hpp | 35 +++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index 8e323e9..fe41b34 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -81,11 +81,42 @@ namespace meevax::inline kernel
         {
         #include <meevax/unicode/property.hpp>
 
-        default:
-          return Cn;
+        default: // UnicodeData.txt lists only the first and the last code point of these ranges.
+          return is_in_range_of_letters(codepoint) ? Lo :
+                 is_in_range_of_surrogates(codepoint) ? Cs :
+                 is_in_range_of_private_use(codepoint) ? Co : Cn;
         }
       }
 
+      static constexpr auto is_in_range_of_letters(int_type codepoint) noexcept -> bool
+      {
+        return (0x3400  <= codepoint and codepoint <= 0x4DBF ) // CJK Ideograph Extension A
+            or (0x4E00  <= codepoint and codepoint <= 0x9FFF ) // CJK Ideograph
+            or (0xAC00  <= codepoint and codepoint <= 0xD7A3 ) // Hangul Syllable
+            or (0x17000 <= codepoint and codepoint <= 0x187F7) // Tangut Ideograph
+            or (0x18D00 <= codepoint and codepoint <= 0x18D08) // Tangut Ideograph Supplement
+            or (0x20000 <= codepoint and codepoint <= 0x2A6DF) // CJK Ideograph Extension B
+            or (0x2A700 <= codepoint and codepoint <= 0x2B739) // CJK Ideograph Extension C
+            or (0x2B740 <= codepoint and codepoint <= 0x2B81D) // CJK Ideograph Extension D
+            or (0x2B820 <= codepoint and codepoint <= 0x2CEA1) // CJK Ideograph Extension E
+            or (0x2CEB0 <= codepoint and codepoint <= 0x2EBE0) // CJK Ideograph Extension F
+            or (0x2EBF0 <= codepoint and codepoint <= 0x2EE5D) // CJK Ideograph Extension I
+            or (0x30000 <= codepoint and codepoint <= 0x3134A) // CJK Ideograph Extension G
+            or (0x31350 <= codepoint and codepoint <= 0x323AF); // CJK Ideograph Extension H
+      }
+
+      static constexpr auto is_in_range_of_private_use(int_type codepoint) noexcept -> bool
+      {
+        return (0xE000   <= codepoint and codepoint <= 0xF8FF  )
+            or (0xF0000  <= codepoint and codepoint <= 0xFFFFD )
+            or (0x100000 <= codepoint and codepoint <= 0x10FFFD);
+      }
+
+      static constexpr auto is_in_range_of_surrogates(int_type codepoint) noexcept -> bool
+      {
+        return 0xD800 <= codepoint and codepoint <= 0xDFFF;
+      }
+
       constexpr auto is_any_of(auto&&... xs) const noexcept
       {
         return ((value == xs) or ...);
-- 
2.43.0


From b85dc549e3a89ab64127ca57c47c36b1fe460731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 42/92] fix: digit-value of characters that are not numeric is
 #f

---
 include/meevax/kernel/character.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/meevax/kernel/character.hpp b/include/meevax/kernel/character.hpp
index fe41b34..a270645 100644
--- a/include/meevax/kernel/character.hpp
+++ b/include/meevax/kernel/character.hpp
@@ -171,6 +171,11 @@ namespace meevax::inline kernel
 
     auto constexpr digit_value() const noexcept -> std::optional<int>
     {
+      if (not property().is_numeric()) // Superscripts and the like have the digit property, but are not decimal digits.
+      {
+        return std::nullopt;
+      }
+
       switch (codepoint)
       {
       #include <meevax/unicode/digit_value.hpp>
-- 
2.43.0


From d676abc715a85d6ff627fd24a5e5e0564729ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 43/92] fix: string->utf8 takes start and end

---
 library/r7rs.ss | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/r7rs.ss b/library/r7rs.ss
index 4a51f30..86e56a6 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -197,7 +197,8 @@
 
          (define utf8->string u8vector->string)
 
-         (define string->utf8 string->u8vector)
+         (define (string->utf8 x . xs)
+           (string->u8vector (if (null? xs) x (apply string-copy x xs))))
 
          (define (string-map f x . xs)
            (if (null? xs)
-- 
2.43.0


From 8132c8c6f5bc3d999911237d5c78d56008b960f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 44/92] =?UTF-8?q?fix:=20boolean=3D=3F=20and=20symbol=3D=3F?=
 =?UTF-8?q?=20compare=20all=20their=20arguments?=

---
 library/r7rs.ss | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/library/r7rs.ss b/library/r7rs.ss
index 86e56a6..a9c2c45 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -170,12 +170,18 @@
 
          (define exact inexact->exact)
 
-         (define boolean=? eqv?)
+         (define (boolean=? x y . xs)
+           (and (eqv? x y)
+                (or (null? xs)
+                    (apply boolean=? y xs))))
 
          (define (list-set! xs k x)
            (set-car! (list-tail xs k) x))
 
-         (define symbol=? eqv?)
+         (define (symbol=? x y . xs)
+           (and (eqv? x y)
+                (or (null? xs)
+                    (apply symbol=? y xs))))
 
          (define bytevector? u8vector?)
 
-- 
2.43.0


From 40fe56c1f8e34eb3e4e500db7ef506f9511c6647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 45/92] fix: bytevector-append and its kin append any number of
 vectors

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index b0eab3a..f81c198 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -409,7 +409,7 @@ namespace meevax::inline kernel
       { #TAG "vector-set!",              [](let const& xs) { car(xs).as<TAG##vector>().values[exact_integer_cast<std::size_t>(cadr(xs))] = TAG##vector::input_cast(caddr(xs)); return unspecified; } }, \
       { #TAG "vector-copy",              [](let const& xs) { auto copy = [&](std::size_t begin, std::size_t end) { assert(begin <= end); return make<TAG##vector>(car(xs).as<TAG##vector>().values[std::slice(begin, end - begin, 1)]); }; switch (length(xs)) { case 1: return copy(0, car(xs).as<TAG##vector>().values.size()); case 2: return copy(exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector-copy takes one to three arguments, but got"), xs); } } }, \
       { #TAG "vector-copy!",             [](let const& xs) { auto copy = [&](std::size_t at, std::size_t begin, std::size_t end) { assert(begin <= end); auto i = std::slice(at, end - begin, 1); auto j = std::slice(begin, end - begin, 1); car(xs).as_mutable<TAG##vector>().values[i] = TAG##vector::values_type(caddr(xs).as<TAG##vector>().values[j]); }; switch (length(xs)) { case 3: copy(exact_integer_cast<std::size_t>(cadr(xs)), 0, caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 4: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), caddr(xs).as<TAG##vector>().values.size()); return unspecified; case 5: copy(exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(cadddr(xs)), exact_integer_cast<std::size_t>(caddddr(xs))); return unspecified; default: throw error(make<string>("procedure " #TAG "vector-copy! takes three to five arguments, but got"), xs); } } }, \
-      { #TAG "vector-append",            [](let const& xs) { auto const& a = car(xs).as<TAG##vector>(); auto const& b = cadr(xs).as<TAG##vector>(); let const c = make<TAG##vector>(a.values.size() + b.values.size()); c.as<TAG##vector>().values[std::slice(0, a.values.size(), 1)] = a.values; c.as<TAG##vector>().values[std::slice(a.values.size(), b.values.size(), 1)] = b.values; return c; } }, \
+      { #TAG "vector-append",            [](let const& xs) { std::size_t size = 0; for (let const& x : xs | as_proper_list) { size += x.as<TAG##vector>().values.size(); } let const v = make<TAG##vector>(size); auto iter = std::begin(v.as<TAG##vector>().values); for (let const& x : xs | as_proper_list) { iter = std::copy(std::begin(x.as<TAG##vector>().values), std::end(x.as<TAG##vector>().values), iter); } return v; } }, \
       { #TAG "vector->list",             [](let const& xs) { auto list = [](auto&& v, auto&& a, auto&& b) { auto xcons = [](auto&& x, auto&& y) { return cons(TAG##vector::output_cast(y), x); }; return reverse(std::accumulate(std::next(std::begin(v), a), std::next(std::begin(v), b), unit, xcons)); }; switch (length(xs)) { case 1: return list(car(xs).as<TAG##vector>().values, 0, car(xs).as<TAG##vector>().values.size()); case 2: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), car(xs).as<TAG##vector>().values.size()); case 3: return list(car(xs).as<TAG##vector>().values, exact_integer_cast<std::size_t>(cadr(xs)), exact_integer_cast<std::size_t>(caddr(xs))); default: throw error(make<string>("procedure " #TAG "vector->list takes one to three arguments, but got"), xs); } } }, \
       { "list->" #TAG "vector",          [](let const& xs) { return make<TAG##vector>(car(xs) | as_proper_list); } }
 
-- 
2.43.0


From ac4a57cb5f66319597136d3ae5db21a556811963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 46/92] fix: utf8->string of no bytes is the empty string

---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index f81c198..4e20183 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -417,7 +417,7 @@ namespace meevax::inline kernel
       REGISTER_VECTOR(u8), REGISTER_VECTOR(u16), REGISTER_VECTOR(u32), REGISTER_VECTOR(u64),
                                                  REGISTER_VECTOR(f32), REGISTER_VECTOR(f64),
 
-      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return input_string_port(buffer.str()).get(std::numeric_limits<std::size_t>::max()); } },
+      { "u8vector->string",              [](let const& xs) { auto buffer = std::ostringstream(); auto print = [&](auto const& x) { buffer << x; }; switch (length(xs)) { case 1: std::for_each(std::begin(car(xs).as<u8vector>().values), std::end(car(xs).as<u8vector>().values), print); break; case 2: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::end(car(xs).as<u8vector>().values), print); break; case 3: std::for_each(std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(cadr(xs))), std::next(std::begin(car(xs).as<u8vector>().values), exact_integer_cast<std::size_t>(caddr(xs))), print); break; default: throw error(make<string>("procedure u8vector->string takes one to three arguments, but got"), xs); } return make<string>(buffer.str()); } },
       { "string->u8vector",              [](let const& xs) { auto convert = [](std::string const& s) { return make<u8vector>(reinterpret_cast<std::uint8_t const*>(s.data()), s.size()); }; return convert(car(xs).as<string>().utf8()); } },
 
       { "put-char",                      [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<character>()); return unspecified; } },
-- 
2.43.0


From ea65326efbc5a5430a6fccdc56eb706767838df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 47/92] fix: Write single precision flonums with all their
 digits

---
 include/meevax/memory/nan_boxing_pointer.hpp | 34 +++++++++++---------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/meevax/memory/nan_boxing_pointer.hpp b/include/meevax/memory/nan_boxing_pointer.hpp
index 640bacf..fb2bfdb 100644
--- a/include/meevax/memory/nan_boxing_pointer.hpp
+++ b/include/meevax/memory/nan_boxing_pointer.hpp
@@ -237,13 +237,30 @@ namespace meevax::inline memory
       return reinterpret_cast<pointer>(payload());
     }
 
-    template <any_of<T1, T2, T3, T4, T5, T*> Tn>
+    template <any_of<double, T1, T2, T3, T4, T5, T*> Tn>
     auto static write(std::ostream & os, Tn x) -> std::ostream &
     {
       if constexpr (std::is_same_v<decltype(x), bool>)
       {
         return os << cyan('#', x ? 't' : 'f');
       }
+      else if constexpr (std::is_floating_point_v<decltype(x)>)
+      {
+        if (std::isnan(x))
+        {
+          return os << cyan("+nan.0");
+        }
+        else if (std::isinf(x))
+        {
+          return os << cyan(0 < x ? '+' : '-', "inf.0");
+        }
+        else
+        {
+          char buffer[48] = {};
+          std::to_chars(buffer, buffer + sizeof(buffer), x, std::chars_format::general);
+          return os << cyan(buffer);
+        }
+      }
       else if constexpr (std::is_arithmetic_v<decltype(x)>)
       {
         return os << std::dec << cyan(x);
@@ -269,20 +286,7 @@ namespace meevax::inline memory
         return os << magenta("()");
 
       default:
-        if (auto value = as<double>(); std::isnan(value))
-        {
-          return os << cyan("+nan.0");
-        }
-        else if (std::isinf(value))
-        {
-          return os << cyan(0 < value ? '+' : '-', "inf.0");
-        }
-        else
-        {
-          char buffer[48] = {};
-          std::to_chars(buffer, buffer + sizeof(buffer), value, std::chars_format::general);
-          return os << cyan(buffer);
-        }
+        return write(os, as<double>());
       }
     }
   };
-- 
2.43.0


From cb5502539160a67271425df4d86b620f4510a6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 48/92] fix: number->string of infinities and NaN

---
 src/kernel/number.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index fc8eb74..acbe469 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -941,6 +941,16 @@ namespace number
     {
       if constexpr (std::is_floating_point_v<T>)
       {
+        if (std::isnan(x))
+        {
+          return string("+nan.0");
+        }
+
+        if (std::isinf(x))
+        {
+          return string(0 < x ? "+inf.0" : "-inf.0");
+        }
+
         switch (radix)
         {
         case 2:
-- 
2.43.0


From eaa86dd0113cae11715775045a99ccad10f2bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 49/92] fix: Files that cannot be opened raise an object that
 satisfies file-error?

---
 src/kernel/boot.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 4e20183..90e6996 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -56,6 +56,26 @@ extern char ** environ; // for procedure get-environment-variables
 
 namespace meevax::inline kernel
 {
+  template <typename FilePort>
+  auto open_file(object const& name) -> object
+  {
+    try
+    {
+      if (let const port = make<FilePort>(name.as<string>().utf8()); port.as<FilePort>().is_open())
+      {
+        return port;
+      }
+      else
+      {
+        throw file_error(make<string>("failed to open file"), name);
+      }
+    }
+    catch (std::filesystem::filesystem_error const& e)
+    {
+      throw file_error(make<string>(e.what()), name);
+    }
+  }
+
   auto resolve(char const* name) -> void *
   {
     using namespace number;
@@ -314,10 +334,10 @@ namespace meevax::inline kernel
       { "standard-input-port",           [](let const&   ) { return make<standard_input_port>(); } },
       { "standard-output-port",          [](let const&   ) { return make<standard_output_port>(); } },
       { "standard-error-port",           [](let const&   ) { return make<standard_error_port>(); } },
-      { "open-input-file",               [](let const& xs) { return make<input_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-output-file",              [](let const& xs) { return make<output_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-binary-input-file",        [](let const& xs) { return make<binary_input_file_port>(car(xs).as<string>().utf8()); } },
-      { "open-binary-output-file",       [](let const& xs) { return make<binary_output_file_port>(car(xs).as<string>().utf8()); } },
+      { "open-input-file",               [](let const& xs) { return open_file<input_file_port>(car(xs)); } },
+      { "open-output-file",              [](let const& xs) { return open_file<output_file_port>(car(xs)); } },
+      { "open-binary-input-file",        [](let const& xs) { return open_file<binary_input_file_port>(car(xs)); } },
+      { "open-binary-output-file",       [](let const& xs) { return open_file<binary_output_file_port>(car(xs)); } },
       { "close",                         [](let const& xs) { car(xs).as<port>().close(); return unspecified; } },
       { "open-input-string",             [](let const& xs) { return make<input_string_port>(car(xs).as<string>().utf8()); } },
       { "open-output-string",            [](let const&   ) { return make<output_string_port>(); } },
-- 
2.43.0


From 0740d9f32df45f76a3202cff9ce00f0dfbe3b894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 50/92] fix: A carriage return, or it and a newline, ends a
 line for read-line

---
 src/kernel/textual_input_port.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index d5821d4..f43906b 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -176,7 +176,16 @@ namespace meevax::inline kernel
     }
     else
     {
-      return make<string>(take_character_until([](auto c) { return c == '\n'; }));
+      auto carriage_return = false;
+
+      let const s = make<string>(take_character_until([&](auto c) { return c == '\n' or (carriage_return = c == '\r'); }));
+
+      if (carriage_return and peek_character() == '\n') // "\r\n" is one end of line.
+      {
+        take_character();
+      }
+
+      return s;
     }
   }
 
-- 
2.43.0


From bcc381c7c659de3bb513d6ea25cca3bbb5149be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 51/92] fix: read-line of characters beyond ASCII

---
 include/meevax/kernel/textual_input_port.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/textual_input_port.hpp b/include/meevax/kernel/textual_input_port.hpp
index 68eb0f8..785874f 100644
--- a/include/meevax/kernel/textual_input_port.hpp
+++ b/include/meevax/kernel/textual_input_port.hpp
@@ -93,7 +93,7 @@ namespace meevax::inline kernel
 
       while (get_ready() and not satisfy(c = take_character()) and not c.is_eof())
       {
-        s += c;
+        s += c.utf8();
       }
 
       return s;
@@ -106,7 +106,7 @@ namespace meevax::inline kernel
 
       while (get_ready() and satisfy(peek_character()))
       {
-        s += take_character();
+        s += take_character().utf8();
       }
 
       return s;
-- 
2.43.0


From bbe5814b4985c6e62926164a154eceba2f9b236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 52/92] fix: Write strings with characters beyond the range of
 isprint

---
 src/kernel/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/string.cpp b/src/kernel/string.cpp
index 2ce1822..8b812a7 100644
--- a/src/kernel/string.cpp
+++ b/src/kernel/string.cpp
@@ -56,7 +56,7 @@ namespace meevax::inline kernel
   {
     auto put = [&](character const& c) -> decltype(auto)
     {
-      if (std::isprint(c.codepoint))
+      if (character::is_ascii(c.codepoint) and std::isprint(c.codepoint))
       {
         switch (c.codepoint)
         {
-- 
2.43.0


From 0784fdaf91b4121bb32ee9e7db7ec816818e2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 53/92] fix: exact of an infinity or NaN raised SIGFPE

---
 src/kernel/number.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index acbe469..315bf3b 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -578,6 +578,11 @@ namespace number
       }
       else if constexpr (std::is_floating_point_v<T>)
       {
+        if (not std::isfinite(x))
+        {
+          throw error(make<string>("there is no exact number for"), make<T>(x));
+        }
+
         return ratio(std::forward<decltype(x)>(x));
       }
       else
-- 
2.43.0


From 559aa2712a25567c113bba7ebe47d5077718ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 54/92] fix: Read an unquoted datum after whitespace or a
 comment

---
 src/kernel/textual_input_port.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index f43906b..d7c6a38 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -676,13 +676,14 @@ namespace meevax::inline kernel
         throw std::integral_constant<char, ')'>();
 
       case ',':  // 0x2C
-        switch (auto c = take_character())
+        if (peek_character() == '@')
         {
-        case '@':
+          take_character();
           return list(make_symbol("unquote-splicing"), read_nested());
-
-        default:
-          return list(make_symbol("unquote"), read_nested(c));
+        }
+        else
+        {
+          return list(make_symbol("unquote"), read_nested());
         }
 
       case ';':  // 0x3B
-- 
2.43.0


From 29b1511417c70fcb4ba49b64a740d40341164dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 55/92] fix: Read malformed character escapes as errors

A hex scalar value was whatever std::hex made of the text: it may be empty,
not a number, a surrogate or beyond Unicode, and the result a character that
does not exist. #\ at the end of a file was read as a character, too.
---
 src/kernel/textual_input_port.cpp | 34 ++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index d7c6a38..332e5eb 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -247,7 +247,7 @@ namespace meevax::inline kernel
   {
     auto is_digit = [](auto c)
     {
-      return std::isdigit(c);
+      return '0' <= c and c <= '9'; // std::isdigit is undefined for characters beyond unsigned char.
     };
 
     auto is_incomplete = [this](let const& x)
@@ -278,7 +278,27 @@ namespace meevax::inline kernel
       }
     };
 
-    auto take_quoted = [this](character quotation_mark)
+    auto to_character = [](std::string const& digits) // <hex scalar value>
+    {
+      if (not digits.empty() and digits.find_first_not_of('0') == std::string::npos)
+      {
+        return character(0);
+      }
+      else if (auto const significant = digits.find_first_not_of('0');
+               significant != std::string::npos and
+               digits.find_first_not_of("0123456789ABCDEFabcdef") == std::string::npos and
+               digits.size() - significant <= 6)
+      {
+        if (auto const c = character(lexical_cast<character::int_type>(std::hex, digits)); c <= 0x10FFFF and not (0xD800 <= c and c <= 0xDFFF))
+        {
+          return c;
+        }
+      }
+
+      throw read_error(make<string>("not a hex scalar value"), make<string>(digits));
+    };
+
+    auto take_quoted = [&](character quotation_mark)
     {
       auto s = string();
 
@@ -300,7 +320,7 @@ namespace meevax::inline kernel
           case 'r': s.characters.emplace_back('\r'); break;
           case 't': s.characters.emplace_back('\t'); break;
           case 'v': s.characters.emplace_back('\v'); break;
-          case 'x': s.characters.emplace_back(lexical_cast<character::int_type>(std::hex, take_character_until([](auto c) { return c == ';'; }))); break;
+          case 'x': s.characters.push_back(to_character(take_character_until([](auto c) { return c == ';'; }))); break;
 
           case '\n':
           case '\r':
@@ -545,13 +565,17 @@ namespace meevax::inline kernel
           return make<vector>(read_nested(c2) | as_proper_list);
 
         case '\\':
-          if (auto c3 = take_character(); is_special_character(peek_character())) // #\<character>
+          if (auto c3 = take_character(); c3.is_eof())
+          {
+            throw read_error(make<string>("an end of file is encountered after the beginning of an object's external representation, but the external representation is incomplete and therefore not parsable"), unit);
+          }
+          else if (is_special_character(peek_character())) // #\<character>
           {
             return make<character>(c3);
           }
           else if (c3 == 'x') // #\x<hex scalar value>
           {
-            return make<character>(lexical_cast<character::int_type>(std::hex, take_token(character('0'))));
+            return make<character>(to_character(take_token(character('0'))));
           }
           else // #\<character name>
           {
-- 
2.43.0


From e6c73dec217f8345da8f4aee547fb384af582e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 56/92] fix: A line continuation in a string takes one line
 ending and the spaces around it

The whitespace between the backslash and the line ending was kept, and
several empty lines after the backslash were swallowed at once.
---
 src/kernel/textual_input_port.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 332e5eb..61f84dd 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -322,9 +322,37 @@ namespace meevax::inline kernel
           case 'v': s.characters.emplace_back('\v'); break;
           case 'x': s.characters.push_back(to_character(take_character_until([](auto c) { return c == ';'; }))); break;
 
+          case '\t':
           case '\n':
           case '\r':
-            take_character_while([](auto c) { return std::isspace(c); });
+          case ' ': // \<intraline whitespace>*<line ending><intraline whitespace>*
+            {
+              auto is_intraline_whitespace = [](auto c)
+              {
+                return c == ' ' or c == '\t';
+              };
+
+              auto const whitespace = is_intraline_whitespace(c) ? take_character_while(is_intraline_whitespace, c) : "";
+
+              if (auto const c1 = whitespace.empty() ? c : peek_character(); c1 == '\n' or c1 == '\r')
+              {
+                if (not whitespace.empty())
+                {
+                  take_character();
+                }
+
+                if (c1 == '\r' and peek_character() == '\n')
+                {
+                  take_character();
+                }
+
+                take_character_while(is_intraline_whitespace);
+              }
+              else for (auto const c2 : whitespace)
+              {
+                s.characters.emplace_back(c2);
+              }
+            }
             break;
 
           default:
-- 
2.43.0


From cf9bc5ed8c1d58f076e0add3e657275bd9918458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 57/92] fix: An exactness prefix after a radix prefix was read
 as digits

#x#e10 was read as the hexadecimal number e10, and #x#i10 was an error.
---
 src/kernel/textual_input_port.cpp | 55 +++++++++++++------------------
 1 file changed, 23 insertions(+), 32 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 61f84dd..b7a5a8f 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -385,6 +385,25 @@ namespace meevax::inline kernel
       return token.utf8();
     };
 
+    auto read_number = [&](auto radix) // [#<exactness>] <ureal or complex>
+    {
+      if (auto c = take_character(); c != '#')
+      {
+        return make_number(take_token(c), radix);
+      }
+      else switch (c = take_character())
+      {
+      case 'e':
+        return number::exact(make_number(take_token(take_character()), radix));
+
+      case 'i':
+        return number::inexact(make_number(take_token(take_character()), radix));
+
+      default:
+        throw read_error(make<string>("unknown discriminator"), make<character>(c));
+      }
+    };
+
     while (get_ready())
     {
       switch (auto const c1 = c0 ? c0 : take_character())
@@ -486,24 +505,10 @@ namespace meevax::inline kernel
           }
 
         case 'b':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read_nested()), 2);
-
-          default:
-            return make_number(take_token(c3), 2);
-          }
+          return read_number(2);
 
         case 'd':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read_nested()), 10);
-
-          default:
-            return make_number(take_token(c3), 10);
-          }
+          return read_number(10);
 
         case 'e':
           return number::exact(read_nested()); // NOTE: Same as #,(exact (read))
@@ -526,14 +531,7 @@ namespace meevax::inline kernel
           return number::inexact(read_nested()); // NOTE: Same as #,(inexact (read))
 
         case 'o':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read_nested()), 8);
-
-          default:
-            return make_number(take_token(c3), 8);
-          }
+          return read_number(8);
 
         case 's':
           switch (auto n = take_character_while(is_digit); std::stoi(n))
@@ -580,14 +578,7 @@ namespace meevax::inline kernel
           }
 
         case 'x':
-          switch (auto c3 = take_character())
-          {
-          case '#':
-            return make_number(lexical_cast(read_nested()), 16);
-
-          default:
-            return make_number(take_token(c3), 16);
-          }
+          return read_number(16);
 
         case '(':
           return make<vector>(read_nested(c2) | as_proper_list);
-- 
2.43.0


From 389778073d9056d91f715e545dda1a0499ec9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 58/92] fix: Read #T, #X1A and so on

Case is not significant in the syntax of data but for identifiers, characters
and escapes (R7RS 7.1.1), but the letter after # had to be a small one.
---
 src/kernel/textual_input_port.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index b7a5a8f..4c3e7f8 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -385,13 +385,18 @@ namespace meevax::inline kernel
       return token.utf8();
     };
 
+    auto insensitive = [](character c) // Case is not significant in #T, #X1A and so on.
+    {
+      return 'A' <= c and c <= 'Z' ? character(c + ('a' - 'A')) : c;
+    };
+
     auto read_number = [&](auto radix) // [#<exactness>] <ureal or complex>
     {
       if (auto c = take_character(); c != '#')
       {
         return make_number(take_token(c), radix);
       }
-      else switch (c = take_character())
+      else switch (c = insensitive(take_character()))
       {
       case 'e':
         return number::exact(make_number(take_token(take_character()), radix));
@@ -423,7 +428,7 @@ namespace meevax::inline kernel
         return make<string>(take_quoted(c1));
 
       case '#':  // 0x23
-        switch (auto const c2 = take_character())
+        switch (auto const c2 = insensitive(take_character()))
         {
         case '!': // SRFI 22
           if (auto token = take_token(c2); token == "!fold-case")
-- 
2.43.0


From d03afa9fe737c0cfe40e3544795b41397e053e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 59/92] fix: A comment at the very end of the input is followed
 by end of file

read of it raised an error, so a file had to end with a newline after a last
line that is a comment.
---
 src/kernel/textual_input_port.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/textual_input_port.cpp b/src/kernel/textual_input_port.cpp
index 4c3e7f8..fd21f8b 100644
--- a/src/kernel/textual_input_port.cpp
+++ b/src/kernel/textual_input_port.cpp
@@ -767,6 +767,11 @@ namespace meevax::inline kernel
       }
     }
 
+    if (at_end_of_file()) // after a comment.
+    {
+      return eof_object;
+    }
+
     throw read_error(make<string>("underlying input stream went into a not good state"), unit);
   }
 
-- 
2.43.0


From e924f482c6886c009ae61752614c4d735f93ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 60/92] fix: display shows strings, characters and symbols
 inside other data as they are

display of a list or vector wrote it as write does, and display of a symbol
such as |a b| put out its written form.
---
 include/meevax/kernel/textual_output_port.hpp |  4 ++++
 library/r4rs.ss                               |  4 +++-
 library/r7rs.ss                               |  4 +++-
 src/kernel/boot.cpp                           |  2 +-
 src/kernel/character.cpp                      |  6 ++++++
 src/kernel/string.cpp                         |  6 ++++++
 src/kernel/symbol.cpp                         |  7 ++++++-
 src/kernel/textual_output_port.cpp            | 18 ++++++++++++++++++
 8 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/include/meevax/kernel/textual_output_port.hpp b/include/meevax/kernel/textual_output_port.hpp
index 052d02d..04fe984 100644
--- a/include/meevax/kernel/textual_output_port.hpp
+++ b/include/meevax/kernel/textual_output_port.hpp
@@ -25,6 +25,8 @@ namespace meevax::inline kernel
 {
   struct textual_output_port : public virtual textual_port, public virtual output_port
   {
+    auto display(object const&) -> void;
+
     auto flush() -> void override;
 
     auto put(character const&) -> void;
@@ -37,6 +39,8 @@ namespace meevax::inline kernel
 
     explicit virtual operator std::ostream &() = 0;
   };
+
+  auto is_displaying(std::ostream &) -> bool; // Are strings, characters and symbols output as they are?
 } // namespace meevax::kernel
 
 #endif // INCLUDED_MEEVAX_KERNEL_TEXTUAL_OUTPUT_PORT_HPP
diff --git a/library/r4rs.ss b/library/r4rs.ss
index f607d3e..916180b 100644
--- a/library/r4rs.ss
+++ b/library/r4rs.ss
@@ -374,7 +374,9 @@
                   (%put-string x (if (pair? xs) ; NOTE: The procedure write-string is not defined in R4RS.
                                      (car xs)
                                      (current-output-port))))
-                 (else (apply write x xs))))
+                 (else (%write x (if (pair? xs)
+                                     (car xs)
+                                     (current-output-port)) #t))))
 
          (define (newline . port)
            (apply write-char #\newline port))
diff --git a/library/r7rs.ss b/library/r7rs.ss
index a9c2c45..164bf04 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -566,4 +566,6 @@
                   (apply write-char x xs))
                  ((string? x)
                   (apply write-string x xs))
-                 (else (apply write x xs))))))
+                 (else (%write x (if (pair? xs)
+                                     (car xs)
+                                     (current-output-port)) #t))))))
diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 90e6996..08ea751 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -444,7 +444,7 @@ namespace meevax::inline kernel
       { "put-string",                    [](let const& xs) { cadr(xs).as<textual_output_port>().put(car(xs).as<string>()); return unspecified; } },
       { "put-u8",                        [](let const& xs) { cadr(xs).as<binary_output_port>().put(exact_integer_cast<std::uint8_t>(car(xs))); return unspecified; } },
       { "put-u8vector",                  [](let const& xs) { cadr(xs).as<binary_output_port>().put(car(xs).as<u8vector>()); return unspecified; } },
-      { "write",                         [](let const& xs) { cadr(xs).as<textual_output_port>().write(car(xs)); return unspecified; } },
+      { "write",                         [](let const& xs) { auto & port = cadr(xs).as<textual_output_port>(); cddr(xs).is<pair>() and caddr(xs) != f ? port.display(car(xs)) : port.write(car(xs)); return unspecified; } },
       { "write-simple",                  [](let const& xs) { cadr(xs).as<textual_output_port>().write_simple(car(xs)); return unspecified; } },
     };
 
diff --git a/src/kernel/character.cpp b/src/kernel/character.cpp
index e1c9b56..64193e9 100644
--- a/src/kernel/character.cpp
+++ b/src/kernel/character.cpp
@@ -19,6 +19,7 @@
 #include <meevax/kernel/eof.hpp>
 #include <meevax/kernel/error.hpp>
 #include <meevax/kernel/number.hpp>
+#include <meevax/kernel/textual_output_port.hpp>
 
 namespace meevax::inline kernel
 {
@@ -60,6 +61,11 @@ namespace meevax::inline kernel
 
   auto operator <<(std::ostream & os, character const& datum) -> std::ostream &
   {
+    if (is_displaying(os))
+    {
+      return os << cyan(datum.utf8());
+    }
+
     os << cyan("#\\");
 
     switch (datum.codepoint)
diff --git a/src/kernel/string.cpp b/src/kernel/string.cpp
index 8b812a7..8629f7f 100644
--- a/src/kernel/string.cpp
+++ b/src/kernel/string.cpp
@@ -19,6 +19,7 @@
 #include <meevax/kernel/list.hpp>
 #include <meevax/kernel/proper_list.hpp>
 #include <meevax/kernel/string.hpp>
+#include <meevax/kernel/textual_output_port.hpp>
 
 namespace meevax::inline kernel
 {
@@ -54,6 +55,11 @@ namespace meevax::inline kernel
 
   auto operator <<(std::ostream & os, string const& datum) -> std::ostream &
   {
+    if (is_displaying(os))
+    {
+      return os << cyan(datum.utf8());
+    }
+
     auto put = [&](character const& c) -> decltype(auto)
     {
       if (character::is_ascii(c.codepoint) and std::isprint(c.codepoint))
diff --git a/src/kernel/symbol.cpp b/src/kernel/symbol.cpp
index edfd965..7c25ef1 100644
--- a/src/kernel/symbol.cpp
+++ b/src/kernel/symbol.cpp
@@ -20,6 +20,7 @@
 #include <meevax/kernel/string.hpp>
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/textual_input_port.hpp>
+#include <meevax/kernel/textual_output_port.hpp>
 
 namespace meevax::inline kernel
 {
@@ -30,7 +31,11 @@ namespace meevax::inline kernel
 
   auto operator <<(std::ostream & os, symbol const& datum) -> std::ostream &
   {
-    if (datum.name.empty())
+    if (is_displaying(os))
+    {
+      return os << datum.name;
+    }
+    else if (datum.name.empty())
     {
       return os << "||";
     }
diff --git a/src/kernel/textual_output_port.cpp b/src/kernel/textual_output_port.cpp
index 2b1c0ff..0008e74 100644
--- a/src/kernel/textual_output_port.cpp
+++ b/src/kernel/textual_output_port.cpp
@@ -19,6 +19,24 @@
 
 namespace meevax::inline kernel
 {
+  auto static const index = std::ios_base::xalloc();
+
+  auto is_displaying(std::ostream & os) -> bool
+  {
+    return os.iword(index);
+  }
+
+  auto textual_output_port::display(object const& x) -> void
+  {
+    auto & os = static_cast<std::ostream &>(*this);
+
+    os.iword(index) = true;
+
+    os << x;
+
+    os.iword(index) = false;
+  }
+
   auto textual_output_port::flush() -> void
   {
     static_cast<std::ostream &>(*this) << std::flush;
-- 
2.43.0


From ee9505d3976a74ee709cf7f350a4d3b3cef517bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 61/92] fix: Write symbols whose names look like numbers or a
 dot in the quoted form

(write (string->symbol "1")) was 1, which reads as a number.
---
 src/kernel/symbol.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/kernel/symbol.cpp b/src/kernel/symbol.cpp
index 7c25ef1..3d617f7 100644
--- a/src/kernel/symbol.cpp
+++ b/src/kernel/symbol.cpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <meevax/kernel/collector.hpp>
 #include <meevax/kernel/error.hpp>
+#include <meevax/kernel/number.hpp>
 #include <meevax/kernel/string.hpp>
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/textual_input_port.hpp>
@@ -29,6 +30,35 @@ namespace meevax::inline kernel
     return a.name + b.name;
   }
 
+  auto is_not_identifier(std::string const& token) -> bool // Would the reader take the token for a number or the dot of a pair?
+  {
+    switch (token[0])
+    {
+    case '.':
+      if (token.size() == 1)
+      {
+        return true;
+      }
+
+      [[fallthrough]];
+
+    case '+': case '-':
+    case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9':
+      try
+      {
+        make_number(token);
+        return true;
+      }
+      catch (std::invalid_argument const&)
+      {
+        return false;
+      }
+
+    default:
+      return false;
+    }
+  }
+
   auto operator <<(std::ostream & os, symbol const& datum) -> std::ostream &
   {
     if (is_displaying(os))
@@ -39,7 +69,7 @@ namespace meevax::inline kernel
     {
       return os << "||";
     }
-    else if (std::find_if(datum.name.begin(), datum.name.end(), is_special_character) != datum.name.end())
+    else if (std::find_if(datum.name.begin(), datum.name.end(), is_special_character) != datum.name.end() or is_not_identifier(datum.name))
     {
       return os << cyan("#") << string(datum.name);
     }
-- 
2.43.0


From 0c9fc66c44899b61fd3d481ab742438b3446c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 62/92] fix: A numeric vector wrapped numbers it cannot store

#u8(256) was read as #u8(0), (u64vector -1) held its magnitude 1, and the
conversion of a flonum out of range is undefined behaviour.
---
 include/meevax/kernel/homogeneous_vector.hpp | 37 +++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 67f5306..a61cb3d 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -17,6 +17,9 @@
 #ifndef INCLUDED_MEEVAX_KERNEL_HOMOGENEOUS_VECTOR_HPP
 #define INCLUDED_MEEVAX_KERNEL_HOMOGENEOUS_VECTOR_HPP
 
+#include <cmath>
+#include <limits>
+#include <utility>
 #include <valarray>
 
 #include <meevax/kernel/error.hpp>
@@ -54,6 +57,27 @@ namespace meevax::inline kernel
       return tag;
     }
 
+    template <typename U>
+    static auto is_representable(U const& value) -> bool
+    {
+      if constexpr (std::is_floating_point_v<T>)
+      {
+        return true;
+      }
+      else if constexpr (std::is_floating_point_v<U>)
+      {
+        return static_cast<U>(std::numeric_limits<T>::min()) <= std::trunc(value) and value < std::ldexp(U(1), std::numeric_limits<T>::digits);
+      }
+      else if constexpr (std::is_integral_v<U>)
+      {
+        return std::in_range<T>(value);
+      }
+      else
+      {
+        return mpz_cmp(large_integer(static_cast<T>(value)).value, value.value) == 0;
+      }
+    }
+
     template <auto I = 0, typename Tuple = std::tuple<small_integer, large_integer, float, double>>
     static auto input_cast(object const& x) -> T
     {
@@ -61,7 +85,18 @@ namespace meevax::inline kernel
       {
         using type_i = std::tuple_element_t<I, Tuple>;
 
-        return x.is<type_i>() ? static_cast<T>(x.as<type_i>()) : input_cast<I + 1>(x);
+        if (not x.is<type_i>())
+        {
+          return input_cast<I + 1>(x);
+        }
+        else if (auto const& value = x.as<type_i>(); is_representable(value))
+        {
+          return static_cast<T>(value);
+        }
+        else
+        {
+          throw error(make<string>(tag() + "vector was given a number it cannot store"), list(x));
+        }
       }
       else
       {
-- 
2.43.0


From 814380fbb9396d8a01fc9111f1d06ee5b209ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 63/92] fix: Chained promises share their value

When a promise is forced through delay-force, the promise it is chained to has to share its content. promise-update! overwrote the type tag of that promise instead, so that it was no longer a promise, and evaluated its expression again when forced.
---
 library/srfi-45.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/srfi-45.ss b/library/srfi-45.ss
index 5a550fe..3666edb 100644
--- a/library/srfi-45.ss
+++ b/library/srfi-45.ss
@@ -25,7 +25,7 @@
          (define (promise-update! new old)
            (set-car! (cdr old) (promise-done? new))
            (set-cdr! (cdr old) (promise-value new))
-           (set-car! new (cdr old)))
+           (set-cdr! new (cdr old)))
 
          (define (force promise)
            (if (promise-done? promise)
-- 
2.43.0


From 087a7179bb34804a865cc63b1d3299e836f50691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 64/92] fix: Pattern variables in an escaped template of
 syntax-rules

(<ellipsis> <template>) is the template with the ellipses in it taken literally (R7RS 4.3.2); it was quoted as a whole, with the pattern variables in it.
---
 library/srfi-149.ss | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index aae4b25..482d54c 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -229,7 +229,7 @@
                    ((vector? x) (lp (vector->list x) free))
                    (else free))))
              (define (expand-template tmpl vars)
-               (let lp ((t tmpl) (dim 0))
+               (let lp ((t tmpl) (dim 0) (inner #f)) ; inner: in a template of the form (... <template>)
                  (cond
                    ((identifier? t)
                     (cond
@@ -242,12 +242,13 @@
                         (list _rename (list _quote t)))))
                    ((pair? t)
                     (cond
-                      ((ellipsis-escape? t)
-                       (list _quote
-                             (if (pair? (cdr t))
-                                 (if (pair? (cddr t)) (cddr t) (cadr t))
-                                 (cdr t))))
-                      ((ellipsis? t)
+                      ((and (not inner) (ellipsis-escape? t))
+                       (lp (if (pair? (cdr t))
+                               (if (pair? (cddr t)) (cddr t) (cadr t))
+                               (cdr t))
+                           dim
+                           #t))
+                      ((and (not inner) (ellipsis? t))
                        (let* ((depth (ellipsis-depth t))
                               (ell-dim (+ dim depth))
                               (ell-vars (free-vars (car t) vars ell-dim)))
@@ -256,9 +257,9 @@
                             (error "too many ...'s"))
                            ((and (null? (cdr (cdr t))) (identifier? (car t)))
                             ;; shortcut for (var ...)
-                            (lp (car t) ell-dim))
+                            (lp (car t) ell-dim inner))
                            (else
-                             (let* ((once (lp (car t) ell-dim))
+                             (let* ((once (lp (car t) ell-dim inner))
                                     (nest (if (and (null? (cdr ell-vars))
                                                    (identifier? once)
                                                    (eq? once (car vars)))
@@ -272,9 +273,9 @@
                                             ((= d 1) many))))
                                (if (null? (ellipsis-tail t))
                                    many ;; shortcut
-                                   (list _append many (lp (ellipsis-tail t) dim))))))))
-                      (else (list _cons3 (lp (car t) dim) (lp (cdr t) dim) (list _quote t)))))
-                   ((vector? t) (list _list->vector (lp (vector->list t) dim)))
+                                   (list _append many (lp (ellipsis-tail t) dim inner))))))))
+                      (else (list _cons3 (lp (car t) dim inner) (lp (cdr t) dim inner) (list _quote t)))))
+                   ((vector? t) (list _list->vector (lp (vector->list t) dim inner)))
                    ((null? t) (list _quote '()))
                    (else t))))
              (list
-- 
2.43.0


From 562a9633297aa680058d57ab80ea36487636f058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 65/92] fix: quote strips the renaming of the symbols in its
 datum

A template such as '(f a) evaluated to a list with a syntactic closure in the place of the symbol f, since only a datum that is itself renamed was stripped. The same goes for a vector literal in a template.
---
 include/meevax/kernel/syntactic_closure.hpp |  2 +
 src/kernel/generator.cpp                    |  3 +-
 src/kernel/syntactic_closure.cpp            | 85 +++++++++++++++++++++
 src/kernel/syntactic_environment.cpp        |  2 +-
 4 files changed, 89 insertions(+), 3 deletions(-)

diff --git a/include/meevax/kernel/syntactic_closure.hpp b/include/meevax/kernel/syntactic_closure.hpp
index e8ecbac..fb4068d 100644
--- a/include/meevax/kernel/syntactic_closure.hpp
+++ b/include/meevax/kernel/syntactic_closure.hpp
@@ -58,6 +58,8 @@ namespace meevax::inline kernel
   auto operator ==(syntactic_closure const& x, syntactic_closure const& y) -> bool;
 
   auto operator <<(std::ostream & os, syntactic_closure const& datum) -> std::ostream &;
+
+  auto strip_syntactic_closures(object const& form) -> object;
 } // namespace meevax::kernel
 
 #endif // INCLUDED_MEEVAX_KERNEL_SYNTACTIC_CLOSURE_HPP
diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 54869fb..23b9ccb 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -31,8 +31,7 @@ namespace meevax::inline kernel
 
   GENERATOR(generator::quote)
   {
-    return cons(make<instruction>(instruction::secd_load_constant), car(form).is<syntactic_closure>() ? car(form).as<syntactic_closure>().form
-                                                                                                      : car(form),
+    return cons(make<instruction>(instruction::secd_load_constant), strip_syntactic_closures(car(form)),
                 continuation);
   }
 
diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index 62c319c..05a3721 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -21,6 +21,9 @@
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/syntactic_closure.hpp>
 #include <meevax/kernel/syntactic_environment.hpp>
+#include <meevax/kernel/vector.hpp>
+#include <unordered_map>
+#include <unordered_set>
 
 namespace meevax::inline kernel
 {
@@ -161,6 +164,88 @@ namespace meevax::inline kernel
                y.syntactic_environment.as<struct syntactic_environment>().identify(y.form, y.syntactic_environment.as<struct syntactic_environment>().first));
   }
 
+  static auto contains_syntactic_closure(object const& form, std::unordered_set<pair const*> & visited) -> bool
+  {
+    for (let x = form; true; x = cdr(x))
+    {
+      if (x.is<syntactic_closure>())
+      {
+        return true;
+      }
+      else if (x.is<vector>())
+      {
+        return visited.insert(x.get()).second and std::ranges::any_of(x.as<vector>().objects, [&](let const& element)
+                                                                      {
+                                                                        return contains_syntactic_closure(element, visited);
+                                                                      });
+      }
+      else if (not x.is<pair>() or not visited.insert(x.get()).second)
+      {
+        return false;
+      }
+      else if (contains_syntactic_closure(car(x), visited))
+      {
+        return true;
+      }
+    }
+  }
+
+  static auto strip_syntactic_closures(object const& form, std::unordered_map<pair const*, object> & copies) -> object
+  {
+    if (form.is<syntactic_closure>())
+    {
+      return strip_syntactic_closures(form.as<syntactic_closure>().form, copies);
+    }
+    else if (not form.is<pair>() and not form.is<vector>())
+    {
+      return form;
+    }
+    else if (auto iter = copies.find(form.get()); iter != copies.end())
+    {
+      return iter->second;
+    }
+    else if (form.is<pair>())
+    {
+      let const result = cons(unit, unit);
+
+      for (let source = form, target = result; true; source = cdr(source), target = cdr(target))
+      {
+        copies.emplace(source.get(), target);
+
+        car(target) = strip_syntactic_closures(car(source), copies);
+
+        if (not cdr(source).is<pair>() or copies.find(cdr(source).get()) != copies.end())
+        {
+          cdr(target) = strip_syntactic_closures(cdr(source), copies);
+          return result;
+        }
+
+        cdr(target) = cons(unit, unit);
+      }
+    }
+    else
+    {
+      let const result = make<vector>();
+
+      copies.emplace(form.get(), result);
+
+      for (let const& element : form.as<vector>().objects)
+      {
+        result.as<vector>().objects.push_back(strip_syntactic_closures(element, copies));
+      }
+
+      return result;
+    }
+  }
+
+  auto strip_syntactic_closures(object const& form) -> object
+  {
+    std::unordered_set<pair const*> visited;
+    std::unordered_map<pair const*, object> copies;
+
+    return contains_syntactic_closure(form, visited) ? strip_syntactic_closures(form, copies) : form;
+  }
+
   auto operator <<(std::ostream & os, syntactic_closure const& datum) -> std::ostream &
   {
     if (datum.form.template is_also<identifier>() and datum.de_bruijn_level != 0)
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index a3701d0..91de5ef 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -135,7 +135,7 @@ namespace meevax::inline kernel
       }
       else // is <self-evaluating>
       {
-        return cons(make<instruction>(instruction::secd_load_constant), form, continuation);
+        return cons(make<instruction>(instruction::secd_load_constant), strip_syntactic_closures(form), continuation);
       }
     }
     else if (car(form).is_also<identifier>())
-- 
2.43.0


From c182942f794076c7bd721881ad9e834e7aaa4f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 66/92] fix: Literals of syntax-rules that are local variables

free-identifier=? was always false for local variables, so that a literal with a local binding where the macro is defined turned into a pattern variable.
---
 include/meevax/kernel/syntactic_closure.hpp |  2 +
 src/kernel/syntactic_closure.cpp            | 55 +++++++++++++++++++--
 2 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/include/meevax/kernel/syntactic_closure.hpp b/include/meevax/kernel/syntactic_closure.hpp
index fb4068d..50716fd 100644
--- a/include/meevax/kernel/syntactic_closure.hpp
+++ b/include/meevax/kernel/syntactic_closure.hpp
@@ -53,6 +53,8 @@ namespace meevax::inline kernel
     auto expand(let const& bound_variables, alpha & outer) -> object;
 
     auto identify(let const& bound_variables) -> object;
+
+    auto locate() const -> std::pair<object, std::int32_t>;
   };
 
   auto operator ==(syntactic_closure const& x, syntactic_closure const& y) -> bool;
diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index 05a3721..893effa 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -146,6 +146,47 @@ namespace meevax::inline kernel
     }
   }
 
+  /*
+     The binding of the identifier that is closed. That of a local variable
+     comes with the number of the frames from the outermost one to the one that
+     binds the variable, which tells it whatever the depth it is seen from.
+  */
+  auto syntactic_closure::locate() const -> std::pair<object, std::int32_t>
+  {
+    auto & environment = syntactic_environment.as<struct syntactic_environment>();
+
+    let identity = environment.identify(form, environment.first);
+
+    auto const is_local = [](let const& x)
+    {
+      return x.is<relative>() or x.is<variadic>();
+    };
+
+    for (auto i = 0; let const& formals : environment.first | as_proper_list)
+    {
+      if (is_local(identity) and car(identity).as<small_integer>() <= i)
+      {
+        break;
+      }
+
+      auto j = 0;
+
+      for (let xs = formals; xs.is<pair>() or xs.is<syntactic_closure>(); xs = xs.is<pair>() ? cdr(xs) : unit, ++j)
+      {
+        if (let const& formal = xs.is<pair>() ? car(xs) : xs; formal.is<syntactic_closure>() and
+                                                              0 < formal.as<syntactic_closure>().de_bruijn_level and
+                                                              eq(formal.as<syntactic_closure>().form, form))
+        {
+          return { make<relative>(make<small_integer>(i), make<small_integer>(j)), length(environment.first) - i }; // The variable has been renamed by α-conversion.
+        }
+      }
+
+      ++i;
+    }
+
+    return { identity, is_local(identity) ? length(environment.first) - car(identity).as<small_integer>() : 0 };
+  }
+
   auto operator ==(syntactic_closure const& x,
                    syntactic_closure const& y) -> bool
   {
@@ -158,10 +199,16 @@ namespace meevax::inline kernel
        cond clause. A macro definition for syntax-rules would use
        free-identifier=? to look for literals in the input.
     */
-    return x.form.template is_also<identifier>() and
-           y.form.template is_also<identifier>() and
-           eqv(x.syntactic_environment.as<struct syntactic_environment>().identify(x.form, x.syntactic_environment.as<struct syntactic_environment>().first),
-               y.syntactic_environment.as<struct syntactic_environment>().identify(y.form, y.syntactic_environment.as<struct syntactic_environment>().first));
+    if (not x.form.template is_also<identifier>() or not y.form.template is_also<identifier>())
+    {
+      return false;
+    }
+
+    auto const [a, a_frame] = x.locate();
+    auto const [b, b_frame] = y.locate();
+
+    return a_frame == b_frame and eqv(a_frame ? cdr(a) : a,
+                                      b_frame ? cdr(b) : b);
   }
 
   static auto contains_syntactic_closure(object const& form, std::unordered_set<pair const*> & visited) -> bool
-- 
2.43.0


From 46d00adc22d8e9150a4bb34813d1bd9d4a9ba776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 67/92] fix: identifier->symbol took the cddr of a syntactic
 closure

A syntactic closure is no pair: syntax-rules crashed on a pattern with renamed variables below an ellipsis, as in a macro defined by a macro.
---
 src/kernel/boot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index 08ea751..aeef915 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -391,7 +391,7 @@ namespace meevax::inline kernel
       { "symbol?",                       [](let const& xs) { return make<bool>(car(xs).is<symbol>()); } },
       { "symbol->string",                [](let const& xs) { return make<string>(car(xs).as<symbol>()); } },
       { "string->symbol",                [](let const& xs) { return make_symbol(car(xs).as<string>().utf8()); } },
-      { "identifier->symbol",            [](let const& xs) { if (let const& x = car(xs); x.is<syntactic_closure>()) { return cddr(x); } else { return x; } } },
+      { "identifier->symbol",            [](let const& xs) { return strip_syntactic_closures(car(xs)); } },
 
       { "identifier?",                   [](let const& xs) { return make<bool>(car(xs).is_also<identifier>()); } },
       { "transformer?",                  [](let const& xs) { return make<bool>(car(xs).is_also<transformer>()); } },
-- 
2.43.0


From 6816f3fdd1e42debbc1b6eedd908f97c3c174e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 68/92] fix: A literal or an underscore followed by an ellipsis
 in a pattern of syntax-rules

A literal followed by an ellipsis matched anything, and an underscore there was bound like a pattern variable.
---
 library/srfi-149.ss | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/srfi-149.ss b/library/srfi-149.ss
index 482d54c..aa12723 100644
--- a/library/srfi-149.ss
+++ b/library/srfi-149.ss
@@ -144,7 +144,7 @@
                                                                    (,_cons3 (,_car ,_ls)
                                                                             ,_res
                                                                             ,_ls))))))))))
-                          ((identifier? (car p))
+                          ((and (identifier? (car p)) (not (any (lambda (l) (compare (car p) l)) (cons _underscore lits))))
                            (list _and (list _list? v)
                                  (list _let (list (list (car p) v))
                                        (k (cons (cons (car p) (+ 1 dim)) vars)))))
@@ -209,7 +209,7 @@
              (define (all-vars x dim)
                (let lp ((x x) (dim dim) (vars '()))
                  (cond ((identifier? x)
-                        (if (any (lambda (lit) (compare x lit)) lits)
+                        (if (any (lambda (lit) (compare x lit)) (cons _underscore lits))
                             vars
                             (cons (cons x dim) vars)))
                        ((ellipsis? x) (lp (car x) (+ dim 1) (lp (cddr x) dim vars)))
-- 
2.43.0


From d7df55a5aa062a015b80778b1e431f95351221f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 69/92] fix: letrec that shadows a local variable or a keyword

---
 src/kernel/expander.cpp | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index f043d3c..0de89d0 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -189,22 +189,31 @@ namespace meevax::inline kernel
 
   EXPANDER(expander::letrec)
   {
-    let const extended_bound_variables = cons(alpha.convert_formals(map(car, cadr(form)), bound_variables),
-                                              bound_variables);
+    auto scoped_alpha = alpha;
+
+    let const formals = scoped_alpha.convert_formals(map(car, cadr(form)), bound_variables);
+
+    let const extended_bound_variables = cons(formals, bound_variables);
+
+    let bindings = unit;
+
+    for (let rest = formals; let const& binding : cadr(form) | as_proper_list)
+    {
+      bindings = cons(list(car(rest),
+                           expander.expand(cadr(binding),
+                                           extended_bound_variables,
+                                           scoped_alpha)),
+                      bindings);
+
+      rest = cdr(rest);
+    }
 
     return cons(car(form),
-                map([&](let const& binding)
-                    {
-                      return list(car(binding),
-                                  expander.expand(cadr(binding),
-                                                  extended_bound_variables,
-                                                  alpha));
-                    },
-                    cadr(form)),
+                reverse(bindings),
                 body(expander,
                      cddr(form),
                      extended_bound_variables,
-                     alpha));
+                     scoped_alpha));
   }
 
   EXPANDER(expander::sequence)
-- 
2.43.0


From 364f6559286d54890f41add63322650ecff835f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 70/92] fix: A variable renamed by alpha conversion that has
 the name of a macro

---
 src/kernel/syntactic_environment.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 91de5ef..0faeae6 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -88,9 +88,7 @@ namespace meevax::inline kernel
     {
       let const identifier = alpha.convert(car(form));
 
-      if (let const& identity = identifier.is<syntactic_closure>() ? identifier.as<syntactic_closure>().identify(bound_variables)
-                                                                   : identify(car(form), bound_variables);
-          identity.is_also<absolute>())
+      if (let const& identity = identify(identifier, bound_variables); identity.is_also<absolute>())
       {
         if (let const& value = cdr(identity); value.is<transformer>())
         {
-- 
2.43.0


From bec3ecfbf190560e163e563b3fb18e4e2fb8a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 71/92] fix: Internal definitions that shadow keywords of the
 enclosing scope

---
 src/kernel/syntactic_environment.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 0faeae6..cfe8e0c 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -272,7 +272,15 @@ namespace meevax::inline kernel
       }
       else if (car(sequence).is<pair>() and caar(sequence).is_also<identifier>())
       {
-        if (let const& identity = identify(caar(sequence), bound_variables); identity.is_also<absolute>())
+        auto is_bound_in_this_body = [&](let const& identifier)
+        {
+          return std::ranges::any_of(formals | as_proper_list, [&](let const& formal)
+                                     {
+                                       return eq(formal.is<macro>() ? car(formal) : formal, identifier);
+                                     });
+        };
+
+        if (let const& identity = is_bound_in_this_body(caar(sequence)) ? f : identify(alpha.convert(caar(sequence)), bound_variables); identity.is_also<absolute>())
         {
           if (let const& value = cdr(identity); value.is<transformer>())
           {
-- 
2.43.0


From d1d236fdb65a9918e2f754af2bff8cac7b6464f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 72/92] fix: A local keyword that shadows a renamed variable

---
 src/kernel/syntactic_closure.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index 893effa..c66ab51 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -72,6 +72,11 @@ namespace meevax::inline kernel
       {
         return make_syntactic_closure(form, length(bound_variables));
       }
+      else if (form.is<macro>() and car(form).is<symbol>())
+      {
+        dictionary = alist_cons(car(form), car(form), dictionary); // The keyword shadows a variable that has been renamed.
+        return form;
+      }
       else
       {
         return form;
-- 
2.43.0


From 6986b1329948cfb21603a580b5786850bdba8a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 73/92] fix: Free identifiers of a macro refer to the innermost
 binding where it is defined, also if that has been renamed

---
 src/kernel/syntactic_closure.cpp     | 26 ++------------------------
 src/kernel/syntactic_environment.cpp | 12 ++++++++++--
 2 files changed, 12 insertions(+), 26 deletions(-)

diff --git a/src/kernel/syntactic_closure.cpp b/src/kernel/syntactic_closure.cpp
index c66ab51..98eaca9 100644
--- a/src/kernel/syntactic_closure.cpp
+++ b/src/kernel/syntactic_closure.cpp
@@ -98,7 +98,7 @@ namespace meevax::inline kernel
   {
     assert(form.is<symbol>());
 
-    return cdar(dictionary = alist_cons(form, make<syntactic_closure>(enclosure->syntactic_environment, unit, form, level), dictionary));
+    return cdar(dictionary = alist_cons(form, make<syntactic_closure>(enclosure->syntactic_environment, enclosure->free_names, form, level), dictionary));
   }
 
   syntactic_closure::syntactic_closure(let const& syntactic_environment,
@@ -160,35 +160,13 @@ namespace meevax::inline kernel
   {
     auto & environment = syntactic_environment.as<struct syntactic_environment>();
 
-    let identity = environment.identify(form, environment.first);
+    let const identity = environment.identify(form, environment.first);
 
     auto const is_local = [](let const& x)
     {
       return x.is<relative>() or x.is<variadic>();
     };
 
-    for (auto i = 0; let const& formals : environment.first | as_proper_list)
-    {
-      if (is_local(identity) and car(identity).as<small_integer>() <= i)
-      {
-        break;
-      }
-
-      auto j = 0;
-
-      for (let xs = formals; xs.is<pair>() or xs.is<syntactic_closure>(); xs = xs.is<pair>() ? cdr(xs) : unit, ++j)
-      {
-        if (let const& formal = xs.is<pair>() ? car(xs) : xs; formal.is<syntactic_closure>() and
-                                                              0 < formal.as<syntactic_closure>().de_bruijn_level and
-                                                              eq(formal.as<syntactic_closure>().form, form))
-        {
-          return { make<relative>(make<small_integer>(i), make<small_integer>(j)), length(environment.first) - i }; // The variable has been renamed by α-conversion.
-        }
-      }
-
-      ++i;
-    }
-
     return { identity, is_local(identity) ? length(environment.first) - car(identity).as<small_integer>() : 0 };
   }
 
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index cfe8e0c..9342b29 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -152,6 +152,14 @@ namespace meevax::inline kernel
   {
     assert(variable.is_also<identifier>());
 
+    auto is_bound_as = [&](let const& formal) // Note that the variable may have been renamed by α-conversion, unless it is a free name.
+    {
+      return eq(formal, variable) or (formal.is<syntactic_closure>() and
+                                      formal.as<syntactic_closure>().de_bruijn_level > 0 and
+                                      eq(formal.as<syntactic_closure>().form, variable) and
+                                      memq(variable, formal.as<syntactic_closure>().free_names) == f);
+    };
+
     for (auto i = 0; let formals : bound_variables | as_proper_list)
     {
       for (auto j = 0; not formals.is<null>(); formals = cdr(formals))
@@ -162,12 +170,12 @@ namespace meevax::inline kernel
           {
             return car(formals);
           }
-          else if (eq(car(formals), variable))
+          else if (is_bound_as(car(formals)))
           {
             return make<relative>(make<small_integer>(i), make<small_integer>(j));
           }
         }
-        else if (formals.is_also<identifier>() and eq(formals, variable))
+        else if (formals.is_also<identifier>() and is_bound_as(formals))
         {
           return make<variadic>(make<small_integer>(i), make<small_integer>(j));
         }
-- 
2.43.0


From 2293e9628e92bc63733045cfee833077605d87de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:25 +0000
Subject: [PATCH 74/92] fix: The lists of import, include and cond-expand are
 kept alive while they are processed

---
 src/kernel/environment.cpp | 12 +++++++++---
 src/kernel/library.cpp     |  8 ++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/kernel/environment.cpp b/src/kernel/environment.cpp
index 30b5608..c93e40c 100644
--- a/src/kernel/environment.cpp
+++ b/src/kernel/environment.cpp
@@ -47,7 +47,9 @@ namespace meevax::inline kernel
       }
       else if (name == "include")
       {
-        for (let const& command_or_definition : include(cdr(expression)) | as_proper_list)
+        let const commands_or_definitions = include(cdr(expression));
+
+        for (let const& command_or_definition : commands_or_definitions | as_proper_list)
         {
           evaluate(command_or_definition);
         }
@@ -56,7 +58,9 @@ namespace meevax::inline kernel
       }
       else if (name == "include-ci")
       {
-        for (let const& command_or_definition : include<case_insensitive>(cdr(expression)) | as_proper_list)
+        let const commands_or_definitions = include<case_insensitive>(cdr(expression));
+
+        for (let const& command_or_definition : commands_or_definitions | as_proper_list)
         {
           evaluate(command_or_definition);
         }
@@ -169,7 +173,9 @@ namespace meevax::inline kernel
 
   auto environment::import(object const& form) -> void
   {
-    for (let const& x : import_set(form) | as_proper_list)
+    let const identities = import_set(form);
+
+    for (let const& x : identities | as_proper_list)
     {
       assert(x.is<absolute>());
 
diff --git a/src/kernel/library.cpp b/src/kernel/library.cpp
index 6667f9e..2d8bf41 100644
--- a/src/kernel/library.cpp
+++ b/src/kernel/library.cpp
@@ -48,7 +48,9 @@ namespace meevax::inline kernel
       }
       else if (name == "include-library-declarations")
       {
-        for (let const& library_declaration : include(cdr(declaration)) | as_proper_list)
+        let const library_declarations = include(cdr(declaration));
+
+        for (let const& library_declaration : library_declarations | as_proper_list)
         {
           evaluate(library_declaration);
         }
@@ -57,7 +59,9 @@ namespace meevax::inline kernel
       }
       else if (name == "cond-expand")
       {
-        for (let const& library_declaration : conditional_expand(cdr(declaration)) | as_proper_list)
+        let const library_declarations = conditional_expand(cdr(declaration));
+
+        for (let const& library_declaration : library_declarations | as_proper_list)
         {
           evaluate(library_declaration);
         }
-- 
2.43.0


From 8e97afd5d601c839d05b3a0dc6207a7bc7c16849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:56 +0000
Subject: [PATCH 75/92] fix: The elements of vectors and strings and the digits
 of numbers count toward the next collection

---
 include/meevax/kernel/collector.hpp          |  7 +++++++
 include/meevax/kernel/homogeneous_vector.hpp |  5 +++++
 include/meevax/kernel/large_integer.hpp      |  5 +++++
 include/meevax/kernel/ratio.hpp              |  5 +++++
 include/meevax/kernel/string.hpp             |  5 +++++
 include/meevax/kernel/vector.hpp             |  5 +++++
 src/kernel/collector.cpp                     | 10 ++++++++++
 7 files changed, 42 insertions(+)

diff --git a/include/meevax/kernel/collector.hpp b/include/meevax/kernel/collector.hpp
index 66286a4..c243d48 100644
--- a/include/meevax/kernel/collector.hpp
+++ b/include/meevax/kernel/collector.hpp
@@ -26,6 +26,8 @@
 
 namespace meevax::inline kernel
 {
+  auto account(std::size_t) noexcept -> void;
+
   auto clear() noexcept -> void;
 
   auto clear_once() noexcept -> void;
@@ -182,6 +184,11 @@ namespace meevax::inline kernel
       {
         insert(datum);
 
+        if constexpr (requires { datum->payload_size(); })
+        {
+          account(datum->payload_size());
+        }
+
         return datum;
       }
       else [[unlikely]]
diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index a61cb3d..78b2409 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -51,6 +51,11 @@ namespace meevax::inline kernel
       }
     }
 
+    auto payload_size() const noexcept -> std::size_t
+    {
+      return values.size() * sizeof(T);
+    }
+
     static auto tag() -> auto const&
     {
       auto static const tag = (std::is_integral_v<T> ? std::is_signed_v<T> ? "s" : "u" : "f") + std::to_string(sizeof(T) * CHAR_BIT);
diff --git a/include/meevax/kernel/large_integer.hpp b/include/meevax/kernel/large_integer.hpp
index 87d13ba..9beb5e8 100644
--- a/include/meevax/kernel/large_integer.hpp
+++ b/include/meevax/kernel/large_integer.hpp
@@ -64,6 +64,11 @@ namespace meevax::inline kernel
 
     auto operator=(std::string const&) -> large_integer &;
 
+    auto payload_size() const noexcept -> std::size_t
+    {
+      return mpz_size(value) * sizeof(mp_limb_t);
+    }
+
     explicit operator bool() const;
 
     template <typename T, typename = std::enable_if_t<std::is_arithmetic_v<T>>>
diff --git a/include/meevax/kernel/ratio.hpp b/include/meevax/kernel/ratio.hpp
index 823d946..a632bbc 100644
--- a/include/meevax/kernel/ratio.hpp
+++ b/include/meevax/kernel/ratio.hpp
@@ -47,6 +47,11 @@ namespace meevax::inline kernel
 
     auto numerator() const -> large_integer;
 
+    auto payload_size() const noexcept -> std::size_t
+    {
+      return (mpz_size(mpq_numref(value)) + mpz_size(mpq_denref(value))) * sizeof(mp_limb_t);
+    }
+
     template <typename T>
     explicit operator T() const
     {
diff --git a/include/meevax/kernel/string.hpp b/include/meevax/kernel/string.hpp
index 106fc4a..8db4bb0 100644
--- a/include/meevax/kernel/string.hpp
+++ b/include/meevax/kernel/string.hpp
@@ -44,6 +44,11 @@ namespace meevax::inline kernel
       }
     }
 
+    auto payload_size() const noexcept -> std::size_t
+    {
+      return characters.capacity() * sizeof(character);
+    }
+
     auto utf8() const -> std::string;
   };
 
diff --git a/include/meevax/kernel/vector.hpp b/include/meevax/kernel/vector.hpp
index 2ad9c51..6a4b01b 100644
--- a/include/meevax/kernel/vector.hpp
+++ b/include/meevax/kernel/vector.hpp
@@ -34,6 +34,11 @@ namespace meevax::inline kernel
     {
       std::ranges::copy(view, std::back_inserter(objects));
     }
+
+    auto payload_size() const noexcept -> std::size_t
+    {
+      return objects.capacity() * sizeof(object);
+    }
   };
 
   auto operator ==(heterogeneous_vector const&, heterogeneous_vector const&) -> bool;
diff --git a/src/kernel/collector.cpp b/src/kernel/collector.cpp
index 92f8793..454f6d3 100644
--- a/src/kernel/collector.cpp
+++ b/src/kernel/collector.cpp
@@ -110,6 +110,16 @@ namespace meevax::inline kernel
     return datum.write(os);
   }
 
+  auto account(std::size_t n) noexcept -> void
+  {
+    /*
+       The memory that a datum owns apart from itself, such as the elements of
+       a vector, counts toward the next collection. The datum may not be held
+       by anything yet, so do not collect here.
+    */
+    size += n;
+  }
+
   auto clear() noexcept -> void
   {
     for (auto const& datum : data)
-- 
2.43.0


From 7993ce41942d4614b24f83b5cacd52bc01e2c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:36 +0000
Subject: [PATCH 76/92] fix: The elements of a vector are not roots, so that
 cycles through vectors and chains of them are reclaimed

---
 include/meevax/kernel/collector.hpp | 12 +++++++
 include/meevax/kernel/pair.hpp      |  4 +++
 src/kernel/collector.cpp            | 52 +++++++++++++++++++++++++++--
 src/kernel/pair.cpp                 |  5 +++
 4 files changed, 71 insertions(+), 2 deletions(-)

diff --git a/include/meevax/kernel/collector.hpp b/include/meevax/kernel/collector.hpp
index c243d48..0a57cb4 100644
--- a/include/meevax/kernel/collector.hpp
+++ b/include/meevax/kernel/collector.hpp
@@ -99,6 +99,18 @@ namespace meevax::inline kernel
 
     ~binder() override = default;
 
+    auto elements() const noexcept -> std::span<object const> override
+    {
+      if constexpr (requires { std::span<object const>(static_cast<Bound const*>(this)->objects); })
+      {
+        return static_cast<Bound const*>(this)->objects;
+      }
+      else
+      {
+        return {};
+      }
+    }
+
     auto eqv([[maybe_unused]] pair const* other) const noexcept -> bool override
     {
       if constexpr (std::equality_comparable<Bound const&>)
diff --git a/include/meevax/kernel/pair.hpp b/include/meevax/kernel/pair.hpp
index 153bd20..c0ab04c 100644
--- a/include/meevax/kernel/pair.hpp
+++ b/include/meevax/kernel/pair.hpp
@@ -17,6 +17,8 @@
 #ifndef INCLUDED_MEEVAX_KERNEL_PAIR_HPP
 #define INCLUDED_MEEVAX_KERNEL_PAIR_HPP
 
+#include <span>
+
 #include <meevax/kernel/object.hpp>
 
 namespace meevax::inline kernel
@@ -39,6 +41,8 @@ namespace meevax::inline kernel
 
     virtual ~pair() = default;
 
+    auto virtual elements() const noexcept -> std::span<object const>; // The objects that the datum owns outside of itself
+
     auto virtual eqv(pair const*) const -> bool;
 
     auto virtual type() const noexcept -> std::type_info const&;
diff --git a/src/kernel/collector.cpp b/src/kernel/collector.cpp
index 454f6d3..855b589 100644
--- a/src/kernel/collector.cpp
+++ b/src/kernel/collector.cpp
@@ -14,6 +14,8 @@
    limitations under the License.
 */
 
+#include <algorithm>
+
 #include <meevax/kernel/collector.hpp>
 #include <meevax/kernel/object.hpp>
 #include <meevax/memory/pointer_set.hpp>
@@ -138,6 +140,40 @@ namespace meevax::inline kernel
     }
   }
 
+  using extent = std::pair<object const*, object const*>;
+
+  /*
+     The elements of a vector are outside of the interval of the vector's
+     base-address ~ base-address + object-size, yet they are not roots. These
+     are the intervals that hold such elements, in ascending order.
+  */
+  auto static element_extents() -> std::vector<extent>
+  {
+    auto extents = std::vector<extent>();
+
+    for (auto datum : data)
+    {
+      if (auto const elements = datum->elements(); not elements.empty())
+      {
+        extents.emplace_back(elements.data(), elements.data() + elements.size());
+      }
+    }
+
+    std::sort(extents.begin(), extents.end());
+
+    return extents;
+  }
+
+  auto static is_element(object const* x, std::vector<extent> const& extents) -> bool
+  {
+    auto iterator = std::upper_bound(extents.begin(), extents.end(), x, [](auto x, auto const& extent)
+    {
+      return x < extent.first;
+    });
+
+    return iterator != extents.begin() and x < std::prev(iterator)->second;
+  }
+
   auto collect() noexcept -> void
   {
     /*
@@ -152,9 +188,11 @@ namespace meevax::inline kernel
 
     roots.clear();
 
+    auto const extents = element_extents();
+
     for (auto x : objects)
     {
-      if (is_root(x))
+      if (is_root(x) and not is_element(x, extents))
       {
         roots.push_back(x);
       }
@@ -194,6 +232,14 @@ namespace meevax::inline kernel
         std::for_each(objects.lower_bound(reinterpret_cast<object const*>(datum->base)),
                       objects.lower_bound(reinterpret_cast<object const*>(reinterpret_cast<std::uintptr_t>(datum->base) + datum->size)),
                       mark);
+
+        for (auto const& element : datum->elements())
+        {
+          if (element)
+          {
+            mark(std::addressof(element));
+          }
+        }
       }
     }
 
@@ -262,9 +308,11 @@ namespace meevax::inline kernel
     : root_count { 0 }
     , non_root_count { 0 }
   {
+    auto const extents = element_extents();
+
     for (auto const& x : objects)
     {
-      if (is_root(x))
+      if (is_root(x) and not is_element(x, extents))
       {
         ++root_count;
         ++root_count_of[x->type()];
diff --git a/src/kernel/pair.cpp b/src/kernel/pair.cpp
index a552621..c24994e 100644
--- a/src/kernel/pair.cpp
+++ b/src/kernel/pair.cpp
@@ -19,6 +19,11 @@
 
 namespace meevax::inline kernel
 {
+  auto pair::elements() const noexcept -> std::span<object const>
+  {
+    return {};
+  }
+
   auto pair::eqv(pair const* x) const -> bool
   {
     return static_cast<pair const*>(this) == x and static_cast<pair const&>(*this) == *x;
-- 
2.43.0


From 72fc0cb1eb0bf6ee9aa1a2d053d33b1a6ee575e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:27 +0000
Subject: [PATCH 77/92] fix: Procedures on lists of some 10^5 elements
 exhausted the C++ stack

---
 include/meevax/kernel/list.hpp |  12 ++--
 src/kernel/list.cpp            | 119 ++++++++++++++++-----------------
 2 files changed, 63 insertions(+), 68 deletions(-)

diff --git a/include/meevax/kernel/list.hpp b/include/meevax/kernel/list.hpp
index 366532e..deee317 100644
--- a/include/meevax/kernel/list.hpp
+++ b/include/meevax/kernel/list.hpp
@@ -105,14 +105,14 @@ namespace meevax::inline kernel
 
   auto map(auto f, object const& xs, object const& ys = nullptr) -> object
   {
-    if (xs.is<pair>())
-    {
-      return cons(f(car(xs)), map(f, cdr(xs), ys));
-    }
-    else
+    let const head = cons(unit, ys);
+
+    for (let tail = head, rest = xs; rest.is<pair>(); tail = cdr(tail), rest = cdr(rest))
     {
-      return ys;
+      cdr(tail) = cons(f(car(rest)), ys);
     }
+
+    return cdr(head);
   }
 
   auto memq(object const&, object const&) -> object const&;
diff --git a/src/kernel/list.cpp b/src/kernel/list.cpp
index 90f5abd..b34d840 100644
--- a/src/kernel/list.cpp
+++ b/src/kernel/list.cpp
@@ -22,26 +22,26 @@ namespace meevax::inline kernel
 {
   auto make_list(std::size_t size, object const& x) -> object
   {
-    if (0 < size)
-    {
-      return cons(x, make_list(--size, x));
-    }
-    else
+    let xs = nullptr;
+
+    for (; 0 < size; --size)
     {
-      return nullptr;
+      xs = cons(x, xs);
     }
+
+    return xs;
   }
 
   auto iota(std::size_t count, object const& start, object const& step) -> object
   {
-    if (0 < count)
-    {
-      return cons(start, iota(count - 1, start + step, step));
-    }
-    else
+    let const head = cons(unit, unit);
+
+    for (let tail = head, x = start; 0 < count; --count, tail = cdr(tail), x = x + step)
     {
-      return nullptr;
+      cdr(tail) = cons(x, unit);
     }
+
+    return cdr(head);
   }
 
   auto is_proper_list(object const& x0, object const& y0) -> bool
@@ -127,26 +127,26 @@ namespace meevax::inline kernel
 
   auto list_copy(object const& xs) -> object
   {
-    if (xs.is<pair>())
-    {
-      return cons(car(xs), list_copy(cdr(xs)));
-    }
-    else
+    let const head = cons(unit, xs);
+
+    for (let tail = head; cdr(tail).is<pair>(); tail = cdr(tail))
     {
-      return xs;
+      cdr(tail) = cons(cadr(tail), cddr(tail));
     }
+
+    return cdr(head);
   }
 
   auto take(object const& x, std::size_t k) -> object
   {
-    if (0 < k)
+    let const head = cons(unit, unit);
+
+    for (let tail = head, xs = x; 0 < k; --k, tail = cdr(tail), xs = cdr(xs))
     {
-      return cons(car(x), take(cdr(x), k - 1));
-    }
-    else
-    {
-      return nullptr;
+      cdr(tail) = cons(car(xs), unit);
     }
+
+    return cdr(head);
   }
 
   auto take(object & x, std::size_t k) -> object
@@ -205,14 +205,14 @@ namespace meevax::inline kernel
 
   auto drop_right(object const& x, object const& y) -> object
   {
-    if (y.is<pair>())
-    {
-      return cons(car(x), drop_right(cdr(x), cdr(y)));
-    }
-    else
+    let const head = cons(unit, unit);
+
+    for (let tail = head, xs = x, ys = y; ys.is<pair>(); tail = cdr(tail), xs = cdr(xs), ys = cdr(ys))
     {
-      return nullptr;
+      cdr(tail) = cons(car(xs), unit);
     }
+
+    return cdr(head);
   }
 
   auto drop_right(object const& x, std::size_t k) -> object
@@ -252,14 +252,14 @@ namespace meevax::inline kernel
 
   auto append(object const& x, object const& y) -> object
   {
-    if (x.is<pair>())
-    {
-      return cons(car(x), append(cdr(x), y));
-    }
-    else
+    let const head = cons(unit, y);
+
+    for (let tail = head, xs = x; xs.is<pair>(); tail = cdr(tail), xs = cdr(xs))
     {
-      return y;
+      cdr(tail) = cons(car(xs), y);
     }
+
+    return cdr(head);
   }
 
   auto append(object & x, object const& y) -> object &
@@ -281,38 +281,40 @@ namespace meevax::inline kernel
 
   auto append_reverse(object const& x, object const& y) -> object
   {
-    if (x.is<null>())
-    {
-      return y;
-    }
-    else
+    let result = y;
+
+    for (let xs = x; not xs.is<null>(); xs = cdr(xs))
     {
-      return append_reverse(cdr(x), cons(car(x), y));
+      result = cons(car(xs), result);
     }
+
+    return result;
   }
 
   auto append_reverse(object & x, object const& y) -> object
   {
-    if (x.is<null>())
-    {
-      return y;
-    }
-    else
+    let result = y;
+
+    for (let xs = x; not xs.is<null>(); )
     {
-      return append_reverse(std::exchange(cdr(x), y), x);
+      let const rest = std::exchange(cdr(xs), result);
+      result = xs;
+      xs = rest;
     }
+
+    return result;
   }
 
   auto reverse(object const& xs, object const& a) -> object
   {
-    if (xs.is<pair>())
-    {
-      return reverse(cdr(xs), cons(car(xs), a));
-    }
-    else
+    let result = a;
+
+    for (let rest = xs; rest.is<pair>(); rest = cdr(rest))
     {
-      return a;
+      result = cons(car(rest), result);
     }
+
+    return result;
   }
 
   auto reverse(object const& xs) -> object
@@ -322,14 +324,7 @@ namespace meevax::inline kernel
 
   auto reverse(object & xs, object const& a) -> object
   {
-    if (xs.is<null>())
-    {
-      return a;
-    }
-    else
-    {
-      return reverse(std::exchange(cdr(xs), a), xs);
-    }
+    return append_reverse(xs, a);
   }
 
   auto reverse(object & xs) -> object
-- 
2.43.0


From 7b1063f36b42beb359df321421982c64bf6845df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 78/92] fix: Renamed imports and exports are other names of the
 same location

An identifier imported or exported under another name (prefix, rename) was
bound to a copy of the value that it had at that time: assignments by the
library were not seen, literals such as else did not match when renamed, and
importing the same binding twice was reported as a conflict.
---
 include/meevax/kernel/identity.hpp   | 13 +++++++++++++
 src/kernel/environment.cpp           | 15 ++++-----------
 src/kernel/identity.cpp              | 13 +++++++++++++
 src/kernel/library.cpp               |  5 ++---
 src/kernel/syntactic_environment.cpp |  2 +-
 5 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/include/meevax/kernel/identity.hpp b/include/meevax/kernel/identity.hpp
index 72c854c..49153f2 100644
--- a/include/meevax/kernel/identity.hpp
+++ b/include/meevax/kernel/identity.hpp
@@ -28,6 +28,19 @@ namespace meevax::inline kernel
 
   auto operator <<(std::ostream &, absolute const&) -> std::ostream &;
 
+  struct alias : public virtual pair // (<identifier> . <absolute>)
+  {
+    using pair::pair;
+  };
+
+  /*
+     What renaming makes of the given identity: another name for the same
+     location, that is, an alias, unless it is the name it already has.
+  */
+  auto rename(object const& identity, object const& name) -> object;
+
+  auto resolve(object const& identity) -> object const&; // The <absolute> that the alias (if so) stands for.
+
   struct macro : public absolute // (<keyword> . <transformer-spec or transformer>)
   {
     using absolute::absolute;
diff --git a/src/kernel/environment.cpp b/src/kernel/environment.cpp
index c93e40c..4d89e2f 100644
--- a/src/kernel/environment.cpp
+++ b/src/kernel/environment.cpp
@@ -84,7 +84,6 @@ namespace meevax::inline kernel
     {
       auto only = [identifiers = cddr(form)](let const& identity)
       {
-        assert(identity.is<absolute>());
         return memq(car(identity), identifiers) != f;
       };
 
@@ -98,7 +97,6 @@ namespace meevax::inline kernel
     {
       auto except = [identifiers = cddr(form)](let const& identity)
       {
-        assert(identity.is<absolute>());
         return memq(car(identity), identifiers) == f;
       };
 
@@ -112,10 +110,8 @@ namespace meevax::inline kernel
     {
       auto prefix = [prefix = caddr(form)](let const& identity)
       {
-        assert(identity.is<absolute>());
-        return make<absolute>(make_symbol(lexical_cast(prefix) +
-                                          lexical_cast(car(identity))),
-                              cdr(identity));
+        return kernel::rename(identity, make_symbol(lexical_cast(prefix) +
+                                                    lexical_cast(car(identity))));
       };
 
       return map(prefix, import_set(cadr(form)));
@@ -129,13 +125,12 @@ namespace meevax::inline kernel
     {
       auto rename = [renamings = cddr(form)](let const& identity) -> object
       {
-        assert(identity.is<absolute>());
         assert(car(identity).is_also<identifier>());
 
         if (let const& renaming = assq(car(identity), renamings); renaming != f)
         {
           assert(cadr(renaming).is<symbol>());
-          return make<absolute>(cadr(renaming), cdr(identity));
+          return kernel::rename(identity, cadr(renaming));
         }
         else
         {
@@ -177,13 +172,11 @@ namespace meevax::inline kernel
 
     for (let const& x : identities | as_proper_list)
     {
-      assert(x.is<absolute>());
-
       if (let const& y = std::as_const(*this).identify(car(x), unit); y == f or this == std::addressof(interaction_environment().as<environment>()))
       {
         second = cons(x, second);
       }
-      else if (x != y)
+      else if (resolve(x) != y)
       {
         throw error(make<string>("in a program or library declaration, it is an error to import the same identifier more than once with different bindings"), x);
       }
diff --git a/src/kernel/identity.cpp b/src/kernel/identity.cpp
index 6459b06..53fb317 100644
--- a/src/kernel/identity.cpp
+++ b/src/kernel/identity.cpp
@@ -14,11 +14,24 @@
    limitations under the License.
 */
 
+#include <meevax/kernel/comparator.hpp>
 #include <meevax/kernel/ghost.hpp>
 #include <meevax/kernel/identity.hpp>
 
 namespace meevax::inline kernel
 {
+  auto rename(object const& identity, object const& name) -> object
+  {
+    let const& absolute = resolve(identity);
+
+    return eq(car(absolute), name) ? absolute : make<alias>(name, absolute);
+  }
+
+  auto resolve(object const& identity) -> object const&
+  {
+    return identity.is<alias>() ? cdr(identity) : identity;
+  }
+
   auto operator <<(std::ostream & os, absolute const& datum) -> std::ostream &
   {
     if (datum.second == undefined)
diff --git a/src/kernel/library.cpp b/src/kernel/library.cpp
index 2d8bf41..c797bc4 100644
--- a/src/kernel/library.cpp
+++ b/src/kernel/library.cpp
@@ -93,13 +93,12 @@ namespace meevax::inline kernel
                    assert(car(export_spec).as<symbol>().name == "rename");
                    assert(cadr(export_spec).is_also<identifier>());
                    assert(caddr(export_spec).is_also<identifier>());
-                   return make<absolute>(caddr(export_spec),
-                                         cdr(evaluator.identify(cadr(export_spec), unit)));
+                   return rename(evaluator.identify(cadr(export_spec), unit), caddr(export_spec));
                  }
                  else
                  {
                    assert(export_spec.is_also<identifier>());
-                   return evaluator.identify(export_spec, unit);
+                   return rename(evaluator.identify(export_spec, unit), export_spec);
                  }
                },
                export_specs);
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 9342b29..4fc445a 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -193,7 +193,7 @@ namespace meevax::inline kernel
     }
     else
     {
-      return assq(variable, second);
+      return resolve(assq(variable, second));
     }
   }
 
-- 
2.43.0


From 7acf4f1d71b2f34d45fe656c558e093ebeaf75d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 79/92] fix: include and cond-expand splice definitions into
 bodies, and may be empty

include in an expression or a body included nothing, definitions of an include
or a cond-expand at the head of a body were rejected, and (begin) or an empty
clause of cond-expand crashed.
---
 src/kernel/expander.cpp              |  4 ++--
 src/kernel/generator.cpp             |  7 ++++++-
 src/kernel/syntactic_environment.cpp | 15 +++++++++++++++
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/kernel/expander.cpp b/src/kernel/expander.cpp
index 0de89d0..064bf1f 100644
--- a/src/kernel/expander.cpp
+++ b/src/kernel/expander.cpp
@@ -166,7 +166,7 @@ namespace meevax::inline kernel
   EXPANDER(expander::include)
   {
     return expander.expand(cons(default_rename("begin"),
-                                meevax::include(cadr(form))),
+                                meevax::include(cdr(form))),
                            bound_variables,
                            alpha);
   }
@@ -174,7 +174,7 @@ namespace meevax::inline kernel
   EXPANDER(expander::include_case_insensitive)
   {
     return expander.expand(cons(default_rename("begin"),
-                                meevax::include<case_insensitive>(cadr(form))),
+                                meevax::include<case_insensitive>(cdr(form))),
                            bound_variables,
                            alpha);
   }
diff --git a/src/kernel/generator.cpp b/src/kernel/generator.cpp
index 23b9ccb..85a9100 100644
--- a/src/kernel/generator.cpp
+++ b/src/kernel/generator.cpp
@@ -187,7 +187,12 @@ namespace meevax::inline kernel
 
   GENERATOR(generator::sequence)
   {
-    if (cdr(form).is<null>()) // is tail sequence
+    if (form.is<null>()) // such as an empty clause of cond-expand
+    {
+      return cons(make<instruction>(instruction::secd_load_constant), unspecified,
+                  continuation);
+    }
+    else if (cdr(form).is<null>()) // is tail sequence
     {
       return generator.generate(car(form),
                                 bound_variables,
diff --git a/src/kernel/syntactic_environment.cpp b/src/kernel/syntactic_environment.cpp
index 4fc445a..1af7f97 100644
--- a/src/kernel/syntactic_environment.cpp
+++ b/src/kernel/syntactic_environment.cpp
@@ -16,10 +16,12 @@
 
 #include <algorithm>
 #include <meevax/kernel/boolean.hpp>
+#include <meevax/kernel/conditional_expand.hpp>
 #include <meevax/kernel/environment.hpp>
 #include <meevax/kernel/expander.hpp>
 #include <meevax/kernel/generator.hpp>
 #include <meevax/kernel/identity.hpp>
+#include <meevax/kernel/include.hpp>
 #include <meevax/kernel/proper_list.hpp>
 #include <meevax/kernel/symbol.hpp>
 #include <meevax/kernel/syntactic_environment.hpp>
@@ -313,6 +315,19 @@ namespace meevax::inline kernel
                            formals,
                            reversed_binding_specs);
             }
+            else if (name == "conditional-expand" or name == "include" or name == "include-case-insensitive")
+            {
+              let const spliced = name == "conditional-expand" ? conditional_expand(cdar(sequence))
+                                : name == "include"            ? kernel::include(cdar(sequence))
+                                                               : kernel::include<case_insensitive>(cdar(sequence));
+              return sweep(form,
+                           append(spliced, cdr(sequence)),
+                           bound_variables,
+                           current_environment,
+                           alpha,
+                           formals,
+                           reversed_binding_specs);
+            }
             else if (name == "define") // <form> = ((define ...) <definition or expression>*)
             {
               if (cadar(sequence).is<pair>()) // <form> = ((define (<variable> . <formals>) <body>) <definition or expression>*)
-- 
2.43.0


From 07da5612698ad6769bf31b15f104ace77c6c5328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:04 +0000
Subject: [PATCH 80/92] fix: cond-expand in the expansion of a macro found no
 clause

---
 src/kernel/conditional_expand.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kernel/conditional_expand.cpp b/src/kernel/conditional_expand.cpp
index b55d2fb..a702ccb 100644
--- a/src/kernel/conditional_expand.cpp
+++ b/src/kernel/conditional_expand.cpp
@@ -20,6 +20,7 @@
 #include <meevax/kernel/conditional_expand.hpp>
 #include <meevax/kernel/library.hpp>
 #include <meevax/kernel/proper_list.hpp>
+#include <meevax/kernel/syntactic_closure.hpp>
 #include <meevax/kernel/system.hpp> // features
 
 namespace meevax::inline kernel
@@ -63,7 +64,7 @@ namespace meevax::inline kernel
       {
         throw error(make<string>("each clause of conditional-expand takes the form (<feature requirement> <expression> ...)"), clause);
       }
-      else if (conditional_expand_test(car(clause)))
+      else if (conditional_expand_test(strip_syntactic_closures(car(clause)))) // A macro may have renamed it.
       {
         return cdr(clause);
       }
-- 
2.43.0


From 6c89986171378e3d1bf6bc042d6b05d0c999a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 81/92] fix: eqv? distinguishes vectors, boxes and inexact
 complex numbers, and equal? compares circular vectors and boxes

---
 include/meevax/kernel/box.hpp                |  5 +++
 include/meevax/kernel/collector.hpp          |  7 +++-
 include/meevax/kernel/complex.hpp            |  2 ++
 include/meevax/kernel/homogeneous_vector.hpp |  5 +++
 include/meevax/kernel/vector.hpp             |  5 +++
 src/kernel/comparator.cpp                    | 38 ++++++++++++++++++--
 src/kernel/complex.cpp                       |  6 ++++
 7 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/include/meevax/kernel/box.hpp b/include/meevax/kernel/box.hpp
index 9e41f79..8b83c77 100644
--- a/include/meevax/kernel/box.hpp
+++ b/include/meevax/kernel/box.hpp
@@ -24,6 +24,11 @@ namespace meevax::inline kernel
   struct box : public virtual pair // (value . null)
   {
     using pair::pair;
+
+    auto is_eqv(box const& other) const noexcept -> bool
+    {
+      return this == &other;
+    }
   };
 
   auto operator <<(std::ostream &, box const&) -> std::ostream &;
diff --git a/include/meevax/kernel/collector.hpp b/include/meevax/kernel/collector.hpp
index 0a57cb4..4111f46 100644
--- a/include/meevax/kernel/collector.hpp
+++ b/include/meevax/kernel/collector.hpp
@@ -113,7 +113,12 @@ namespace meevax::inline kernel
 
     auto eqv([[maybe_unused]] pair const* other) const noexcept -> bool override
     {
-      if constexpr (std::equality_comparable<Bound const&>)
+      if constexpr (requires (Bound const& bound) { { bound.is_eqv(bound) } -> std::same_as<bool>; })
+      {
+        auto const* bound = dynamic_cast<Bound const*>(other);
+        return bound and static_cast<Bound const*>(this)->is_eqv(*bound);
+      }
+      else if constexpr (std::equality_comparable<Bound const&>)
       {
         if (auto const* bound = dynamic_cast<Bound const*>(other); bound)
         {
diff --git a/include/meevax/kernel/complex.hpp b/include/meevax/kernel/complex.hpp
index 2ce7abb..286d5d4 100644
--- a/include/meevax/kernel/complex.hpp
+++ b/include/meevax/kernel/complex.hpp
@@ -33,6 +33,8 @@ namespace meevax::inline kernel
 
     auto real() const noexcept -> object const&;
 
+    auto is_eqv(complex const&) const -> bool;
+
     explicit operator std::complex<int>() const;
 
     explicit operator std::complex<double>() const;
diff --git a/include/meevax/kernel/homogeneous_vector.hpp b/include/meevax/kernel/homogeneous_vector.hpp
index 78b2409..99b273c 100644
--- a/include/meevax/kernel/homogeneous_vector.hpp
+++ b/include/meevax/kernel/homogeneous_vector.hpp
@@ -51,6 +51,11 @@ namespace meevax::inline kernel
       }
     }
 
+    auto is_eqv(homogeneous_vector const& other) const noexcept -> bool
+    {
+      return this == &other or (values.size() == 0 and other.values.size() == 0);
+    }
+
     auto payload_size() const noexcept -> std::size_t
     {
       return values.size() * sizeof(T);
diff --git a/include/meevax/kernel/vector.hpp b/include/meevax/kernel/vector.hpp
index 6a4b01b..f499e19 100644
--- a/include/meevax/kernel/vector.hpp
+++ b/include/meevax/kernel/vector.hpp
@@ -35,6 +35,11 @@ namespace meevax::inline kernel
       std::ranges::copy(view, std::back_inserter(objects));
     }
 
+    auto is_eqv(heterogeneous_vector const& other) const noexcept -> bool
+    {
+      return this == &other or (objects.empty() and other.objects.empty());
+    }
+
     auto payload_size() const noexcept -> std::size_t
     {
       return objects.capacity() * sizeof(object);
diff --git a/src/kernel/comparator.cpp b/src/kernel/comparator.cpp
index ec99334..dd6a3a7 100644
--- a/src/kernel/comparator.cpp
+++ b/src/kernel/comparator.cpp
@@ -15,7 +15,9 @@
 */
 
 #include <meevax/kernel/box.hpp>
+#include <meevax/kernel/homogeneous_vector.hpp>
 #include <meevax/kernel/list.hpp>
+#include <meevax/kernel/vector.hpp>
 #include <unordered_map>
 
 namespace meevax::inline kernel
@@ -82,14 +84,44 @@ namespace meevax::inline kernel
     return false;
   }
 
+  template <typename... Ts>
+  auto numeric_vector_equal(object const& x, object const& y) -> bool
+  {
+    return ((x.is<homogeneous_vector<Ts>>() and x.as<homogeneous_vector<Ts>>() == y.as<homogeneous_vector<Ts>>()) or ...);
+  }
+
   /*
      Efficient Nondestructive Equality Checking for Trees and Graphs
   */
   auto equal(object const& x, object const& y, std::unordered_map<object, object> & forest) -> bool
   {
-    return eqv(x, y) or (x.is<pair>() and
-                         y.is<pair>() and (union_find(x, y, forest) or (equal(car(x), car(y), forest) and
-                                                                        equal(cdr(x), cdr(y), forest))));
+    if (eqv(x, y))
+    {
+      return true;
+    }
+    else if (x.type() != y.type())
+    {
+      return false;
+    }
+    else if (x.is<vector>())
+    {
+      auto const& xs = x.as<vector>().objects;
+      auto const& ys = y.as<vector>().objects;
+
+      return xs.size() == ys.size() and (union_find(x, y, forest) or std::equal(xs.begin(), xs.end(), ys.begin(), [&](auto const& a, auto const& b)
+                                                                                {
+                                                                                  return equal(a, b, forest);
+                                                                                }));
+    }
+    else if (x.is<pair>() or x.is<box>())
+    {
+      return union_find(x, y, forest) or (equal(car(x), car(y), forest) and
+                                          equal(cdr(x), cdr(y), forest));
+    }
+    else
+    {
+      return numeric_vector_equal<s8, s16, s32, s64, u8, u16, u32, u64, float, double>(x, y);
+    }
   }
 
   auto equal(object const& x, object const& y) -> bool
diff --git a/src/kernel/complex.cpp b/src/kernel/complex.cpp
index 0aca643..324747b 100644
--- a/src/kernel/complex.cpp
+++ b/src/kernel/complex.cpp
@@ -17,6 +17,7 @@
 #include <string_view>
 
 #include <meevax/iostream/lexical_cast.hpp>
+#include <meevax/kernel/comparator.hpp>
 #include <meevax/kernel/list.hpp>
 #include <meevax/kernel/number.hpp>
 #include <meevax/kernel/number/trigonometric.hpp>
@@ -71,6 +72,11 @@ namespace meevax::inline kernel
     return first;
   }
 
+  auto complex::is_eqv(complex const& other) const -> bool
+  {
+    return kernel::eqv(real(), other.real()) and kernel::eqv(imag(), other.imag());
+  }
+
   complex::operator std::complex<int>() const
   {
     assert(number::is_real(real()));
-- 
2.43.0


From f468be8c5c3ed7931d1c4982d8dc3d5b8b8fa6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:01 +0000
Subject: [PATCH 82/92] fix: Operands of command line options that name files
 are not data, and may be long or contain newlines

---
 src/kernel/configuration.cpp | 63 ++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/kernel/configuration.cpp b/src/kernel/configuration.cpp
index 1f61dd4..98c0bd3 100644
--- a/src/kernel/configuration.cpp
+++ b/src/kernel/configuration.cpp
@@ -36,7 +36,7 @@ namespace meevax::inline kernel
 
     std::regex const pattern;
 
-    std::function<auto (std::function<auto () -> object> const&) -> void> evaluate;
+    std::function<auto (std::function<auto () -> std::string> const&) -> void> evaluate;
 
     explicit option(char c, std::string const& s, std::string const& operand, std::string const& description, auto&& f)
       : c           { c }
@@ -83,38 +83,43 @@ namespace meevax::inline kernel
     return output.str();
   }
 
+  auto read(std::string const& datum) -> object
+  {
+    return input_string_port(datum).read();
+  }
+
   auto options() -> std::vector<option> const&
   {
     auto const static options = std::vector<option>
     {
       option('A', "append-library-directory", "<directory>",
              "Append <directory> to the list of directories that are searched in order to locate imported libraries. [SRFI 138]",
-      [](auto read)
+      [](auto operand)
       {
-        directories().emplace_back(std::filesystem::weakly_canonical(lexical_cast(read())));
+        directories().emplace_back(std::filesystem::weakly_canonical(operand()));
       }),
 
       option('D', "add-feature-identifier", "<name>",
              "Add <name> to the list of feature identifiers. [SRFI 138]",
-      [](auto read)
+      [](auto operand)
       {
-        features() = cons(read(), features());
+        features() = cons(read(operand()), features());
       }),
 
       option('I', "prepend-library-directory", "<directory>",
              "Prepend <directory> to the list of directories that are searched in order to locate imported libraries. [SRFI 138]",
-      [](auto read)
+      [](auto operand)
       {
-        directories().emplace_front(std::filesystem::weakly_canonical(lexical_cast(read())));
+        directories().emplace_front(std::filesystem::weakly_canonical(operand()));
       }),
 
       option('\0', "color", "<boolean>",
              "Colorize external representations. "
              "By default, colorization is enabled automatically for terminal output. "
              "#t always enables colorization; #f always disables it.",
-      [](auto read)
+      [](auto operand)
       {
-        if (let const x = read(); x.is<bool>())
+        if (let const x = read(operand()); x.is<bool>())
         {
           std::cout << color(x.as<bool>());
           std::cerr << color(x.as<bool>());
@@ -127,9 +132,9 @@ namespace meevax::inline kernel
 
       option('e', "evaluate", "<datum>",
              "Read and evaluate <datum> in the interaction environment.",
-      [](auto read)
+      [](auto operand)
       {
-        interaction_environment().as<environment>().evaluate(read());
+        interaction_environment().as<environment>().evaluate(read(operand()));
       }),
 
       option('h', "help", "",
@@ -183,9 +188,9 @@ namespace meevax::inline kernel
 
       option('l', "load", "<file>",
              "Load <file> into the interaction environment.",
-      [](auto read)
+      [](auto operand)
       {
-        interaction_environment().as<environment>().load(lexical_cast(read()));
+        interaction_environment().as<environment>().load(operand());
       }),
 
       option('\0', "library-directories", "",
@@ -207,9 +212,9 @@ namespace meevax::inline kernel
 
       option('w', "write", "<datum>",
              "Read <datum> and write it to standard output.",
-      [](auto read)
+      [](auto operand)
       {
-        std::cout << read() << std::endl;
+        std::cout << read(operand()) << std::endl;
       }),
     };
 
@@ -254,15 +259,19 @@ namespace meevax::inline kernel
 
     for (auto iter = std::next(args.begin()); iter != args.end(); ++iter)
     {
-      static std::regex const pattern { R"(--(\w[-\w]+)(?:=(.*))?|-([\w]+))" };
+      static std::regex const pattern { R"(--(\w[-\w]+)|-([\w]+))" };
 
-      if (std::smatch result; std::regex_match(*iter, result, pattern))
+      auto const equal = iter->starts_with("--") ? iter->find('=') : std::string::npos;
+
+      auto const name = iter->substr(0, equal);
+
+      if (std::smatch result; std::regex_match(name, result, pattern))
       {
-        auto read = [&]()
+        auto operand = [&]()
         {
           if (std::next(iter) != args.end())
           {
-            return input_string_port(*++iter).read();
+            return std::string(*++iter);
           }
           else
           {
@@ -271,23 +280,23 @@ namespace meevax::inline kernel
           }
         };
 
-        if (result.length(3))
+        if (result.length(2))
         {
-          for (auto str3 = result.str(3); not str3.empty(); str3.erase(0, 1))
+          for (auto str2 = result.str(2); not str2.empty(); str2.erase(0, 1))
           {
-            std::invoke(evaluator(str3.substr(0, 1)), read);
+            std::invoke(evaluator(str2.substr(0, 1)), operand);
           }
         }
-        else if (result.length(2))
+        else if (equal != std::string::npos)
         {
-          std::invoke(evaluator(result.str(1)), [result]()
+          std::invoke(evaluator(result.str(1)), [&]()
           {
-            return input_string_port(result.str(2)).read();
+            return iter->substr(equal + 1);
           });
         }
-        else if (result.length(1))
+        else
         {
-          std::invoke(evaluator(result.str(1)), read);
+          std::invoke(evaluator(result.str(1)), operand);
         }
       }
       else
-- 
2.43.0


From a766e4a069caba73ccd4fd67896aa94a7c2010ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:43 +0000
Subject: [PATCH 83/92] fix: --help and --version exit, as documented

---
 src/kernel/configuration.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kernel/configuration.cpp b/src/kernel/configuration.cpp
index 98c0bd3..d911ce4 100644
--- a/src/kernel/configuration.cpp
+++ b/src/kernel/configuration.cpp
@@ -177,6 +177,8 @@ namespace meevax::inline kernel
                      ;
 
         std::cout << std::flush;
+
+        throw EXIT_SUCCESS; // Display and exit.
       }),
 
       option('i', "interactive", "",
@@ -208,6 +210,8 @@ namespace meevax::inline kernel
       [](auto)
       {
         std::cout << version() << std::endl;
+
+        throw EXIT_SUCCESS; // Display and exit.
       }),
 
       option('w', "write", "<datum>",
-- 
2.43.0


From 3276fe59fb2a50487e41e9314f21f0208f75ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 84/92] fix: Quasiquote splices into an inner unquote, and
 takes the elements of a vector template as elements

---
 library/r4rs.ss | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/library/r4rs.ss b/library/r4rs.ss
index 916180b..d9bfecb 100644
--- a/library/r4rs.ss
+++ b/library/r4rs.ss
@@ -144,40 +144,46 @@
          (define-syntax quasiquote ; Chibi-Scheme
            (er-macro-transformer
              (lambda (form rename compare)
+               (define (expand-template x depth f) ; The elements of a list or a vector.
+                 (cond ((null? x)
+                        (list (rename 'quote) x))
+                       ((and (<= depth 0)
+                             (pair? (car x))
+                             (compare (rename 'unquote-splicing) (caar x)))
+                        (if (null? (cdr x))
+                            (cadar x)
+                            (list (rename 'append)
+                                  (cadar x)
+                                  (f (cdr x) depth))))
+                       (else (list (rename 'cons)
+                                   (expand (car x) depth)
+                                   (f (cdr x) depth)))))
+               (define (loop x depth)
+                 (expand-template x depth loop))
                (define (expand x depth)
                  (cond ((pair? x)
                         (cond ((compare (rename 'unquote) (car x))
                                (if (<= depth 0)
                                    (cadr x)
-                                   (list (rename 'list)
+                                   (list (rename 'cons)
                                          (list (rename 'quote) 'unquote)
-                                         (expand (cadr x) (- depth 1)))))
+                                         (expand (cdr x) (- depth 1)))))
                               ((compare (rename 'unquote-splicing) (car x))
                                (if (<= depth 0)
                                    (list (rename 'cons)
                                          (expand (car x) depth)
                                          (expand (cdr x) depth))
-                                   (list (rename 'list)
+                                   (list (rename 'cons)
                                          (list (rename 'quote) 'unquote-splicing)
-                                         (expand (cadr x) (- depth 1)))))
+                                         (expand (cdr x) (- depth 1)))))
                               ((compare (rename 'quasiquote) (car x))
                                (list (rename 'list)
                                      (list (rename 'quote) 'quasiquote)
                                      (expand (cadr x) (+ depth 1))))
-                              ((and (<= depth 0)
-                                    (pair? (car x))
-                                    (compare (rename 'unquote-splicing) (caar x)))
-                               (if (null? (cdr x))
-                                   (cadar x)
-                                   (list (rename 'append)
-                                         (cadar x)
-                                         (expand (cdr x) depth))))
-                              (else (list (rename 'cons)
-                                          (expand (car x) depth)
-                                          (expand (cdr x) depth)))))
+                              (else (expand-template x depth expand))))
                        ((vector? x)
                         (list (rename 'list->vector)
-                              (expand (vector->list x) depth)))
+                              (loop (vector->list x) depth)))
                        ((or (identifier? x)
                             (null? x))
                         (list (rename 'quote) x))
-- 
2.43.0


From cd4402c40389aed4d3be7227340ac0d7abb521d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 85/92] fix: null-environment has letrec-syntax, syntax-rules,
 define and define-syntax

---
 library/r5rs.ss | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/r5rs.ss b/library/r5rs.ss
index ba8c948..2e75945 100644
--- a/library/r5rs.ss
+++ b/library/r5rs.ss
@@ -42,6 +42,6 @@
 
          (define (null-environment version)
            (environment `(only (scheme ,(string->symbol (string-append "r" (number->string version) "rs")))
-                               quote lambda if set! cond case and or let let*
-                               letrec begin do delay quasiquote let-syntax
-                               letrec-syntax syntax-rules define define-syntax)))))
+                               ,@'(quote lambda if set! cond case and or let let*
+                                   letrec begin do delay quasiquote let-syntax
+                                   letrec-syntax syntax-rules define define-syntax))))))
-- 
2.43.0


From 888fb2da7d89f33044fa4949b02ef59bcf762727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 86/92] fix: load evaluates in the interaction environment when
 no environment is given

---
 library/r4rs.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/r4rs.ss b/library/r4rs.ss
index d9bfecb..f6e9271 100644
--- a/library/r4rs.ss
+++ b/library/r4rs.ss
@@ -53,7 +53,7 @@
           (only (meevax vector) vector? make-vector vector vector-length vector-ref vector-set! vector->list list->vector vector-fill!)
           (prefix (meevax read) %)
           (prefix (meevax write) %)
-          (prefix (only (meevax environment) load) %)
+          (prefix (only (meevax environment) interaction-environment load) %)
           (only (srfi 39) make-parameter parameterize)
           (only (srfi 45) delay force))
 
-- 
2.43.0


From 23d53b24300ce1b2635b2cdd7c7aab67207f4b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 87/92] fix: interaction-environment of (scheme r5rs) is bound

---
 library/r5rs.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/r5rs.ss b/library/r5rs.ss
index 2e75945..9a03951 100644
--- a/library/r5rs.ss
+++ b/library/r5rs.ss
@@ -1,7 +1,7 @@
 (define-library (scheme r5rs)
   (import (only (meevax continuation) call-with-values dynamic-wind values)
           (only (meevax core) define-syntax let-syntax letrec-syntax)
-          (only (meevax environment) environment eval)
+          (only (meevax environment) environment eval interaction-environment)
           (scheme r4rs)
           (srfi 149))
 
-- 
2.43.0


From 83c3a62dcc3f99b405bc7040644543c7674a3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:32 +0000
Subject: [PATCH 88/92] fix: A name in a file given by a relative path, or
 reached by one, is found beside that file

---
 include/meevax/kernel/input_file_port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/meevax/kernel/input_file_port.hpp b/include/meevax/kernel/input_file_port.hpp
index d358b6e..434cee3 100644
--- a/include/meevax/kernel/input_file_port.hpp
+++ b/include/meevax/kernel/input_file_port.hpp
@@ -33,7 +33,7 @@ namespace meevax::inline kernel
       : name     { std::filesystem::canonical(name) }
       , ifstream { name, std::forward<decltype(xs)>(xs)... }
     {
-      textual_context::paths.emplace(name);
+      textual_context::paths.emplace(this->name);
     }
 
     auto close() -> void override;
-- 
2.43.0


From 7a349d9b14fa6a6ca117d937505cafb204baeca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 89/92] fix: The square root of a large exact integer that is
 no square is inexact

It was the flonum made exact again, which is no square root, and where the
integer is too large for a flonum the conversion of the infinity ended the
process with SIGFPE.
---
 src/kernel/number/power.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number/power.cpp b/src/kernel/number/power.cpp
index 674e1ee..5ecd01b 100644
--- a/src/kernel/number/power.cpp
+++ b/src/kernel/number/power.cpp
@@ -108,7 +108,7 @@ namespace meevax::inline kernel::number
           {
             auto const [s, r] = x.sqrt();
 
-            return r == 0_i64 ? make<large_integer>(s) : make<large_integer>(std::sqrt(static_cast<double>(x)));
+            return r == 0_i64 ? make<large_integer>(s) : make<double>(std::sqrt(static_cast<double>(x)));
           }
           else
           {
-- 
2.43.0


From a43c634f52f263fb4dae1aaac8f8cc5acc88b8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 90/92] fix: A complex number whose imaginary part is zero is
 the real number

make-rectangular, make-polar and literals such as 1+0i made a complex object
that real? accepts but exact-integer?, <, eqv? and even? do not take for the
number it is, while it is written as the real number; arithmetic already
makes it the real number.
---
 src/kernel/boot.cpp   | 4 ++--
 src/kernel/number.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernel/boot.cpp b/src/kernel/boot.cpp
index aeef915..bd0fe44 100644
--- a/src/kernel/boot.cpp
+++ b/src/kernel/boot.cpp
@@ -258,8 +258,8 @@ namespace meevax::inline kernel
       { "sqrt",                          [](let const& xs) { return sqrt(car(xs)); } },
       { "exact-integer-square-root",     [](let const& xs) { auto sqrt = [](let const& x) { if (x.is<small_integer>()) { return large_integer(x.as<small_integer>()).sqrt(); } else { return x.as<large_integer>().sqrt(); } }; auto&& [s, r] = sqrt(car(xs)); return cons(make<large_integer>(std::forward<decltype(s)>(s)), make<large_integer>(std::forward<decltype(r)>(r))); } },
       { "expt",                          [](let const& xs) { return pow(car(xs), cadr(xs)); } },
-      { "make-rectangular",              [](let const& xs) { return make<complex>(car(xs), cadr(xs)); } },
-      { "make-polar",                    [](let const& xs) { let const& radius = car(xs), angle = cadr(xs); return make<complex>(radius * cos(angle), radius * sin(angle)); } },
+      { "make-rectangular",              [](let const& xs) { return canonicalize(complex(car(xs), cadr(xs))); } },
+      { "make-polar",                    [](let const& xs) { let const& radius = car(xs), angle = cadr(xs); return canonicalize(complex(radius * cos(angle), radius * sin(angle))); } },
       { "real-part",                     [](let const& xs) { return real(car(xs)); } },
       { "imag-part",                     [](let const& xs) { return imag(car(xs)); } },
       { "magnitude",                     [](let const& xs) { return magnitude(car(xs)); } },
diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 315bf3b..4cb368e 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -514,7 +514,7 @@ namespace meevax::inline kernel
     }
     catch (std::invalid_argument const&)
     {
-      return make<complex>(literal, radix);
+      return number::canonicalize(complex(literal, radix));
     }
   }
 
-- 
2.43.0


From 3851b6fec1da127e3b4c704dd5af7eacf1329b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:50 +0000
Subject: [PATCH 91/92] fix: number->string of the smallest 32-bit integer in
 radix 2 is terminated

Its 33 characters filled the buffer, so that the string went on with whatever
followed the buffer.
---
 src/kernel/number.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/number.cpp b/src/kernel/number.cpp
index 4cb368e..7f72b4f 100644
--- a/src/kernel/number.cpp
+++ b/src/kernel/number.cpp
@@ -980,7 +980,7 @@ namespace number
       }
       else if constexpr (std::is_same_v<T, widen_integer>)
       {
-        char buffer[33] = {};
+        char buffer[34] = {}; // A sign, 32 binary digits and a null character.
         std::to_chars(buffer, buffer + sizeof(buffer), x, radix);
         return string(buffer);
       }
-- 
2.43.0


From bbb6a657ac7694fc6ab2fe438628e47c5db74b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:01 +0000
Subject: [PATCH 92/92] fix: The body of letrec* is a scope of its own

---
 library/r7rs.ss | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/r7rs.ss b/library/r7rs.ss
index 164bf04..dd3c701 100644
--- a/library/r7rs.ss
+++ b/library/r7rs.ss
@@ -117,7 +117,7 @@
                `(,(rename 'let) ()
                                 ,@(map (lambda (x) (cons (rename 'define) x))
                                        (cadr form))
-                                ,@(cddr form)))))
+                                (,(rename 'let) () ,@(cddr form))))))
 
          (define-syntax syntax-error
            (er-macro-transformer
-- 
2.43.0

