From 449b8015c19a7100904ad0280688bffd429782be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:02 +0000
Subject: [PATCH 01/32] fix: floor, ceil, trunc and round of subnormal numbers

The signed-zero test compared against the smallest normal number, so every
subnormal argument was returned unchanged instead of being rounded to an
integer (e.g. ceil(5e-324) was 5e-324 rather than 1).
---
 include/gcem_incl/ceil.hpp  | 2 +-
 include/gcem_incl/floor.hpp | 2 +-
 include/gcem_incl/round.hpp | 2 +-
 include/gcem_incl/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/ceil.hpp b/include/gcem_incl/ceil.hpp
index ff1097b..6abe2b1 100644
--- a/include/gcem_incl/ceil.hpp
+++ b/include/gcem_incl/ceil.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 ceil_check_internal(x) );
diff --git a/include/gcem_incl/floor.hpp b/include/gcem_incl/floor.hpp
index 8b260ff..91bff75 100644
--- a/include/gcem_incl/floor.hpp
+++ b/include/gcem_incl/floor.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 floor_check_internal(x) );
diff --git a/include/gcem_incl/round.hpp b/include/gcem_incl/round.hpp
index 9ac4a09..e9e2d13 100644
--- a/include/gcem_incl/round.hpp
+++ b/include/gcem_incl/round.hpp
@@ -98,7 +98,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 sgn(x) * round_check_internal(abs(x)) );
diff --git a/include/gcem_incl/trunc.hpp b/include/gcem_incl/trunc.hpp
index af3f448..41564ab 100644
--- a/include/gcem_incl/trunc.hpp
+++ b/include/gcem_incl/trunc.hpp
@@ -94,7 +94,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 trunc_check_internal(x) );
-- 
2.43.0


From f8d1597628122496044795a0bdc4e0710dbd2c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 02/32] fix: log just below negative powers of ten

mantissa() and find_exponent() scaled small values in different steps, so
rounding could leave them one power of ten apart: log(0.1L), log(1e-10f) and
the neighbours of many 10^-k were off by log(10).
---
 include/gcem_incl/mantissa.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/mantissa.hpp b/include/gcem_incl/mantissa.hpp
index af23ea2..aae0485 100644
--- a/include/gcem_incl/mantissa.hpp
+++ b/include/gcem_incl/mantissa.hpp
@@ -34,7 +34,12 @@ T
 mantissa(const T x)
 noexcept
 {
-    return( x < T(1) ? \
+    return( // same scaling steps as find_exponent, so that x = mantissa * 10^exponent holds
+            x < T(1e-03) ? \
+                mantissa(x * T(1e+04)) :
+            x < T(1e-01) ? \
+                mantissa(x * T(1e+02)) :
+            x < T(1) ? \
                 mantissa(x * T(10)) : 
             x > T(10) ? \
                 mantissa(x / T(10)) :
-- 
2.43.0


From c9220eb45da01d7b3c12a63360a4727b06355dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 03/32] fix: log of negative integers is NaN

log_integral_check returned 0 for every integral argument below one, so
log(-5), log2(-5) and log10(-5) were 0 instead of NaN.
---
 include/gcem_incl/log.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/log.hpp b/include/gcem_incl/log.hpp
index 01b6a80..789dce0 100644
--- a/include/gcem_incl/log.hpp
+++ b/include/gcem_incl/log.hpp
@@ -158,7 +158,7 @@ noexcept
     return( std::is_integral<T>::value ? \
                 x == T(0) ? \
                     - GCLIM<return_t<T>>::infinity() :
-                x > T(1) ? \
+                x != T(1) ? \
                     log_check( static_cast<return_t<T>>(x) ) :
                     static_cast<return_t<T>>(0) :
             log_check( static_cast<return_t<T>>(x) ) );
-- 
2.43.0


From a2e52264328bcede9cd6a6557471e7d5eaf6b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 04/32] fix: lcm(0,0) divided by zero

gcd(0,0) is zero, so lcm(0,0) was an integer division by zero. The least
common multiple with a zero argument is zero.
---
 include/gcem_incl/lcm.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index a7ca776..7cf9574 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -30,7 +30,9 @@ T
 lcm_compute(const T a, const T b)
 noexcept
 {
-    return abs(a * (b / gcd(a,b)));
+    return( a == T(0) || b == T(0) ? \
+                T(0) :
+                abs(a * (b / gcd(a,b))) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
-- 
2.43.0


From d8850a188ca6587902bbd25d8424a83f811a166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 05/32] fix: lcm of a negative and an unsigned argument

The negative argument was converted to the unsigned common type before its
absolute value was taken (gcd takes the absolute value first).
---
 include/gcem_incl/lcm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index 7cf9574..0405352 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -41,7 +41,7 @@ TC
 lcm_type_check(const T1 a, const T2 b)
 noexcept
 {
-    return lcm_compute(static_cast<TC>(a),static_cast<TC>(b));
+    return lcm_compute(static_cast<TC>(abs(a)),static_cast<TC>(abs(b)));
 }
 
 }
-- 
2.43.0


From 0d142e553c894807d775b6fabc0a0c58942a9ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 06/32] fix: exp of arguments beyond the range of long long

exp split x with a conversion to long long, which is undefined for
|x| >= 2^63 and made exp(1e300) zero instead of infinity.
---
 include/gcem_incl/exp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 595ffc2..b76d496 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -102,6 +102,11 @@ noexcept
             //
             is_posinf(x) ? \
                 GCLIM<T>::infinity() :
+            // beyond the range of T; keeps find_whole within the range of llint_t
+            x > T(GCLIM<T>::max_exponent) ? \
+                GCLIM<T>::infinity() :
+            x < T(GCLIM<T>::min_exponent - GCLIM<T>::digits) ? \
+                T(0) :
             //
             abs(x) < T(2) ? \
                 exp_cf(x) : \
-- 
2.43.0


From e87c2ad8c6f88af944e56fa66190fcca6bc5507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 07/32] fix: hypot overflow when |y| is much larger than |x|

Scaling by x squared the ratio y/x, which overflows although the result is
representable, e.g. hypot(1e-200,1.0) was infinite. Scale by the larger
argument instead.
---
 include/gcem_incl/hypot.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/hypot.hpp b/include/gcem_incl/hypot.hpp
index 01ad4e9..8e84d71 100644
--- a/include/gcem_incl/hypot.hpp
+++ b/include/gcem_incl/hypot.hpp
@@ -56,7 +56,9 @@ noexcept
             GCLIM<T>::min() > abs(y) ? \
                 abs(x) :
             // else
-            hypot_compute(x, y/x) );
+            abs(x) < abs(y) ? \
+                hypot_compute(y, x/y) :
+                hypot_compute(x, y/x) );
 }
 
 template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
-- 
2.43.0


From e246ef1a30e502152852020168c3207d83c2feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:40 +0000
Subject: [PATCH 08/32] fix: asinh of large arguments

For negative x the sum x + sqrt(x*x + 1) cancels: asinh(-1e5) had no more
than six correct digits and asinh(-1e9) was -inf; for large positive x the
square overflows. Use the odd symmetry and, beyond 1/epsilon, log(2x).
---
 include/gcem_incl/asinh.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/asinh.hpp b/include/gcem_incl/asinh.hpp
index a5f3ff6..245877f 100644
--- a/include/gcem_incl/asinh.hpp
+++ b/include/gcem_incl/asinh.hpp
@@ -28,6 +28,17 @@
 namespace internal
 {
 
+template<typename T>
+constexpr
+T
+asinh_begin(const T x)
+noexcept
+{   // x > 0; x*x + 1 is indistinguishable from x*x (and may overflow) beyond 1/epsilon
+    return( x > T(1) / GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
+                log( x + sqrt(x*x + T(1)) ) );
+}
+
 template<typename T>
 constexpr
 T
@@ -41,7 +52,9 @@ noexcept
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
             // else
-                log( x + sqrt(x*x + T(1)) ) );
+                x < T(0) ? \
+                    - asinh_begin(-x) :
+                      asinh_begin( x) );
 }
 
 }
-- 
2.43.0


From 8616d715a37c4c225819544209cf0ae18b0a9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 09/32] fix: acosh overflow for large arguments

x*x overflows for x beyond the square root of the largest number, where
acosh was infinite. Beyond 1/epsilon use log(2x).
---
 include/gcem_incl/acosh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/acosh.hpp b/include/gcem_incl/acosh.hpp
index 8767200..66ec96e 100644
--- a/include/gcem_incl/acosh.hpp
+++ b/include/gcem_incl/acosh.hpp
@@ -43,6 +43,9 @@ noexcept
             // indistinguishable from 1
             GCLIM<T>::min() > abs(x - T(1)) ? \
                 T(0) :
+            // x*x - 1 is indistinguishable from x*x (and may overflow)
+            x > T(1) / GCLIM<T>::epsilon() ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x - T(1)) ) );
 }
-- 
2.43.0


From 4815afa48abe393eb16f2e163790f1379e46d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 10/32] fix: sqrt of small numbers

The Newton iteration starts from about one and halves its value at every
step, so 100 steps are not enough below about 1e-58: sqrt(1e-100) was 8e-31.
Rescale small arguments like large ones.
---
 include/gcem_incl/sqrt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/sqrt.hpp b/include/gcem_incl/sqrt.hpp
index 1b2753c..89b7d05 100644
--- a/include/gcem_incl/sqrt.hpp
+++ b/include/gcem_incl/sqrt.hpp
@@ -51,7 +51,9 @@ T
 sqrt_simplify(const T x, const T m_val)
 noexcept
 {
-    return( x > T(1e+08) ? \
+    return( x < T(1) / T(1099511627776) ? \
+                sqrt_simplify(x * T(1099511627776), m_val / T(1048576)) : // 2^40, 2^20
+            x > T(1e+08) ? \
                 sqrt_simplify(x / T(1e+08), T(1e+04) * m_val) :
             x > T(1e+06) ? \
                 sqrt_simplify(x / T(1e+06), T(1e+03) * m_val) :
-- 
2.43.0


From b91c36f3bf6844e7a9fabaf2bc334e0b7648fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:41 +0000
Subject: [PATCH 11/32] fix: inv_sqrt of very large and very small numbers

The Newton iteration needs a number of steps proportional to the magnitude
of log(x), more than the limit of 100 beyond about 1e19 and below 1e-19.
Rescale the argument first, as sqrt does.
---
 include/gcem_incl/inv_sqrt.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/inv_sqrt.hpp b/include/gcem_incl/inv_sqrt.hpp
index d0e33fb..e57f079 100644
--- a/include/gcem_incl/inv_sqrt.hpp
+++ b/include/gcem_incl/inv_sqrt.hpp
@@ -43,6 +43,19 @@ noexcept
                 xn );
 }
 
+template<typename T>
+constexpr
+T
+inv_sqrt_simplify(const T x, const T m_val)
+noexcept
+{   // rescale by 2^40 and 2^20
+    return( x > T(1099511627776) ? \
+                inv_sqrt_simplify(x / T(1099511627776), m_val / T(1048576)) :
+            x < T(1) / T(1099511627776) ? \
+                inv_sqrt_simplify(x * T(1099511627776), m_val * T(1048576)) :
+                m_val * inv_sqrt_recur(x, x/T(2), 0) );
+}
+
 template<typename T>
 constexpr
 T
@@ -63,7 +76,7 @@ noexcept
             GCLIM<T>::min() > abs(T(1) - x) ? \
                 x :
             // else
-            inv_sqrt_recur(x, x/T(2), 0) );
+            inv_sqrt_simplify(x, T(1)) );
 }
 
 }
-- 
2.43.0


From 480a0fbeea126d40e8dea9bce769eb208142e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:26 +0000
Subject: [PATCH 12/32] fix: tanh of large arguments

The continued fraction loses accuracy from about 25 on (3.6e-6 at 94) and
overflows: tanh(1e200) and tanh of an infinity were 0 or NaN. There tanh is
indistinguishable from one in every format.
---
 include/gcem_incl/tanh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/tanh.hpp b/include/gcem_incl/tanh.hpp
index 51fc908..7af99e5 100644
--- a/include/gcem_incl/tanh.hpp
+++ b/include/gcem_incl/tanh.hpp
@@ -86,6 +86,9 @@ noexcept
             // indistinguishable from zero
              GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+             // indistinguishable from one
+             abs(x) > T(25) ? \
+                T(sgn(x)) :
              // else
                 x < T(0) ? \
                     - tanh_begin(-x) : 
-- 
2.43.0


From 9ae29ca83e7fd6360882c9f5cd4de458e2e5e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 13/32] fix: pow with the largest and the smallest exponent of
 a type

Any base to the largest exponent was infinite and to the smallest one zero,
including pow(1.0,INT_MAX) = inf, pow(0.5,INT_MAX) = inf and, for narrow
exponent types, pow(1.01,(signed char)127) = inf.
---
 include/gcem_incl/pow_integral.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 4e67155..4de36e8 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -53,7 +53,11 @@ T1
 pow_integral_sgn_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return( exp_term < T2(0) ? \
+    return( // the most negative exponent cannot be negated
+            exp_term == GCLIM<T2>::min() ? \
+                T1(1) / (base*pow_integral_compute_recur(base,T1(1),GCLIM<T2>::max())) :
+            //
+            exp_term < T2(0) ? \
             //
                 T1(1) / pow_integral_compute(base, - exp_term) : 
             //
@@ -83,11 +87,6 @@ noexcept
                 base :
             exp_term == T2(0) ? \
                 T1(1) :
-            // check for overflow
-            exp_term == GCLIM<T2>::min() ? \
-                T1(0) :
-            exp_term == GCLIM<T2>::max() ? \
-                GCLIM<T1>::infinity() :
             // else
             pow_integral_sgn_check(base,exp_term) );
 }
-- 
2.43.0


From 68cf681e84e2ae72dbbb3220a78a35895548f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:20 +0000
Subject: [PATCH 14/32] fix: negative powers of integers divided by an
 overflowed power

pow(2,-32) computed 1/pow(2,32) in int, where the power overflows to zero,
and crashed with a division by zero. The reciprocal truncates to zero.
---
 include/gcem_incl/pow_integral.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 4de36e8..d86cd40 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -53,7 +53,10 @@ T1
 pow_integral_sgn_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return( // the most negative exponent cannot be negated
+    return( // reciprocal of an integer larger than one
+            std::is_integral<T1>::value && exp_term < T2(0) && (base > T1(1) || (base < T1(0) && base != -T1(1))) ? \
+                T1(0) :
+            // the most negative exponent cannot be negated
             exp_term == GCLIM<T2>::min() ? \
                 T1(1) / (base*pow_integral_compute_recur(base,T1(1),GCLIM<T2>::max())) :
             //
-- 
2.43.0


From 52861b971867ac10866f942433302974f21e3057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:51 +0000
Subject: [PATCH 15/32] fix: pow of a narrow integer base in the type of the
 result

pow(10,18LL) has type long long but was computed in int, and
pow((signed char)10,3) has type int but was truncated to signed char.
---
 include/gcem_incl/pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 3891ede..701314c 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -57,7 +57,7 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return pow_integral(base,exp_term);
+    return pow_integral(static_cast<TC>(base),exp_term);
 }
 
 }
-- 
2.43.0


From 08f5fc5ebb20c5e58edd3dc7cf9a0013e93fd15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:10 +0000
Subject: [PATCH 16/32] fix: exp overflowed early when the whole part was
 rounded up

e^n was rounded to T before the multiplication with e^r, so exp(88.5f) and
exp(709.5) were infinite although the result is representable.
---
 include/gcem_incl/exp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index b76d496..e77d1e6 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -82,7 +82,7 @@ T
 exp_split(const T x)
 noexcept
 {
-    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x))) * exp_cf(find_fraction(x)) );
+    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x)) * exp_cf(find_fraction(x))) );
 }
 
 template<typename T>
-- 
2.43.0


From aba1a5dcc0387e1acc41d5efcc9d9b70081d2c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:31 +0000
Subject: [PATCH 17/32] fix: incomplete_gamma_inv took each Halley step with
 the previous iterate's derivative and ran off to NaN for small a and p near
 one

---
 include/gcem_incl/incomplete_gamma_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index e5976d0..1fa09f6 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -192,7 +192,7 @@ noexcept
     return( iter_count <= GCEM_INCML_GAMMA_INV_MAX_ITER ? \
             // if
                 incomplete_gamma_inv_recur(value-direc,a,p,
-                    incomplete_gamma_inv_deriv_1(value,a,lg_val),
+                    incomplete_gamma_inv_deriv_1(value-direc,a,lg_val),
                     lg_val,iter_count+1) :
             // else 
                 value - direc );
-- 
2.43.0


From 858c9b36e838228ef0947a5e93f8609570555c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:39 +0000
Subject: [PATCH 18/32] fix: incomplete_gamma cut the integration range too
 short for a between 10 and 100, losing up to 1.2e-4

---
 include/gcem_incl/incomplete_gamma.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 9ee4146..83c0e31 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -90,7 +90,7 @@ noexcept
             a > T(40)   ? max(T(0),min(z,a) -  6*sqrt(a)) :
             a > T(30)   ? max(T(0),min(z,a) -  5*sqrt(a)) :
             // else
-                max(T(0),min(z,a)-4*sqrt(a)) );
+                max(T(0),min(z,a)-5*sqrt(a)) );
 }
 
 template<typename T>
@@ -103,12 +103,12 @@ noexcept
             a > T(800)  ? min(z, a + 10*sqrt(a)) :
             a > T(500)  ? min(z, a + 9*sqrt(a))  :
             a > T(300)  ? min(z, a + 9*sqrt(a))  : 
-            a > T(100)  ? min(z, a + 8*sqrt(a))  :
-            a > T(90)   ? min(z, a + 8*sqrt(a))  :
-            a > T(70)   ? min(z, a + 7*sqrt(a))  :
-            a > T(50)   ? min(z, a + 6*sqrt(a))  :
+            a > T(100)  ? min(z, a + 10*sqrt(a)) :
+            a > T(90)   ? min(z, a + 10*sqrt(a)) :
+            a > T(70)   ? min(z, a + 10*sqrt(a)) :
+            a > T(50)   ? min(z, a + 11*sqrt(a)) :
             // else
-                min(z, a + 5*sqrt(a)) );
+                min(z, a + 11*sqrt(a)) );
 }
 
 template<typename T>
-- 
2.43.0


From 64bc0edea54f8790e1b5004034d953536f381ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:11 +0000
Subject: [PATCH 19/32] fix: lgamma and tgamma of +infinity were NaN

---
 include/gcem_incl/lgamma.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 507c6d4..05471ef 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -105,6 +105,9 @@ noexcept
                 T(0) :
             GCLIM<T>::min() > x ? \
                 GCLIM<T>::infinity() :
+            // positive infinity
+            is_posinf(x) ? \
+                GCLIM<T>::infinity() :
             // else
                 lgamma_begin(x - T(1)) );
 }
-- 
2.43.0


From df420f5c13db6940700dab5bcf2b29e814222313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:11 +0000
Subject: [PATCH 20/32] fix: tgamma recursed without end for -infinity and
 large negative arguments

---
 include/gcem_incl/tgamma.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index deffd3a..4150364 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -44,9 +44,12 @@ noexcept
                 GCLIM<T>::infinity() :
             // negative numbers
             x < T(0) ? \
-                // check for integer
-                GCLIM<T>::min() > abs(x - find_whole(x)) ? \
+                // check for integer or -inf
+                !is_finite(x) || x == trunc(x) ? \
                     GCLIM<T>::quiet_NaN() :
+                // indistinguishable from zero
+                x < - T(GCLIM<T>::max_exponent10 + 32) ? \
+                    T(0) :
                 // else
                 tgamma_check(x+T(1)) / x :
 
-- 
2.43.0


From c9ac2c053f66439ac49e12236633567f7c1c74ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:11 +0000
Subject: [PATCH 21/32] fix: fmod by an infinity was NaN instead of the first
 argument

---
 include/gcem_incl/fmod.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/fmod.hpp b/include/gcem_incl/fmod.hpp
index 02459ef..3218aa7 100644
--- a/include/gcem_incl/fmod.hpp
+++ b/include/gcem_incl/fmod.hpp
@@ -34,8 +34,10 @@ noexcept
             any_nan(x, y) ? \
                 GCLIM<T>::quiet_NaN() :
             // +/- infinite
-            !all_finite(x, y) ? \
+            !is_finite(x) ? \
                 GCLIM<T>::quiet_NaN() :
+            !is_finite(y) ? \
+                x :
             // else
                 x - trunc(x/y)*y );
 }
-- 
2.43.0


From 05350e63cc4a796b1ca9c05eb07068ae47ff6c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:11 +0000
Subject: [PATCH 22/32] fix: incomplete_gamma at infinity was NaN instead of
 one

---
 include/gcem_incl/incomplete_gamma.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 83c0e31..ed30394 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -199,6 +199,8 @@ noexcept
             //
             GCLIM<T>::min() > a ? \
                 T(1) : 
+            is_finite(a) && is_posinf(z) ? \
+                T(1) :
             // cf or quadrature
             (a < T(10)) && (z - a < T(10)) ?
                 incomplete_gamma_cf_1(a,z) :
-- 
2.43.0


From 11a9d2efc487789f1fb3be861506d8000e598482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:11 +0000
Subject: [PATCH 23/32] fix: lmgamma recursed without end for a NaN order

---
 include/gcem_incl/lmgamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/lmgamma.hpp b/include/gcem_incl/lmgamma.hpp
index 58915dc..14d8783 100644
--- a/include/gcem_incl/lmgamma.hpp
+++ b/include/gcem_incl/lmgamma.hpp
@@ -37,7 +37,7 @@ lmgamma_recur(const T1 a, const T2 p)
 noexcept
 {
     return( // NaN check
-            is_nan(a) ? \
+            any_nan(a, p) ? \
                 GCLIM<T1>::quiet_NaN() :
             //
             p == T2(1) ? \
-- 
2.43.0


From 68d71986486d31a0ce971537ea1fdfd7cc8e7d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:40 +0000
Subject: [PATCH 24/32] fix: atan2 of negative zero and a negative number had
 the wrong sign

---
 include/gcem_incl/atan2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan2.hpp b/include/gcem_incl/atan2.hpp
index 5ca55b7..f955b6e 100644
--- a/include/gcem_incl/atan2.hpp
+++ b/include/gcem_incl/atan2.hpp
@@ -48,7 +48,7 @@ noexcept
                     T(GCEM_HALF_PI) : - T(GCEM_HALF_PI) :
             //
             x < T(0) ? \
-                y < T(0) ? \
+                y < T(0) || neg_zero(y) ? \
                     atan(y/x) - T(GCEM_PI) : 
                     atan(y/x) + T(GCEM_PI) :
             //
-- 
2.43.0


From 4e84c6ff4a228114a2be4793a369423df246643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:40 +0000
Subject: [PATCH 25/32] fix: atan2 of two infinities was NaN

---
 include/gcem_incl/atan2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/atan2.hpp b/include/gcem_incl/atan2.hpp
index f955b6e..dfb4082 100644
--- a/include/gcem_incl/atan2.hpp
+++ b/include/gcem_incl/atan2.hpp
@@ -46,6 +46,9 @@ noexcept
                         neg_zero(x) ?   T(GCEM_PI) :   T(0) :
                 y > T(0) ? \
                     T(GCEM_HALF_PI) : - T(GCEM_HALF_PI) :
+            // both infinite
+            is_inf(x) && is_inf(y) ? \
+                copysign( x < T(0) ? T(3) * T(GCEM_HALF_PI) / T(2) : T(GCEM_HALF_PI) / T(2), y ) :
             //
             x < T(0) ? \
                 y < T(0) || neg_zero(y) ? \
-- 
2.43.0


From 20f59af06f15b227c1287eb939ffbc5317c2c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:40 +0000
Subject: [PATCH 26/32] fix: lbeta of mixed or integral arguments was computed
 in the arguments' own types and overflowed

---
 include/gcem_incl/lbeta.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lbeta.hpp b/include/gcem_incl/lbeta.hpp
index 60c87b4..6b3ac40 100644
--- a/include/gcem_incl/lbeta.hpp
+++ b/include/gcem_incl/lbeta.hpp
@@ -21,6 +21,29 @@
 #ifndef _gcem_lbeta_HPP
 #define _gcem_lbeta_HPP
 
+namespace internal
+{
+
+template<typename T>
+constexpr
+T
+lbeta_compute(const T a, const T b)
+noexcept
+{
+    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+}
+
+template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
+constexpr
+TC
+lbeta_type_check(const T1 a, const T2 b)
+noexcept
+{
+    return lbeta_compute(static_cast<TC>(a),static_cast<TC>(b));
+}
+
+}
+
 /**
  * Compile-time log-beta function
  *
@@ -36,7 +59,7 @@ common_return_t<T1,T2>
 lbeta(const T1 a, const T2 b)
 noexcept
 {
-    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+    return internal::lbeta_type_check(a,b);
 }
 
 #endif
-- 
2.43.0


From d02636f3fccf903ce67dcb82341dfd98568451cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:40 +0000
Subject: [PATCH 27/32] fix: incomplete_beta_inv of integral arguments computed
 and returned an integer

---
 include/gcem_incl/incomplete_beta_inv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 9f575a3..745669d 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -310,7 +310,7 @@ noexcept
                     alpha_par,beta_par,p,lbeta(alpha_par,beta_par)) );
 }
 
-template<typename T1, typename T2, typename T3, typename TC = common_t<T1,T2,T3>>
+template<typename T1, typename T2, typename T3, typename TC = common_return_t<T1,T2,T3>>
 constexpr
 TC
 incomplete_beta_inv_type_check(const T1 a, const T2 b, const T3 p)
@@ -342,7 +342,7 @@ noexcept
 
 template<typename T1, typename T2, typename T3>
 constexpr
-common_t<T1,T2,T3>
+common_return_t<T1,T2,T3>
 incomplete_beta_inv(const T1 a, const T2 b, const T3 p)
 noexcept
 {
-- 
2.43.0


From 5e14c5a2cc60eab43a7222b3b21fae1774bae91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:41 +0000
Subject: [PATCH 28/32] fix: pow of zero or infinity to the floating power
 zero, and of one to an infinite power, was NaN

---
 include/gcem_incl/pow.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 701314c..d4a67bb 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -34,7 +34,14 @@ T
 pow_dbl(const T base, const T exp_term)
 noexcept
 {
-    return exp(exp_term*log(base));
+    return( // NaN check
+            any_nan(base, exp_term) ? \
+                GCLIM<T>::quiet_NaN() :
+            // zero times infinity in exp_term*log(base)
+            exp_term == T(0) || base == T(1) ? \
+                T(1) :
+            // else
+                exp(exp_term*log(base)) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>, 
-- 
2.43.0


From 9ef98bd7b0f274b5bf5e27c702c45ef1727b2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:55 +0000
Subject: [PATCH 29/32] fix: atan2 of a subnormal y and a negative subnormal x
 lay in the wrong half plane

---
 include/gcem_incl/atan2.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gcem_incl/atan2.hpp b/include/gcem_incl/atan2.hpp
index dfb4082..d437e0a 100644
--- a/include/gcem_incl/atan2.hpp
+++ b/include/gcem_incl/atan2.hpp
@@ -41,9 +41,9 @@ noexcept
             GCLIM<T>::min() > abs(x) ? \
             //
                 GCLIM<T>::min() > abs(y) ? \
-                    neg_zero(y) ? \
-                        neg_zero(x) ? - T(GCEM_PI) : - T(0) :
-                        neg_zero(x) ?   T(GCEM_PI) :   T(0) :
+                    signbit(y) ? \
+                        signbit(x) ? - T(GCEM_PI) : - T(0) :
+                        signbit(x) ?   T(GCEM_PI) :   T(0) :
                 y > T(0) ? \
                     T(GCEM_HALF_PI) : - T(GCEM_HALF_PI) :
             // both infinite
-- 
2.43.0


From 8684c2e5e1117d293a97acd049102e50f7d32d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 30/32] fix: gcd and lcm of two short or char arguments did not
 compile

---
 include/gcem_incl/gcd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/gcd.hpp b/include/gcem_incl/gcd.hpp
index 1e277fb..2fc2fde 100644
--- a/include/gcem_incl/gcd.hpp
+++ b/include/gcem_incl/gcd.hpp
@@ -30,7 +30,7 @@ T
 gcd_recur(const T a, const T b)
 noexcept
 {
-    return( b == T(0) ? a : gcd_recur(b, a % b) );
+    return( b == T(0) ? a : gcd_recur(b, static_cast<T>(a % b)) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
-- 
2.43.0


From e8efcdfcb8973d770540565e9b12230412b6f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 31/32] fix: pow of two short or char arguments did not compile

---
 include/gcem_incl/pow_integral.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index d86cd40..853dab2 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -42,8 +42,8 @@ noexcept
 {
     return( exp_term > T2(1) ? \
                 (is_odd(exp_term) ? \
-                    pow_integral_compute_recur(base*base,val*base,exp_term/2) :
-                    pow_integral_compute_recur(base*base,val,exp_term/2)) :
+                    pow_integral_compute_recur(static_cast<T1>(base*base),static_cast<T1>(val*base),exp_term/2) :
+                    pow_integral_compute_recur(static_cast<T1>(base*base),val,exp_term/2)) :
                 (exp_term == T2(1) ? val*base : val) );
 }
 
-- 
2.43.0


From a09852c94f6a2b2a987ee5933ed84fc7fc26f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 32/32] fix: binomial_coef of two short or char arguments did
 not compile

---
 include/gcem_incl/binomial_coef.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/binomial_coef.hpp b/include/gcem_incl/binomial_coef.hpp
index 0fc17f3..ad6110c 100644
--- a/include/gcem_incl/binomial_coef.hpp
+++ b/include/gcem_incl/binomial_coef.hpp
@@ -34,7 +34,7 @@ noexcept
                 (k == T(0) || n == k) ? T(1) : // deals with 0 choose 0 case
                 n == T(0) ? T(0) :
             // else
-                binomial_coef_recur(n-1,k-1) + binomial_coef_recur(n-1,k) );
+                binomial_coef_recur(static_cast<T>(n-1),static_cast<T>(k-1)) + binomial_coef_recur(static_cast<T>(n-1),k) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
-- 
2.43.0

