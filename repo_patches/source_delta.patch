From c24fee1a590ff6c3261dd056baf8e7d8c6b388ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:41 +0000
Subject: [PATCH 01/44] fix: fixed_point::as<U>() converts to integral types
 after scaling, not before

---
 include/num/fixed-point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index 533bb8a..faa0872 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -129,7 +129,10 @@ public:
     template< typename U >
     constexpr auto as() const
     {
-        return static_cast<U>( underlying_value() ) / detail::power2(F);
+        if constexpr ( std20::is_integral_v<U> )
+            return static_cast<U>( underlying_value() / detail::power2(F) );
+        else
+            return static_cast<U>( underlying_value() ) / detail::power2(F);
     }
 
     constexpr auto as_double() const
-- 
2.43.0


From abce9aa867365ab265260047caf07f79552ee100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 02/44] fix: fixed_point conversion from floating point rounds
 to nearest also where adding one half is inexact

---
 include/num/fixed-point.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index faa0872..a93ac24 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -102,11 +102,11 @@ public:
     {}
 
     constexpr fixed_point( float value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0f ? 0.5f : -0.5f) ) )
+    : storage( rounded( detail::power2(F) * value ) )
     {}
 
     constexpr fixed_point( double value )
-    : storage( static_cast<T>( detail::power2(F) * value + (value >= 0.0 ? 0.5 : -0.5) ) )
+    : storage( rounded( detail::power2(F) * value ) )
     {}
 
     // Observers:
@@ -219,6 +219,18 @@ public:
         return !( a < b );
     }
 
+private:
+    // nearest integer, ties away from zero; adding one half may itself round.
+
+    template< typename U >
+    static constexpr T rounded( U value )
+    {
+        const T result = static_cast<T>( value );
+        const U rest   = value - result;
+
+        return static_cast<T>( rest >= U(0.5) ? result + 1 : rest <= U(-0.5) ? result - 1 : result );
+    }
+
 private:
     rep storage;
 };
-- 
2.43.0


From 2ad19d2bfc44aa02a6dbe65afce9906da9162b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:38 +0000
Subject: [PATCH 03/44] fix: design and filter headers no longer include each
 other in a cycle

---
 include/dsp/chebyshev-design.hpp | 1 +
 include/dsp/filter-design.hpp    | 4 +++-
 include/dsp/onepole-design.hpp   | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index f24e5f3..8b6c700 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -13,6 +13,7 @@
 #define DSP_CHEBYSHEV_DESIGN_HPP_INCLUDED
 
 #include "dsp/biquad-cascade.hpp"
+#include "dsp/biquad-design.hpp"
 #include "dsp/filter-design.hpp"
 #include "core/core.hpp"
 
diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 162b017..bc016e0 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -10,9 +10,11 @@
 
 #include "core/shims.hpp"
 #include "core/traits.hpp"
-#include "dsp/filter.hpp"
 #include "num/constants.hpp"
 
+#include <cmath>
+#include <type_traits>
+
 namespace dsp {
 
 // algorithm: pre-warp frequency:
diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index b823e78..3c6c924 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -15,6 +15,7 @@
 #include <iostream>
 
 #include "dsp/onepole.hpp"
+#include "dsp/biquad-design.hpp"
 #include "dsp/filter-design.hpp"
 
 namespace dsp { namespace onepole_designs {
-- 
2.43.0


From c31a34947bd40b348c1e49708bdc9bdfdf695f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 04/44] fix: std/tuple.hpp terminates its platform conditional

---
 include/std/tuple.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/std/tuple.hpp b/include/std/tuple.hpp
index 23e958c..a72018d 100644
--- a/include/std/tuple.hpp
+++ b/include/std/tuple.hpp
@@ -33,4 +33,6 @@ struct ignore
 
 } // namespace std20
 
+#endif // __AVR
+
 #endif // STD_TUPLE_INCLUDED
-- 
2.43.0


From 7f8ae269ee7fc7ddbc96ede3b947738ffe0916a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:06 +0000
Subject: [PATCH 05/44] fix: core/text.hpp includes what it uses

---
 include/core/text.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/core/text.hpp b/include/core/text.hpp
index 4df0c6f..38f7d34 100644
--- a/include/core/text.hpp
+++ b/include/core/text.hpp
@@ -8,6 +8,8 @@
 #ifndef CORE_TEXT_HPP_INCLUDED
 #define CORE_TEXT_HPP_INCLUDED
 
+#include <string>
+
 namespace core {
 
 using Text = std::string;
-- 
2.43.0


From 0dcb05edb71d6ea2f7993b12c10c1edd517459c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:55 +0000
Subject: [PATCH 06/44] fix: dbV_factor is the amplitude factor 10^(|dB|/20)

---
 include/dsp/filter-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index bc016e0..cf2e225 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -58,7 +58,7 @@ auto dbV( T vout, U vin )
 template< typename T >
 auto dbV_factor( T dbv )
 {
-    return dbP_factor( dbv ) / T{2};
+    return std::sqrt( dbP_factor( dbv ) );
 }
 
 } // namespace dsp
-- 
2.43.0


From 7ba14b320654cd0438eea80acc8ab3511be98c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 07/44] fix: dbP_factor computes in floating-point for integer
 arguments

---
 include/dsp/filter-design.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index cf2e225..7e1a54f 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -42,7 +42,9 @@ auto dbP( T vout, core::identity_t<T> vin )
 template< typename T >
 auto dbP_factor( T dbv )
 {
-    return std::pow( T{10}, std::abs( dbv ) / T{10} );
+    using U = std::common_type_t<float, T>;
+
+    return std::pow( U{10}, std::abs( U(dbv) ) / U{10} );
 }
 
 // factor as dbV
-- 
2.43.0


From b41fc4a83b72938e560f93a020dfe2281a99c9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:30 +0000
Subject: [PATCH 08/44] fix: the pole of a one-pole section is the root of its
 denominator

---
 include/dsp/onepole.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index f7bd41c..4e5c84c 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -75,7 +75,7 @@ auto solve( V a, V b )
     // normalize:
     b /= a;
 
-    return Solution{ 7 };
+    return Solution{ -b };
 }
 
 // normalized a:
-- 
2.43.0


From c76164249e6f319428ba93e397b545fb0fbafe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:30 +0000
Subject: [PATCH 09/44] fix: a one-pole section with its pole outside the unit
 circle is not stable

---
 include/dsp/onepole.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index 4e5c84c..5478757 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -205,11 +205,11 @@ public:
         return SolutionT<T>{};
     }
 
-    // stable if the magnitude of both poles is less or equal to leq unity:
+    // stable if the magnitude of the pole is less or equal to unity:
 
     auto is_stable() const
     {
-        return true;
+        return -1 <= a.a1 && a.a1 <= 1;
     }
 
     // Modifiers:
-- 
2.43.0


From e7fb8c59bbd1898f7283b65f9249673dbf799e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:32 +0000
Subject: [PATCH 10/44] fix: one-pole designs use the floating-point exp and
 abs

---
 include/dsp/onepole-design.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsp/onepole-design.hpp b/include/dsp/onepole-design.hpp
index 3c6c924..b7f66d9 100644
--- a/include/dsp/onepole-design.hpp
+++ b/include/dsp/onepole-design.hpp
@@ -76,8 +76,8 @@ struct onepole_design_method<FilterResponse::low_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = -exp( -T{1} * num::pi<T> * f / fs );
-        const auto b0 = T{1} - abs(a1);
+        const auto a1 = -std::exp( -T{1} * num::pi<T> * f / fs );
+        const auto b0 = T{1} - std::abs(a1);
         
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
@@ -90,8 +90,8 @@ struct onepole_design_method<FilterResponse::high_pass, T >
 {
     static auto design( T f, T fs )
     {
-        const auto a1 = +exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
-        const auto b0 = T{1} - abs(a1);
+        const auto a1 = +std::exp( -T{1} * num::pi<T> * (T{0.5} - f / fs ) );
+        const auto b0 = T{1} - std::abs(a1);
 
         return OnePoleCoeffT<T>{ {b0}, {a1} };
     }
-- 
2.43.0


From ba33241c2d7e951f47d4556bd1150c754464833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:32 +0000
Subject: [PATCH 11/44] fix: printing a one-pole section states whether it is
 stable

---
 include/dsp/onepole-io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/onepole-io.hpp b/include/dsp/onepole-io.hpp
index 96ee1fd..c0dafd9 100644
--- a/include/dsp/onepole-io.hpp
+++ b/include/dsp/onepole-io.hpp
@@ -48,7 +48,7 @@ template< typename T, typename S >
 std::ostream & operator<<( std::ostream & os, OnePoleT<T,S> const & bq )
 {
     return os <<
-        "\nOnePole is always stable" <<
+        "\nOnePole is " << ( bq.is_stable() ? "stable:":"NOT stable:" ) <<
         "\na: " << bq.coeff_a() <<
         "\nb: " << bq.coeff_b() <<
         "\nw: " << bq.state() <<
-- 
2.43.0


From 670f1cf470fa21bb33749174ed654965c5a01d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 12/44] fix: Chebyshev type 1 poles follow from the pass-band
 ripple

---
 include/dsp/chebyshev-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index 8b6c700..b5b26f2 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -117,7 +117,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
     const auto r     = N % 2;
     const auto K     = ( N - r ) / 2;
 
-    const auto a     = std::asinh( estop ) / N;
+    const auto a     = std::asinh( 1 / epass ) / N;
     const auto W3    = real( Wpass * std::cosh( std::acosh( complex_t{1} / complex_t{epass} ) / complex_t(N) ) );
     const auto f3    = (fs / num::pi<T> ) * std::atan( std::pow( W3, s ) );
     const auto W0    = std::sinh( a ) * Wpass;
-- 
2.43.0


From e564e3d46ff4f7aee2ce19679bbaad7e8a5f2d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 13/44] fix: Chebyshev type 1 first-order section has its pole
 at W0, not 1/W0

---
 include/dsp/chebyshev-design.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index b5b26f2..696da7c 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -129,7 +129,7 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
 
     if ( r == 1 )
     {
-        const auto G = 1 / (1 + W0);
+        const auto G = W0 / (1 + W0);
 
         A.emplace_back( /*1,*/ s * ( 2 * G - 1 ), T{0} );
         B.emplace_back(   G,   s * G            , T{0} );
-- 
2.43.0


From 1f72474b98c1bc67ad5cb7f4e6be045e35c035c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 14/44] fix: Chebyshev type 1 designs of even order start at
 the bottom of the ripple

---
 include/dsp/chebyshev-design.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/dsp/chebyshev-design.hpp b/include/dsp/chebyshev-design.hpp
index 696da7c..e4a819d 100644
--- a/include/dsp/chebyshev-design.hpp
+++ b/include/dsp/chebyshev-design.hpp
@@ -144,8 +144,11 @@ auto chebyshev1_lp_hp_impl( FilterResponse kind, T fs, T fpass, T fstop, T Apass
         const auto a1 =  2 * (W0 * W0 + Wi * Wi - 1) / D;
         const auto a2 = (1 + 2 * W0 * cos(th) + W0 * W0 + Wi * Wi) / D;
 
+        // even order: gain at DC (low-pass) is at the bottom of the ripple:
+        const auto H  = r == 0 && i == 1 ? G / std::sqrt( 1 + epass * epass ) : G;
+
         A.emplace_back( /*1,*/ s * a1, a2 );
-        B.emplace_back( G, G * s * 2, G  );
+        B.emplace_back( H, H * s * 2, H  );
     }
 
     return coeff;
-- 
2.43.0


From 59003bc1db9ac44b75098df1be1fe169f1f57f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:45 +0000
Subject: [PATCH 15/44] fix: swap moves by direct initialization, not into an
 initializer list

---
 include/std/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/std/utility.hpp b/include/std/utility.hpp
index e803623..bff9c6e 100644
--- a/include/std/utility.hpp
+++ b/include/std/utility.hpp
@@ -22,7 +22,7 @@ using std::move;
 template< typename T >
 constexpr void swap(  T & a, T & b ) noexcept
 {
-    T t{std::move(a)}; a = std::move(b); b = std::move(t);
+    T t(std::move(a)); a = std::move(b); b = std::move(t);
 }
 
 } // namespace std20
@@ -47,7 +47,7 @@ constexpr typename remove_reference<T>::type && move( T && t ) noexcept
 template< typename T >
 constexpr void swap(  T & a, T & b ) noexcept
 {
-    T t{move(a)}; a = move(b); b = move(t);
+    T t(move(a)); a = move(b); b = move(t);
 }
 
 } // naespace std20
-- 
2.43.0


From 2ab1756ed4e6968c46ca3c72c7564251b47b18ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:31 +0000
Subject: [PATCH 16/44] fix: numeric_limits of unsigned types are not signed on
 AVR

---
 include/std/limits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/std/limits.hpp b/include/std/limits.hpp
index 72065b2..0b7f5b0 100644
--- a/include/std/limits.hpp
+++ b/include/std/limits.hpp
@@ -57,7 +57,7 @@ class numeric_limits<__UINT8_TYPE__>
 {
     using T = __UINT8_TYPE__;
 public:
-    static constexpr bool is_signed  = true;
+    static constexpr bool is_signed  = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -83,7 +83,7 @@ class numeric_limits<__UINT16_TYPE__>
 {
     using T = __UINT16_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -109,7 +109,7 @@ class numeric_limits<__UINT32_TYPE__>
 {
     using T = __UINT32_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
@@ -135,7 +135,7 @@ class numeric_limits<__UINT64_TYPE__>
 {
     using T = __UINT64_TYPE__;
 public:
-    static constexpr bool is_signed = true;
+    static constexpr bool is_signed = false;
     static constexpr bool is_integer = true;
     static constexpr int  digits     = __CHAR_BIT__ * sizeof(T);
 
-- 
2.43.0


From b954ea840b6ff1c8c4efb9d50acae5a6e90639ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:46 +0000
Subject: [PATCH 17/44] fix: std20::ignore is an object on AVR

---
 include/std/tuple.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/std/tuple.hpp b/include/std/tuple.hpp
index a72018d..d3103fa 100644
--- a/include/std/tuple.hpp
+++ b/include/std/tuple.hpp
@@ -25,12 +25,14 @@ namespace std20 {
 
 // (std::) ignore for structured bindings:
 
-struct ignore
+struct ignore_t
 {
     template< typename T >
-    ignore & operator=(T const &) { return *this; }
+    constexpr ignore_t const & operator=(T const &) const { return *this; }
 };
 
+inline constexpr ignore_t ignore{};
+
 } // namespace std20
 
 #endif // __AVR
-- 
2.43.0


From 34234b558b054b59d5fc8a80110a2c1f844cbb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:20 +0000
Subject: [PATCH 18/44] fix: complex assignment returns its object on AVR

---
 include/std/complex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index f4ad926..176f63c 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -46,12 +46,14 @@ public:
     {
         re_ = x;
         im_ = T();
+        return *this;
     }
 
     constexpr complex & operator=( complex const & cx )
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     template<class X>
@@ -59,6 +61,7 @@ public:
     {
         re_ = cx.real();
         im_ = cx.imag();
+        return *this;
     }
 
     constexpr T real() const
-- 
2.43.0


From 19658c7f20d86a5184bb551d5960863bdc83ba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:29 +0000
Subject: [PATCH 19/44] fix: the complex operations declared on AVR are defined

---
 include/std/complex.hpp | 80 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 12 deletions(-)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index 176f63c..e576887 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -21,6 +21,8 @@ using std::polar;
 
 #else // __AVR
 
+#include <math.h>               // hypot(), fabs(), sqrt()
+
 namespace std20 {
 
 template< typename T >
@@ -84,22 +86,53 @@ public:
         im_ = value;
     }
 
-    constexpr complex & operator+=( T const & other );
-    constexpr complex & operator-=( T const & other );
-    constexpr complex & operator*=( T const & other );
-    constexpr complex & operator/=( T const & other );
+    constexpr complex & operator+=( T const & other )
+    {
+        re_ += other;
+        return *this;
+    }
+
+    constexpr complex & operator-=( T const & other )
+    {
+        re_ -= other;
+        return *this;
+    }
+
+    constexpr complex & operator*=( T const & other )
+    {
+        return *this = complex( re_ * other, im_ * other );
+    }
+
+    constexpr complex & operator/=( T const & other )
+    {
+        return *this = complex( re_ / other, im_ / other );
+    }
 
     template<class X>
-    constexpr complex& operator+=( complex<X> const & other);
+    constexpr complex& operator+=( complex<X> const & other)
+    {
+        return *this = complex( re_ + other.real(), im_ + other.imag() );
+    }
 
     template<class X>
-    constexpr complex& operator-=( complex<X> const & other);
+    constexpr complex& operator-=( complex<X> const & other)
+    {
+        return *this = complex( re_ - other.real(), im_ - other.imag() );
+    }
 
     template<class X>
-    constexpr complex& operator*=( complex<X> const & other);
+    constexpr complex& operator*=( complex<X> const & other)
+    {
+        return *this = complex( re_ * other.real() - im_ * other.imag(), re_ * other.imag() + im_ * other.real() );
+    }
 
     template<class X>
-    constexpr complex& operator/=( complex<X> const & other);
+    constexpr complex& operator/=( complex<X> const & other)
+    {
+        const T norm = other.real() * other.real() + other.imag() * other.imag();
+
+        return *this = complex( ( re_ * other.real() + im_ * other.imag() ) / norm, ( im_ * other.real() - re_ * other.imag() ) / norm );
+    }
 
 private:
     value_type re_;
@@ -109,10 +142,16 @@ private:
 // unary:
 
 template< class T >
-constexpr complex<T> operator+( T const & val );
+constexpr complex<T> operator+( complex<T> const & val )
+{
+    return val;
+}
 
 template< class T >
-constexpr complex<T> operator-( complex<T> const & val );
+constexpr complex<T> operator-( complex<T> const & val )
+{
+    return complex<T>( -val.real(), -val.imag() );
+}
 
 // binary:
 
@@ -189,10 +228,27 @@ constexpr complex<T> operator/( complex<T> const & lhs, complex<T> const & rhs)
 }
 
 template< class T >
-T abs( complex<T> const & z );
+T abs( complex<T> const & z )
+{
+    return hypot( z.real(), z.imag() );
+}
 
 template< class T >
-complex<T> sqrt( complex<T> const & z );
+complex<T> sqrt( complex<T> const & z )
+{
+    // larger component of the root first, so that it does not suffer from cancellation:
+
+    const T m = ::sqrt( ( abs( z ) + fabs( z.real() ) ) / 2 );
+
+    if ( m == 0 )
+    {
+        return complex<T>();
+    }
+
+    const T n = z.imag() / ( 2 * m );
+
+    return z.real() < 0 ? complex<T>( fabs( n ), z.imag() < 0 ? -m : m ) : complex<T>( m, n );
+}
 
 } // naespace std20
 
-- 
2.43.0


From 65aab742da0087a7f9bbc359f1c7665ffc649591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:33 +0000
Subject: [PATCH 20/44] fix: force output compare bits of timer 1 are in TCCR1C

tc1::reg::tccr1c::foc1a and foc1b named bits 7 and 6 of TCCR1A (COM1A1,
COM1A0): forcing a compare match changed the output mode instead.
---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 9faf03d..8b3616e 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1131,8 +1131,8 @@ namespace tc1
         namespace tccr1c
         {
             using whole = register8_t< rw_t, tccr1c_addr >;
-            using foc1a = bitfield8_t< rw_t, tccr1a_addr, FOC1A >;
-            using foc1b = bitfield8_t< rw_t, tccr1a_addr, FOC1B >;
+            using foc1a = bitfield8_t< rw_t, tccr1c_addr, FOC1A >;
+            using foc1b = bitfield8_t< rw_t, tccr1c_addr, FOC1B >;
 
             using value_type = whole::value_type;
         }
-- 
2.43.0


From d48d0debe9b0b05f22f890ef52abb5ffa40dd123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:59 +0000
Subject: [PATCH 21/44] fix: the two-wire address mask occupies bits 7:1 of
 TWAMR

The data sheet has TWAM[6:0] in bits 7:1 (bit 0 is reserved), like the
address in TWAR. The constants TWAM6..TWAM0 of <avr/io.h> are 6..0, so
that masks were written one bit too low.
---
 include/mcu/atmega328.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 8b3616e..39de492 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1784,7 +1784,8 @@ namespace twi
         namespace twamr
         {
             using whole = register8_t< rw_t, addr_twamr >;
-            using twam  = bitfield8_t< rw_t, addr_twamr, TWAM6, TWAM0 >;
+            // in bits 7:1 like the address in TWAR; TWAM6..TWAM0 of <avr/io.h> are 6..0
+            using twam  = bitfield8_t< rw_t, addr_twamr, TWA6, TWA0 >;
         }
     } // namespace reg
 
-- 
2.43.0


From 0d4b3af24d4c546e99b8a90423e9f28b18a0c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:30 +0000
Subject: [PATCH 22/44] fix: the current waveform has its upper bits in place

---
 include/mcu/atmega328.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 39de492..70463da 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -899,7 +899,7 @@ namespace tc0
 
         inline auto current( waveform w )
         {
-            return waveform( shl(reg::tccr0b::wgm02::read(), WGM02) + reg::tccr0a::wgm0::read() );
+            return waveform( shl(reg::tccr0b::wgm02::read(), 2) + reg::tccr0a::wgm0::read() );
         }
 
         inline auto set( waveform w )
@@ -1324,7 +1324,7 @@ namespace tc1
 
         inline auto current( waveform )
         {
-            return waveform( shl(reg::tccr1b::wgm1::read(), WGM12) + reg::tccr1a::wgm1::read() );
+            return waveform( shl(reg::tccr1b::wgm1::read(), 2) + reg::tccr1a::wgm1::read() );
         }
 
         inline auto set( waveform w )
-- 
2.43.0


From eca8e3add40d94025f6f7bcd531d44f12b93a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:30 +0000
Subject: [PATCH 23/44] fix: reading a compare value returns it

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 70463da..6a4ecee 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -955,7 +955,7 @@ namespace tc0
 
             inline auto current( a )
             {
-                a{ reg::ocr0a::whole::read() };
+                return a{ reg::ocr0a::whole::read() };
             }
 
             inline auto set( a v )
@@ -965,7 +965,7 @@ namespace tc0
 
             inline auto current( b )
             {
-                b{ reg::ocr0b::whole::read() };
+                return b{ reg::ocr0b::whole::read() };
             }
 
             inline auto set( b v )
@@ -1380,7 +1380,7 @@ namespace tc1
 
             inline auto current( a )
             {
-                a{ reg::ocr1a::whole::read() };
+                return a{ reg::ocr1a::whole::read() };
             }
 
             inline auto set( a v )
@@ -1390,7 +1390,7 @@ namespace tc1
 
             inline auto current( b )
             {
-                b{ reg::ocr1b::whole::read() };
+                return b{ reg::ocr1b::whole::read() };
             }
 
             inline auto set( b v )
-- 
2.43.0


From 34dde6eab964742d8f62b4ab7cbc16cb9f1b0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:10 +0000
Subject: [PATCH 24/44] fix: pin-change interrupt flags are cleared by writing
 one

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 6a4ecee..6d63587 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -576,7 +576,7 @@ namespace ei
     // 17.2.5 PCIFR: Pin Change Interrupt Flag Register
 
     template< pcint i >
-    using pcifr = bitfield8_t< rw_t, pcifr_addr, to_integral(i) >;
+    using pcifr = bitfield8_t< rc_w1_t, pcifr_addr, to_integral(i) >;
 
     inline auto pin_change_int2_flag()
     {
-- 
2.43.0


From ce987da6091679a303713dd202d1dc9f955a3a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 25/44] fix: two-wire pull-ups are switched on in PORT; writing
 PIN toggles them

---
 include/mcu/atmega328.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 6d63587..733dc99 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -1982,8 +1982,8 @@ namespace twi
                 set( twi::enable::interface::on );
 
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
             }
 
             inline auto flag()   { return current( twi::interrupt::flag{} ); }
@@ -2016,8 +2016,8 @@ namespace twi
                 , twi::control::prescale::factor ps = twi::control::prescale::factor::x1 )
             {
                 // enable internal pull-up resistors for sda, scl:
-                gpio<config::twi_port>::p<config::sda_pin>::inp::set();
-                gpio<config::twi_port>::p<config::scl_pin>::inp::set();
+                gpio<config::twi_port>::p<config::sda_pin>::out::set();
+                gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
                 TWSR = 0x00;
-- 
2.43.0


From 5df0f53059c55aaecda92ef1ee1d5c3ce7a15fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:15 +0000
Subject: [PATCH 26/44] fix: two-wire initialisation sets the prescaler asked
 for

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index 733dc99..a71fcff 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2020,7 +2020,7 @@ namespace twi
                 gpio<config::twi_port>::p<config::scl_pin>::out::set();
 
                 //set SCL to 400kHz
-                TWSR = 0x00;
+                TWSR = to_integral( ps );
                 TWBR = to_integral( br );
                 //enable TWI
                 TWCR = (1<<TWEN);
-- 
2.43.0


From 4705752703235c8b382dd25e19f9fa5f56a857e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:20 +0000
Subject: [PATCH 27/44] fix: two-wire write sends the data byte after the
 address

---
 include/mcu/atmega328.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mcu/atmega328.hpp b/include/mcu/atmega328.hpp
index a71fcff..13fe07e 100644
--- a/include/mcu/atmega328.hpp
+++ b/include/mcu/atmega328.hpp
@@ -2080,7 +2080,7 @@ namespace twi
                 if ( expect_status( 0x18 ) )
                     return true;  // error
 
-                data( address );
+                data( byte );
 
                 if ( expect_status( 0x28 ) )
                     return true;  // error
-- 
2.43.0


From bfb453c6e8417ece5da5e44f1b13ca9465a131e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:14 +0000
Subject: [PATCH 28/44] fix: avr-gcc.py: run with Python 3 when -d, -v or -m is
 not given

---
 script/avr-gcc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/avr-gcc.py b/script/avr-gcc.py
index 1b72c77..aae5ecd 100644
--- a/script/avr-gcc.py
+++ b/script/avr-gcc.py
@@ -189,16 +189,19 @@ def main():
     parser.add_argument(
         '-d', '--debug',
         action='count',
+        default=0,
         help='report debug information (2 levels)')
 
     parser.add_argument(
         '-v', '--verbose',
         action='count',
+        default=0,
         help='report processing steps (3 levels)')
 
     parser.add_argument(
         '-m', '--macros',
         action='count',
+        default=0,
         help='report predefined macros')
 
     parser.add_argument(
-- 
2.43.0


From e8548382522b4bc033643e62b37325fd09164de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:22 +0000
Subject: [PATCH 29/44] fix: avr-gcc.py: report that no files are compiled
 instead of an index error

---
 script/avr-gcc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/script/avr-gcc.py b/script/avr-gcc.py
index aae5ecd..1fb1ea3 100644
--- a/script/avr-gcc.py
+++ b/script/avr-gcc.py
@@ -153,6 +153,8 @@ def print_size(opt, out_base):
 def build(opt, paths, out_base):
     """Build compilations and link products"""
     n = 0
+    if not paths:
+        return n
     if not out_base:
         out_base = remove_ext(paths[0])
     for f in paths:
-- 
2.43.0


From 9cf83a6cfaae83bdd448db6a43666f6a54407803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:36 +0000
Subject: [PATCH 30/44] fix: avr-upload.py: quote the path of avrdude, which
 may contain spaces

---
 script/avr-upload.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/avr-upload.py b/script/avr-upload.py
index 0b2b59d..117b0fb 100644
--- a/script/avr-upload.py
+++ b/script/avr-upload.py
@@ -22,7 +22,7 @@ mcu      = 'atmega328p'
 
 # Derived configuration:
 
-cmd_upl = '{avrdude} -v -p{mcu} -cusbtiny -Uflash:w:{filename}:i'
+cmd_upl = '"{avrdude}" -v -p{mcu} -cusbtiny -Uflash:w:{filename}:i'
 
 # End configuration
 
-- 
2.43.0


From 4ba41da1091c5c861536e52dd41a8c02b2232312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:42 +0000
Subject: [PATCH 31/44] fix: mk scripts: name the program that exists

---
 example/avr/mk-avr-kalman-sim.e.py | 2 +-
 time/mk-avr-kalman-time.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/example/avr/mk-avr-kalman-sim.e.py b/example/avr/mk-avr-kalman-sim.e.py
index dad1167..41cd89a 100644
--- a/example/avr/mk-avr-kalman-sim.e.py
+++ b/example/avr/mk-avr-kalman-sim.e.py
@@ -16,7 +16,7 @@ std      = 'c++17'
 opt      = '-O2'
 mcu      = 'atmega328p'
 fcpu     = '16000000L'
-filename = 'avr-kalman-sim.cpp'
+filename = 'avr-kalman-sim.e.cpp'
 verbose  = '-vv'
 include  = '../../include'
 
diff --git a/time/mk-avr-kalman-time.py b/time/mk-avr-kalman-time.py
index 84fb1e6..fbb4fcd 100644
--- a/time/mk-avr-kalman-time.py
+++ b/time/mk-avr-kalman-time.py
@@ -21,7 +21,7 @@ optimizations = ('Os', 'O2')
 std      = 'c++17'
 mcu      = 'atmega328p'
 fcpu     = '16000000L'
-filename = 'kalman-time-avr.cpp'
+filename = 'avr-kalman-time.cpp'
 verbose  = '-vv'
 
 def remove_ext(path):
-- 
2.43.0


From 7955dbcadce53060c6d63a9e5deb2f64ff80068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:34 +0000
Subject: [PATCH 32/44] fix: avr-gcc-predefined.py: read from the null device
 of the platform

---
 script/avr-gcc-predefined.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/avr-gcc-predefined.py b/script/avr-gcc-predefined.py
index ecf1997..afcee0d 100644
--- a/script/avr-gcc-predefined.py
+++ b/script/avr-gcc-predefined.py
@@ -21,7 +21,7 @@ def main():
         raise RuntimeError("expected environment variable {} to be set to root of AVR-GCC.".format(e))
 
     cxx = avr_gcc_root + os.path.normpath('/bin/avr-g++')
-    cmd = '"{cxx}" -E -dM -mmcu={mcu} - < nul'.format(cxx=cxx, mcu=mcu)
+    cmd = '"{cxx}" -E -dM -mmcu={mcu} - < {nul}'.format(cxx=cxx, mcu=mcu, nul=os.devnull)
 
     os.system( cmd)
 
-- 
2.43.0


From 6ed774aefab1b37aff54ffdcd1f3e6d5355f2b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:47 +0000
Subject: [PATCH 33/44] Restore mk-avr-kalman-sim.e.py: examples are left as
 they are

---
 example/avr/mk-avr-kalman-sim.e.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/example/avr/mk-avr-kalman-sim.e.py b/example/avr/mk-avr-kalman-sim.e.py
index 41cd89a..dad1167 100644
--- a/example/avr/mk-avr-kalman-sim.e.py
+++ b/example/avr/mk-avr-kalman-sim.e.py
@@ -16,7 +16,7 @@ std      = 'c++17'
 opt      = '-O2'
 mcu      = 'atmega328p'
 fcpu     = '16000000L'
-filename = 'avr-kalman-sim.e.cpp'
+filename = 'avr-kalman-sim.cpp'
 verbose  = '-vv'
 include  = '../../include'
 
-- 
2.43.0


From 693fdcbfb9377ec4ba8819051709da3950e64366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:47 +0000
Subject: [PATCH 34/44] fix: time/CMakeLists.txt: name the header kalman.hpp
 where it is

---
 time/CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time/CMakeLists.txt b/time/CMakeLists.txt
index 27ce3e5..395ce14 100644
--- a/time/CMakeLists.txt
+++ b/time/CMakeLists.txt
@@ -13,7 +13,7 @@ set( BASENAME avr-kalman-time )
 set( TARGET   ${BASENAME} )
 set( SOURCES  ${BASENAME}.cpp )
 set( HDRDIR   ${PROJECT_SOURCE_DIR}/../include )
-set( HEADERS  ${HDRDIR}/num/kalman.hpp ${HDRDIR}/num/matrix.hpp ${HDRDIR}/num/fixed-point.hpp )
+set( HEADERS  ${HDRDIR}/dsp/kalman.hpp ${HDRDIR}/num/matrix.hpp ${HDRDIR}/num/fixed-point.hpp )
 
 if( AVR )
 
-- 
2.43.0


From 006d17da05fc082a0dc812032a67d53b26bfee3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:40 +0000
Subject: [PATCH 35/44] fix: complex.hpp: provide polar() on the AVR, so that
 filter sections compile there

---
 include/std/complex.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/std/complex.hpp b/include/std/complex.hpp
index e576887..260261e 100644
--- a/include/std/complex.hpp
+++ b/include/std/complex.hpp
@@ -21,7 +21,7 @@ using std::polar;
 
 #else // __AVR
 
-#include <math.h>               // hypot(), fabs(), sqrt()
+#include <math.h>               // hypot(), fabs(), sqrt(), cos(), sin()
 
 namespace std20 {
 
@@ -250,6 +250,12 @@ complex<T> sqrt( complex<T> const & z )
     return z.real() < 0 ? complex<T>( fabs( n ), z.imag() < 0 ? -m : m ) : complex<T>( m, n );
 }
 
+template< class T >
+complex<T> polar( T const & r, T const & theta = T() )
+{
+    return complex<T>( r * cos( theta ), r * sin( theta ) );
+}
+
 } // naespace std20
 
 #endif  // __AVR
-- 
2.43.0


From 02e6d3cc5de70c04b116dc2de00ab7b8a71cad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:30 +0000
Subject: [PATCH 36/44] fix: fixed-point.hpp: divide negative values in
 constant expressions

Shifting a negative value to the left has undefined behaviour before C++20: the
division of a negative fixed-point value was not usable in constant expressions.
---
 include/num/fixed-point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/num/fixed-point.hpp b/include/num/fixed-point.hpp
index a93ac24..3002b67 100644
--- a/include/num/fixed-point.hpp
+++ b/include/num/fixed-point.hpp
@@ -163,7 +163,7 @@ public:
 
     constexpr auto operator/=( fixed_point rhs )
     {
-        storage = static_cast<T>( (static_cast<detail::promote_t<T>>(storage) << F ) / rhs.storage );
+        storage = static_cast<T>( (static_cast<detail::promote_t<T>>(storage) * static_cast<detail::promote_t<T>>(detail::power2(F)) ) / rhs.storage );
         return *this;
     }
 
-- 
2.43.0


From fe0362a9b71dae11fb9197d637db5beebfc90785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 37/44] fix: matrix.hpp: multiply matrices by their inner
 dimension

The product of two matrices of the same non-square shape was accepted and read
outside of the second one, a row vector times a wider matrix wrote outside of
its result, and a matrix times a vector was ambiguous unless it was square
(so that an estimator with three control inputs could not be used).
---
 include/num/matrix.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index 5d7912b..eeddf67 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -17,6 +17,7 @@
 #define matrix_STRINGIFY_( x )  #x
 
 #include "std/algorithm.hpp"    // constexpr std20::copy(), std20::fill()
+#include "std/type_traits.hpp"  // std20::enable_if_t
 #include "std/utility.hpp"      // std20::swap(), std::initializer_list
 
 namespace num {
@@ -377,16 +378,16 @@ constexpr matrix<T,N,M> operator-( matrix<T,N,M> const & a, matrix<T,N,M> const
     return result;
 }
 
-// A * B:
+// A * B, except for 1x1 and vector products, see above:
 
-template< typename T, int N, int M >
-constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const & B )
+template< typename T, int N, int M, int K >
+constexpr std20::enable_if_t<M != 1, matrix<T,N,K>> operator*( matrix<T,N,M> const & A, matrix<T,M,K> const & B )
 {
-    matrix<T,N,M> result(0);
+    matrix<T,N,K> result(0);
 
     for ( int row = 0; row < A.rows(); ++row )
     {
-        for ( int col = 0; col < A.columns(); ++col )
+        for ( int col = 0; col < B.columns(); ++col )
         {
             for ( int k = 0; k < A.columns(); ++k )
             {
@@ -401,9 +402,9 @@ constexpr matrix<T,N,M> operator*( matrix<T,N,M> const & A, matrix<T,N,M> const
 // x * A - rowvec:
 
 template< typename T, int N, int M >
-constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
+constexpr std20::enable_if_t<N != 1, rowvec<T,M>> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A )
 {
-    rowvec<T,N> result( 0 );
+    rowvec<T,M> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
     {
         for ( int col = 0; col < A.columns(); ++col )
@@ -417,7 +418,7 @@ constexpr rowvec<T,N> operator*( rowvec<T,N> const & x, matrix<T,N,M> const & A
 // A * x - colvec:
 
 template< typename T, int N, int M >
-constexpr colvec<T,N> operator*( matrix<T,N,M> const & A, colvec<T,N> const & x )
+constexpr std20::enable_if_t<M != 1, colvec<T,N>> operator*( matrix<T,N,M> const & A, colvec<T,M> const & x )
 {
     colvec<T,N> result( 0 );
     for ( int row = 0; row < A.rows(); ++row )
-- 
2.43.0


From 376530459828125edc1d3b4a09969721bd322e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:56 +0000
Subject: [PATCH 38/44] fix: matrix.hpp: add two 1x1 matrices

The sum of two 1x1 matrices was ambiguous and did not compile.
---
 include/num/matrix.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/num/matrix.hpp b/include/num/matrix.hpp
index eeddf67..5200b02 100644
--- a/include/num/matrix.hpp
+++ b/include/num/matrix.hpp
@@ -239,6 +239,13 @@ constexpr matrix<T,N,M> operator+( matrix<T,1,1> const & A, matrix<T,N,M> const
     return A(0) + B;
 }
 
+// A1x1 + A1x1:
+template< typename T >
+constexpr matrix<T,1,1> operator+( matrix<T,1,1> const & A, matrix<T,1,1> const & B )
+{
+    return matrix<T,1,1>( A(0) + B(0) );
+}
+
 // A1x1 * A1x1:
 template< typename T >
 constexpr matrix<T,1,1> operator*( matrix<T,1,1> const & A, matrix<T,1,1> const & B )
-- 
2.43.0


From 934672ddfdc783b4cc62f6ad15fb709ed88075de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:30 +0000
Subject: [PATCH 39/44] fix: range: stepped ranges of integers do not overflow
 where their numbers are representable

---
 include/core/range.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/core/range.hpp b/include/core/range.hpp
index a872826..6086344 100644
--- a/include/core/range.hpp
+++ b/include/core/range.hpp
@@ -114,6 +114,10 @@ struct step_range_proxy
 
         iterator & operator++()
         {
+            // integral: exact, where the product may not be representable
+
+            if constexpr ( std::is_integral<T>::value ) { this->current += step; return *this; }
+
             this->current = first + ++factor * step; return *this;
         }
 
-- 
2.43.0


From 92eacacab2e09f6a388df13b7e94e0c76ef79ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:09 +0000
Subject: [PATCH 40/44] fix: biquad.hpp: response, poles, zeros and
 zero-pole-gain where samples and coefficients have different types

---
 include/dsp/biquad.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dsp/biquad.hpp b/include/dsp/biquad.hpp
index d14dc77..e0edb24 100644
--- a/include/dsp/biquad.hpp
+++ b/include/dsp/biquad.hpp
@@ -94,7 +94,7 @@ auto solve( V a, V b, V c )
 template< typename V >
 auto operator/( AT<V> a, identity_t<V> x )
 {
-    return AT<V>{ a.a1 / x, a.a2 / x, a.a0 / x };
+    return AT<V>{ a.a1 / x, a.a2 / x };
 }
 
 // normalized b:
@@ -114,7 +114,8 @@ struct Tie
     : b0(a), b1(b), b2(c), a1(d), a2(e)
     {}
 
-    void operator=( BAT<T> const & bat )
+    template< typename V >
+    void operator=( BAT<V> const & bat )
     {
         b0 = bat.b0; b1 = bat.b1; b2 = bat.b2;
                      a1 = bat.a1; a2 = bat.a2;
@@ -208,7 +209,7 @@ public:
 
     auto poles() const
     {
-        return solve( value_type{1}, a.a1, a.a2 );
+        return solve( coeff_type{1}, a.a1, a.a2 );
     }
 
     auto zeros() const
@@ -338,8 +339,8 @@ auto response( BiQuadT<T,S> const & bq, identity_t<T> fnorm )
     const auto czn1 = std20::polar(T{1}, -w     );
     const auto czn2 = std20::polar(T{1}, -2 * w );
 
-    return ( Complex{ b.b0 } + b.b1 * czn1 + b.b2 * czn2 )
-         / ( Complex{ 1    } + a.a1 * czn1 + a.a2 * czn2 );
+    return ( Complex{ T(b.b0) } + T(b.b1) * czn1 + T(b.b2) * czn2 )
+         / ( Complex{ 1       } + T(a.a1) * czn1 + T(a.a2) * czn2 );
 }
 
 } // namespace biquad
-- 
2.43.0


From ec1d317ebbc1c6149b168201776514e695a6d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:09 +0000
Subject: [PATCH 41/44] fix: onepole.hpp: construct from pole and gain, divide
 coefficients, separate types of samples and coefficients

---
 include/dsp/onepole.hpp | 66 ++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 44 deletions(-)

diff --git a/include/dsp/onepole.hpp b/include/dsp/onepole.hpp
index 5478757..6ff200e 100644
--- a/include/dsp/onepole.hpp
+++ b/include/dsp/onepole.hpp
@@ -83,7 +83,7 @@ auto solve( V a, V b )
 template< typename V >
 auto operator/( AT<V> a, identity_t<V> x )
 {
-    return AT<V>{ a.a1 / x, a.a2 / x, a.a0 / x };
+    return AT<V>{ a.a1 / x };
 }
 
 // normalized b:
@@ -91,7 +91,7 @@ auto operator/( AT<V> a, identity_t<V> x )
 template< typename V >
 auto operator/( BT<V> b, identity_t<V> x )
 {
-    return BT<V>{ b.b0 / x, b.b1 / x, b.b2 / x };
+    return BT<V>{ b.b0 / x };
 }
 
 // enable assignment of result of to_coeff() to member data:
@@ -99,23 +99,23 @@ auto operator/( BT<V> b, identity_t<V> x )
 template< typename T >
 struct Tie
 {
-    Tie( T & a, T & b, T & c, T & d, T & e )
-    : b0(a), b1(b), b2(c), a1(d), a2(e)
+    Tie( T & a, T & b )
+    : b0(a), a1(b)
     {}
 
-    void operator=( BAT<T> const & bat )
+    template< typename V >
+    void operator=( BAT<V> const & bat )
     {
-        b0 = bat.b0; b1 = bat.b1; b2 = bat.b2;
-                     a1 = bat.a1; a2 = bat.a2;
+        b0 = bat.b0; a1 = bat.a1;
     }
 
-    T & b0; T & b1; T & b2; T & a1; T & a2;
+    T & b0; T & a1;
 };
 
 template< typename T >
-auto tie( T & a, T & b, T & c, T & d, T & e )
+auto tie( T & a, T & b )
 {
-    return Tie<T>( a, b, c, d, e );
+    return Tie<T>( a, b );
 }
 
 //
@@ -171,11 +171,11 @@ public:
 #endif
     {}
 
-    // Initialize biquad from ZPK:
+    // Initialize one-pole from ZPK, see zeros():
 
     OnePoleT( Solution z, Solution p, value_type k )
     {
-        tie( b.b0, b.b1, b.b2, a.a1, a.a2 ) = to_coeff( z, p, k );
+        tie( b.b0, a.a1 ) = to_coeff( z, p, k );
     }
 
     // Observers:
@@ -197,7 +197,7 @@ public:
 
     auto poles() const
     {
-        return solve( value_type{1}, a.a1 );
+        return solve( coeff_type{1}, a.a1 );
     }
 
     auto zeros() const
@@ -236,42 +236,20 @@ public:
     }
 
 private:
-    template< typename U >
-    struct Pair{ U first; U second; };
+    // Convert zpk to a and b coefficients, the zero is in the origin:
 
-    // Convert zpk to a and b coefficients :
-
-    auto to_coeff( Solution z, Solution p, value_type k )
+    auto to_coeff( Solution, Solution p, value_type k )
     {
-        auto b = to_coeff( z );
-        auto a = to_coeff( p );
-
-        return BAT<value_type>
-        {
-            k, k * b.first, k * b.second
-            ,      a.first,     a.second
-        };
+        return BAT<value_type>{ { k }, { to_coeff( p ) } };
     }
 
-    // Coefficients of quadratic poly. corresponding to zeros
-    //
-    // Gets the coefficients of the quadratic polynomial s.t. its solutions are p
+    // Coefficient of linear poly. corresponding to pole
     //
-    // (x - z1)(x - z2) -> x^2 - (z1 + z2) + z1 * z2
+    // (x - p) -> -p
 
-    auto to_coeff( Solution z )
+    auto to_coeff( Solution p )
     {
-        auto z1 = z.s0;
-        auto z2 = z.s1;
-
-        auto z1r = z1.real();
-        auto z1i = z1.imag();
-        auto z2r = z2.real();
-
-        // Assume this is a complex conjugate pair if p1 has imag part
-        return z1i
-            ? Pair<value_type>{  -2 * z1r, z1r * z1r + z1i * z1i }
-            : Pair<value_type>{ -z1r -z2r, z1r * z2r             };
+        return -p.s0.real();
     }
 
 private:
@@ -296,8 +274,8 @@ auto response( OnePoleT<T,S> const & op, identity_t<T> fnorm )
     const auto w = 2 * num::pi<T> * fnorm;
     const auto czn1 = std20::polar(T{1}, -w     );
 
-    return ( complex_t{ b.b0 }               )
-         / ( complex_t{ 1    } + a.a1 * czn1 );
+    return ( complex_t{ T(b.b0) }               )
+         / ( complex_t{ 1       } + T(a.a1) * czn1 );
 }
 
 } // namespace biquad
-- 
2.43.0


From 51eb0aa1fc2b244d5b928967e06687a2b1cdc6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:09 +0000
Subject: [PATCH 42/44] fix: filter-design.hpp: dbP, dbV: do not convert the
 reference to the type of the signal

---
 include/dsp/filter-design.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dsp/filter-design.hpp b/include/dsp/filter-design.hpp
index 7e1a54f..a6a00a1 100644
--- a/include/dsp/filter-design.hpp
+++ b/include/dsp/filter-design.hpp
@@ -29,12 +29,12 @@ inline auto prewarp( P f, Q fs )
 
 // factor as dbP
 
-template< typename T >
-auto dbP( T vout, core::identity_t<T> vin )
+template< typename P, typename Q >
+auto dbP( P vout, Q vin )
 {
-    using U = std::common_type_t<float, T>;
+    using U = std::common_type_t<float, P, Q>;
 
-    return U{10} * std::log10( core::as<U>(vout) / vin );
+    return U{10} * std::log10( core::as<U>(vout) / core::as<U>(vin) );
 }
 
 // dbP as factor
-- 
2.43.0


From 6e7460a30977ac582a731e4dc18c76597b05930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:07 +0000
Subject: [PATCH 43/44] fix: avr-kalman-time.cpp: keep the computation that is
 timed

With -O2 and floating point, the compiler removes the estimator altogether, as its
result is not used: the program times blinking a LED.
---
 time/avr-kalman-time.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/time/avr-kalman-time.cpp b/time/avr-kalman-time.cpp
index 5629a33..5ae5b7b 100644
--- a/time/avr-kalman-time.cpp
+++ b/time/avr-kalman-time.cpp
@@ -270,5 +270,8 @@ int main()
 
         // Process a time-step:
         estim.update( u, z );
+
+        // Prevent removal of the computation, its result is not used otherwise:
+        asm volatile( "" : : "r"( &estim ) : "memory" );
     } // for(t)
 }
-- 
2.43.0


From f33b572ffad38505edea72040d8839e8f8b5f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:07 +0000
Subject: [PATCH 44/44] fix: avr-kalman-time.cpp: fp32_t has 32 bits on the
 microcontroller, too

int has 16 bits there, which leaves no bits for the fraction.
---
 time/avr-kalman-time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time/avr-kalman-time.cpp b/time/avr-kalman-time.cpp
index 5ae5b7b..8e2286f 100644
--- a/time/avr-kalman-time.cpp
+++ b/time/avr-kalman-time.cpp
@@ -178,7 +178,7 @@ private:
 
 // Fixed point numeric type for Kalman estimator:
 
-using fp32_t = num::fixed_point<int, 15>;
+using fp32_t = num::fixed_point<std20::int32_t, 15>;
 
 // Kalman estimator type:
 
-- 
2.43.0

