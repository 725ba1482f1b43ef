From 9349f01245ecb5c17788919c4b03ede627396c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:30 +0000
Subject: [PATCH 01/47] fix: products with an exactly zero operand are zero

---
 public/gal/expr.hpp | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e655f06..6687206 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -933,14 +933,9 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator*(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    // The product with a multivector that is exactly zero is exactly zero
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(lhs);
         return out;
     }
 
@@ -1060,14 +1055,9 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator>>(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    // The product with a multivector that is exactly zero is exactly zero
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(lhs);
         return out;
     }
 
@@ -1090,14 +1080,9 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    // The product with a multivector that is exactly zero is exactly zero
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(lhs);
         return out;
     }
 
@@ -1134,14 +1119,9 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 2> out;
-    if (lhs.count == 0)
-    {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
+    // The product with a multivector that is exactly zero is exactly zero
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(lhs);
         return out;
     }
 
-- 
2.43.0


From c00a7b627f19c0c36894c9a598f0a17af080f922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:35 +0000
Subject: [PATCH 02/47] fix: adding an exactly zero operand keeps the scale of
 the other operand

---
 public/gal/expr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 6687206..378e69a 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -391,10 +391,12 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         if (lhs.count == 0)
         {
             out.append(rhs);
+            out.q = rhs.q;
         }
         else
         {
             out.append(lhs);
+            out.q = lhs.q;
         }
         return out;
     }
-- 
2.43.0


From 8eed8d0ffe96142bf639bc6a2a56bdfb6264476d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:40 +0000
Subject: [PATCH 03/47] fix: reversion and dual keep the rational scale of
 their operand

---
 public/gal/expr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 378e69a..4514f8f 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -833,6 +833,7 @@ constexpr auto operator~(detail::rpne<A, S> const& in)
     }
 
     out.append(in);
+    out.q = in.q;
 
     if (in.back().o == detail::op_rev)
     {
@@ -856,6 +857,7 @@ constexpr auto operator!(detail::rpne<A, S> const& in)
 
     out.append(in);
     out.append(detail::op_pd);
+    out.q = in.q;
     return out;
 }
 
-- 
2.43.0


From b90075eb492afd08f11d88e12ff54e0bfd378d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:46 +0000
Subject: [PATCH 04/47] fix: exterior products of exterior products keep the
 rational scale

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 4514f8f..6ac2956 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1028,8 +1028,8 @@ constexpr auto operator^(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
         out.append(lhs);
         out.nodes[out.count++] = detail::node{detail::op_se, rhs_checksum, rhs.count, zero};
         out.append(rhs);
-        out.q = lhs.q * rhs.q;
     }
+    out.q = lhs.q * rhs.q;
 
     // Loop through all ep factors to compute the bloom filter
     width_t i       = 1;
-- 
2.43.0


From 3b867858e215ef3a6ba89806cc6b5d99858673c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:51 +0000
Subject: [PATCH 05/47] fix: scale remaining summands of the left operand by
 its own factor

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 6ac2956..f64b034 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -445,7 +445,7 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
                 {
                     auto lhs_summand = lhs.nodes[lhs_index++];
                     ++summand_count;
-                    lhs_summand.q *= rhs.q;
+                    lhs_summand.q *= lhs.q;
                     out.nodes[out.count++] = lhs_summand;
                     for (width_t i = 0; i != lhs_summand.ex; ++i)
                     {
-- 
2.43.0


From 08d854226dbf8a341767556e9dfcc74c76d3e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:57 +0000
Subject: [PATCH 06/47] fix: subexpressions that differ in a rational factor
 are not equal

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index f64b034..a5e34c6 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -114,7 +114,8 @@ namespace detail
 
         constexpr bool operator==(node const& other) const
         {
-            return o == other.o && checksum == other.checksum && ex == other.ex;
+            return o == other.o && checksum == other.checksum && ex == other.ex
+                   && q.num == other.q.num && q.den == other.q.den;
         }
 
         constexpr bool operator!=(node const& other) const
-- 
2.43.0


From 3d9257204831972018239e3ba08ac862a2ce4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:03 +0000
Subject: [PATCH 07/47] fix: gal::E evaluates to e instead of pi

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index a5e34c6..b8b0f5a 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -369,7 +369,8 @@ namespace detail
         template <typename A>
         constexpr rpne<A, 1> convert() const noexcept
         {
-            return {{node{c_pi, c_pi}}, 1, q};
+            auto o = static_cast<uint32_t>(c_const_start + (id - ind_constant_start));
+            return {{node{o, o}}, 1, q};
         }
     };
 } // namespace detail
-- 
2.43.0


From 2159e16c41c8c22022f97093f86c1e2084e77266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:09 +0000
Subject: [PATCH 08/47] fix: integer numerator of a division is no longer
 dropped

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index b8b0f5a..7a9050a 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -772,7 +772,7 @@ constexpr auto operator/(int lhs, detail::rpne<A, S> const& rhs)
     out.append(detail::rpne_from_constant<A>(lhs, 1));
     out.append(rhs);
     out.append(detail::op_div);
-    out.back().q = rhs.q.reciprocal();
+    out.back().q = rat{lhs, 1} / rhs.q;
     out.q        = one;
     return out;
 }
-- 
2.43.0


From e3acd5406e671093ba60a7628e092709639af43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:15 +0000
Subject: [PATCH 09/47] fix: division merges the divisor into monomials that
 already contain it

---
 public/gal/algebra.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 9ef4bf6..76cb903 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -1001,7 +1001,7 @@ namespace detail
         {
             ind d    = rhs.inds[0];
             d.degree = d.degree.negation();
-            mv<A, I + M, M, T> out;
+            mv<A, I + M, M, T> out{};
             auto out_terms_it = out.terms.begin();
             auto out_mons_it  = out.mons.begin();
             auto out_inds_it  = out.inds.begin();
@@ -1012,7 +1012,6 @@ namespace detail
                 for (auto mon_it = it.cbegin(); mon_it != it.cend(); ++mon_it)
                 {
                     width_t ind_offset = out_inds_it - out.inds.begin();
-                    bool canceled      = false;
                     bool written       = false;
                     for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
                     {
@@ -1022,10 +1021,6 @@ namespace detail
                             {
                                 rat deg = d.degree + ind_it->degree;
                                 if (!deg.is_zero())
-                                {
-                                    canceled = true;
-                                }
-                                else
                                 {
                                     *out_inds_it++ = ind{d.id, deg};
                                 }
@@ -1053,8 +1048,8 @@ namespace detail
                         *out_inds_it++ = d;
                     }
 
-                    rat deg        = mon_it->degree - d.degree;
-                    width_t count  = canceled ? mon_it->count - 1 : mon_it->count + 1;
+                    rat deg        = mon_it->degree + d.degree;
+                    width_t count  = (out_inds_it - out.inds.begin()) - ind_offset;
                     *out_mons_it++ = mon{mon_it->q / m.q, deg, count, ind_offset};
                 }
 
-- 
2.43.0


From 51b0d6ba044e76f80dc55cefac3c9313a213c113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:21 +0000
Subject: [PATCH 10/47] fix: rational equality reduces the right operand by its
 own gcd

---
 public/gal/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 525f700..f2e8f9e 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -374,7 +374,7 @@ namespace detail
 [[nodiscard]] constexpr bool operator==(rat lhs, rat rhs) noexcept
 {
     auto gcd1 = std::gcd(lhs.num, lhs.den);
-    auto gcd2 = std::gcd(rhs.den, rhs.den);
+    auto gcd2 = std::gcd(rhs.num, rhs.den);
     return lhs.num / gcd1 == rhs.num / gcd2 && lhs.den / gcd1 == rhs.den / gcd2;
 }
 
-- 
2.43.0


From 3411af63bbfaac47956f7f10cc6aed4e4d0b9f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:29 +0000
Subject: [PATCH 11/47] fix: grade selection visits every term

---
 public/gal/algebra.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 76cb903..bbead05 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -577,11 +577,8 @@ struct mv
         for (auto it = cbegin(); it != cend(); ++it)
         {
             auto g = pop_count(it->element);
-            if (g > grade)
-            {
-                break;
-            }
-            else if (g < grade)
+            // Terms are ordered by element, which does not order them by grade
+            if (g != grade)
             {
                 continue;
             }
-- 
2.43.0


From f5d21a9a5773ce2c64723806faaf6db7379fa0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:35 +0000
Subject: [PATCH 12/47] fix: pop returns the top of the stack

---
 public/gal/expr.hpp  | 2 +-
 public/gal/stack.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 7a9050a..184bd0c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -182,7 +182,7 @@ namespace detail
 
         constexpr node pop() noexcept
         {
-            return nodes[count--];
+            return nodes[--count];
         }
 
         constexpr void pop(width_t n) noexcept
diff --git a/public/gal/stack.hpp b/public/gal/stack.hpp
index 6403d1c..72da829 100644
--- a/public/gal/stack.hpp
+++ b/public/gal/stack.hpp
@@ -41,7 +41,7 @@ namespace detail
 
         constexpr T pop() noexcept
         {
-            return data[count--];
+            return data[--count];
         }
 
         constexpr T pop(size_t n) noexcept
-- 
2.43.0


From 1fd1b6a7b599bbce689fefcbbd60c94400e795a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:00 +0000
Subject: [PATCH 13/47] fix: rational denominators stay positive when dividing
 by a negative number

---
 public/gal/numeric.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index f2e8f9e..aa68e95 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -185,7 +185,8 @@ struct rat
 
     [[nodiscard]] constexpr rat reciprocal() const noexcept
     {
-        return {den, num};
+        // Keep the denominator positive
+        return num < 0 ? rat{-den, -num} : rat{den, num};
     }
 
     [[nodiscard]] constexpr rat negation() const noexcept
@@ -203,6 +204,12 @@ struct rat
     {
         num *= other.num;
         den *= other.den;
+        if (den < 0)
+        {
+            // Keep the denominator positive
+            num = -num;
+            den = -den;
+        }
         if (num == 0)
         {
             den = 1;
-- 
2.43.0


From cfc15b11a3e5a169ba798fe15deb20547b5bf62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:06 +0000
Subject: [PATCH 14/47] fix: sums whose summands all cancel are zero

---
 public/gal/expr.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 184bd0c..d5e7080 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -672,6 +672,13 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         summand_count = 2;
     }
 
+    // All summands canceled
+    if (summand_count == 0)
+    {
+        out.count = 0;
+        return out;
+    }
+
     // Do a final pass to see if the sum has been collapsed to a single term
     if (summand_count == 1)
     {
-- 
2.43.0


From f28f3a9f1cf5421333e56d873ae13b05d09c27e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:43 +0000
Subject: [PATCH 15/47] fix: integer and literal zeros are exactly zero in sums
 and results

---
 public/gal/expr.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index d5e7080..23d8527 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -357,7 +357,12 @@ namespace detail
         }
         else
         {
-            return input;
+            auto out = input;
+            if (out.q.is_zero())
+            {
+                out.count = 0;
+            }
+            return out;
         }
     }
 
@@ -388,9 +393,9 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
     rpne<A, S1 + S2 + 3> out;
 
     // Early out if either the lhs or the rhs is exactly zero
-    if (lhs.count == 0 || rhs.count == 0)
+    if (lhs.count == 0 || lhs.q.is_zero() || rhs.count == 0 || rhs.q.is_zero())
     {
-        if (lhs.count == 0)
+        if (lhs.count == 0 || lhs.q.is_zero())
         {
             out.append(rhs);
             out.q = rhs.q;
-- 
2.43.0


From 3087ec935505ae10a45dd0701527799fa482c7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:49 +0000
Subject: [PATCH 16/47] fix: multiple results may contain exactly zero
 expressions

---
 public/gal/expr.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 23d8527..b88ef66 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -228,6 +228,13 @@ namespace detail
         template <width_t S1>
         constexpr void append_as_se(rpne<A, S1> const& src) noexcept
         {
+            if (src.count == 0 || src.q.is_zero())
+            {
+                nodes[count++] = node{op_se, 0, 1, one};
+                nodes[count++] = node{c_zero, c_zero};
+                return;
+            }
+
             nodes[count++] = node{op_se, 0, src.count, src.q};
             for (width_t i = 0; i != src.count; ++i)
             {
-- 
2.43.0


From 3dfedfdf1fc4460909c998f8d6dec7667930b2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:57 +0000
Subject: [PATCH 17/47] fix: component and grade selection of an exactly zero
 expression

---
 public/gal/expr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index b88ef66..7e972b2 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -143,6 +143,10 @@ namespace detail
         constexpr auto operator[](elem_t e) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             // Using operator[] successfully is not expected behavior, so we don't bother computing
             // the checksum in a fancy manner.
@@ -154,6 +158,10 @@ namespace detail
         constexpr auto select_grade(elem_t g) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             out.nodes[out.count++] = node{op_grd, back().checksum + ~g, g};
             out.q                  = q;
-- 
2.43.0


From 02c01fc13d53914b31e9ddf3fc414c2451818b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:03 +0000
Subject: [PATCH 18/47] fix: scalar functions and quotients of an exactly zero
 expression

---
 public/gal/expr.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 7e972b2..2fd716e 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -808,6 +808,10 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator/(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
+    if (lhs.count == 0 || lhs.q.is_zero())
+    {
+        return out;
+    }
     out.append(lhs);
     out.append(rhs);
     out.append(detail::op_div);
@@ -894,6 +898,10 @@ template <typename A, width_t S>
 constexpr auto sqrt(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_sqrt);
     out.back().q = in.q;
@@ -905,6 +913,10 @@ template <typename A, width_t S>
 constexpr auto sin(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_sin);
     out.back().q = in.q;
@@ -916,6 +928,11 @@ template <typename A, width_t S>
 constexpr auto cos(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        out.append(detail::rpne_from_constant<A>(1, 1));
+        return out;
+    }
     out.append(in);
     out.append(detail::op_cos);
     out.back().q = in.q;
@@ -927,6 +944,10 @@ template <typename A, width_t S>
 constexpr auto tan(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
     out.append(in);
     out.append(detail::op_tan);
     out.back().q = in.q;
-- 
2.43.0


From 3374ea6341a4ef35028a88dd3ec06c2d92b81a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:56 +0000
Subject: [PATCH 19/47] fix: bare floating-point inputs may precede other
 inputs

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 2fd716e..acbddc1 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -298,7 +298,7 @@ namespace detail
 
         if constexpr (sizeof...(Ds) > 0)
         {
-            if (std::is_floating_point_v<D>)
+            if constexpr (std::is_floating_point_v<D>)
             {
                 return rpne_entities<A, S, Ds...>(out, current_id + 1, i + 1);
             }
-- 
2.43.0


From d6650b2817ea1fb9fca7bcd034e3a37f34eccca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:52 +0000
Subject: [PATCH 20/47] fix: results of a multi-result expression may share
 subexpressions

---
 public/gal/dfa.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index d5abb9e..797ff35 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -581,6 +581,15 @@ namespace detail
             }
         }
 
+        // Subexpressions remaining on the stack are the results of a multi-result expression. Their
+        // lengths shorten on CSE contraction as well.
+        for (width_t k = 0; k != se_stack.count; ++k)
+        {
+            auto [se, offset]   = se_stack[k];
+            width_t next_offset = k + 1 == se_stack.count ? out.count + 1 : se_stack[k + 1].second;
+            se->ex              = next_offset - offset - 1;
+        }
+
         out.q = expr.q;
         return out;
     }
-- 
2.43.0


From 95d06a6f17d2beec140dab56b94be874f212befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:00 +0000
Subject: [PATCH 21/47] fix: the symmetric inner product keeps the order of its
 operands

---
 public/gal/expr.hpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index acbddc1..0f74490 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1147,19 +1147,12 @@ constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
     }
 
     out.q = q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    // NOTE: the operands must not be reordered (vector | bivector == -(bivector | vector))
+    out.append(lhs);
+    out.append(rhs);
     out.append(detail::op_sip);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_sip << 8));
     return out;
 }
 
-- 
2.43.0


From ca582c2bc16063ca7ad84c7200fe728fe4637692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:07 +0000
Subject: [PATCH 22/47] fix: cosine of an expression that vanishes identically
 is one

---
 public/gal/dfa.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 797ff35..c88b9aa 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -787,10 +787,24 @@ namespace detail
             }
             else if constexpr (n.o == op_cos)
             {
-                auto args                    = State.args;
-                args.template get<0>().first = n.checksum;
-                args.template get<0>().second.cos(n.q);
-                return rpn_state{State.inputs, State.temps, args, State.id_count};
+                if constexpr (State.args.template get<0>().second.size.term == 0)
+                {
+                    // cos(0) == 1
+                    constexpr auto pop = State.args.pop();
+                    mv<algebra_t, 0, 1, 1> c{
+                        mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, 0}}};
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     pop.second.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
+                else
+                {
+                    auto args                    = State.args;
+                    args.template get<0>().first = n.checksum;
+                    args.template get<0>().second.cos(n.q);
+                    return rpn_state{State.inputs, State.temps, args, State.id_count};
+                }
             }
             else if constexpr (n.o == op_tan)
             {
-- 
2.43.0


From 249c0c4e9cb6d4dc90a1da99f6489fd5a0e8f4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:46 +0000
Subject: [PATCH 23/47] fix: divisors that start with a common subexpression
 are extracted

---
 public/gal/dfa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index c88b9aa..6736a20 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -307,7 +307,7 @@ namespace detail
                     {
                         known.ses[known.count - 1].required = true;
                     }
-                    else if (last_offset < i - 2 && prev.o != op_cse && prev.checksum != i)
+                    else if (last_offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
                     {
                         known.ses[known.count - 1].required = true;
                     }
-- 
2.43.0


From d288f3d0c5c54f3923e9cbf045f2fffe5ebecab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:54 +0000
Subject: [PATCH 24/47] fix: temporaries of null basis algebras are stored in
 the basis they are read in

---
 public/gal/engine.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 1d4b46e..d8329eb 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -265,16 +265,8 @@ namespace detail
             constexpr static auto ie = temps.template get<I>().ie;
             constexpr static auto o  = temps.template get<I>().o;
             constexpr static auto id = temps.template get<I>().id;
-            if constexpr (detail::uses_null_basis<A>)
-            {
-                constexpr static auto null_conversion = detail::to_null_basis(ie);
-                compute_temp<null_conversion, o, V, A>(
-                    data, std::make_index_sequence<null_conversion.size.term>{}, id);
-            }
-            else
-            {
-                compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
-            }
+            // References to temporaries are expressed in the natural basis (see mv::create_ref)
+            compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
 
             if constexpr (I + 1 != std::decay_t<decltype(temps)>::size())
             {
-- 
2.43.0


From e467281b79c0e394ef1702c91ee8a7f82c82e1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:00 +0000
Subject: [PATCH 25/47] fix: basis literals of null basis algebras denote null
 vectors

---
 public/gal/dfa.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 6736a20..64a172f 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -860,10 +860,20 @@ namespace detail
                 auto g = n.o - c_scalar;
                 mv<algebra_t, 0, 1, 1> c{
                     mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, g}}};
-                return rpn_state{State.inputs,
-                                 State.temps,
-                                 State.args.push(make_pair(n.checksum, c)),
-                                 State.id_count};
+                if constexpr (uses_null_basis<algebra_t>)
+                {
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, to_natural_basis(c))),
+                                     State.id_count};
+                }
+                else
+                {
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
             }
         }
 
-- 
2.43.0


From 0be6390b086a809d9a5ff40da74a8d896ffc8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:35 +0000
Subject: [PATCH 26/47] fix: references to temporaries cover the occupied terms
 only

---
 public/gal/algebra.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index bbead05..863f031 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -501,8 +501,8 @@ struct mv
     constexpr mv<A, T, T, T> create_ref(uint32_t id) const noexcept
     {
         mv<A, T, T, T> out{};
-        out.size = mv_size{T, T, T};
-        for (width_t i = 0; i != T; ++i)
+        out.size = mv_size{size.term, size.term, size.term};
+        for (width_t i = 0; i != size.term; ++i)
         {
             out.inds[i]  = ind{id + i, one};
             out.mons[i]  = mon{one, one, 1, i};
-- 
2.43.0


From 08752b363e1b1971a4fa6164a33667db9be7a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:32 +0000
Subject: [PATCH 27/47] fix: quotients by a scalar input compile in null basis
 algebras

---
 public/gal/dfa.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 64a172f..0973edd 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -625,14 +625,17 @@ namespace detail
         {
             if constexpr (n.o == op_id)
             {
-                auto pop = State.inputs.pop();
+                constexpr auto pop = State.inputs.pop();
 
                 if constexpr (uses_null_basis<algebra_t>)
                 {
+                    constexpr auto nat = to_natural_basis(pop.first);
                     return rpn_state{
                         pop.second,
                         State.temps,
-                        State.args.push(make_pair(n.checksum, to_natural_basis(pop.first))),
+                        State.args.push(make_pair(
+                            n.checksum,
+                            nat.template resize<nat.size.ind, nat.size.mon, nat.size.term>())),
                         State.id_count};
                 }
                 else
-- 
2.43.0


From cede536f985c9ae2bbb06aab89f94bb55daf35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:50 +0000
Subject: [PATCH 28/47] fix: divisors may be temporaries with unused capacity

---
 public/gal/dfa.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 0973edd..9141ff1 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -648,11 +648,14 @@ namespace detail
             }
             else if constexpr (n.o == op_cse)
             {
-                auto const& temp = State.temps.template get<n.ex>();
-                return rpn_state{State.inputs,
-                                 State.temps,
-                                 State.args.push(make_pair(n.checksum, temp.ie.create_ref(temp.id))),
-                                 State.id_count};
+                constexpr auto temp = State.temps.template get<n.ex>();
+                constexpr auto ref  = temp.ie.create_ref(temp.id);
+                return rpn_state{
+                    State.inputs,
+                    State.temps,
+                    State.args.push(make_pair(
+                        n.checksum, ref.template resize<ref.size.ind, ref.size.mon, ref.size.term>())),
+                    State.id_count};
             }
             else if constexpr (n.o == op_se)
             {
-- 
2.43.0


From 6aca8ce8e1b741ef487157891bee9375d4327e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:37 +0000
Subject: [PATCH 29/47] fix: the overflow gate does not perturb rationals by
 more than its tolerance

---
 public/gal/numeric.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index aa68e95..f9847aa 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -338,11 +338,16 @@ namespace detail
                 {
                     // The rational is the mediant of two fractions with smaller denominators. Pick
                     // one of them based on the parity.
-                    if (in.num % 2 == 1)
+                    if (in.num % 2 != 0)
                     {
                         // Perturb to the left-side of the mediant
                         auto n2  = (in.num - 1) / 2;
                         auto d2  = in.den / 2;
+                        // Changing the numerator is only permitted if the error is negligible
+                        if (abs(frac - static_cast<double>(n2) / static_cast<double>(d2)) >= 1e-7)
+                        {
+                            return in;
+                        }
                         auto gcd = std::gcd(n2, d2);
                         if (gcd > 1)
                         {
-- 
2.43.0


From b090374d434743665290f4aab1785b9b61c7a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:43 +0000
Subject: [PATCH 30/47] fix: rational inequality is the negation of rational
 equality

---
 public/gal/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index f9847aa..d5d169a 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -397,7 +397,7 @@ namespace detail
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, rat rhs) noexcept
 {
-    return lhs.num != rhs.num || lhs.den != rhs.den;
+    return !(lhs == rhs);
 }
 
 [[nodiscard]] constexpr bool operator<(rat lhs, rat rhs) noexcept
-- 
2.43.0


From 63fa760e1c1832a218df78166e336f0983de25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:33 +0000
Subject: [PATCH 31/47] fix: components of an exactly zero entity are readable

---
 public/gal/entity.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index f8a6015..e205119 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -148,9 +148,16 @@ struct entity<A, T>
     }
 
     template <elem_t... S>
-    GAL_NODISCARD constexpr T select() const noexcept
+    GAL_NODISCARD constexpr auto select() const noexcept
     {
-        return {0};
+        if constexpr (sizeof...(S) == 1)
+        {
+            return T{};
+        }
+        else
+        {
+            return std::array<T, sizeof...(S)>{};
+        }
     }
 
     GAL_NODISCARD constexpr T select(elem_t e) const noexcept
@@ -168,12 +175,12 @@ struct entity<A, T>
         return nullptr;
     }
 
-    GAL_NODISCARD constexpr auto begin() noexcept
+    GAL_NODISCARD constexpr T* begin() noexcept
     {
         return nullptr;
     }
 
-    GAL_NODISCARD constexpr auto end() noexcept
+    GAL_NODISCARD constexpr T* end() noexcept
     {
         return nullptr;
     }
@@ -182,11 +189,6 @@ struct entity<A, T>
     {
         return {0};
     }
-
-    GAL_NODISCARD constexpr T& operator[](size_t index) noexcept
-    {
-        return {0};
-    }
 };
 
 template <typename A, typename T>
-- 
2.43.0


From aedd7fc94ff416401167d76e54bbd9c97c7b9a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:17 +0000
Subject: [PATCH 32/47] fix: scalar functions apply to the sum of the monomials
 of their argument

---
 public/gal/engine.hpp | 57 ++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index d8329eb..258310b 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -121,7 +121,7 @@ namespace detail
             }
             else if constexpr (sizeof...(I) == 0)
             {
-                return apply_mv_op<F, ie.o>(static_cast<F>(m.q));
+                return static_cast<F>(m.q);
             }
             else
             {
@@ -129,43 +129,39 @@ namespace detail
                 {
                     if constexpr (abs(m.q.num) > 1 || m.q.num == -1)
                     {
-                        return apply_mv_op<F, ie.o>(
-                            static_cast<F>(m.q)
-                            * (::gal::pow(
-                                   data_value(data.data(), ie.inds[m.ind_offset + I].id),
-                                   std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
-                                   std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
-                               * ...));
+                        return static_cast<F>(m.q)
+                               * (::gal::pow(
+                                      data_value(data.data(), ie.inds[m.ind_offset + I].id),
+                                      std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
+                                      std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
+                                  * ...);
                     }
                     else
                     {
-                        return apply_mv_op<F, ie.o>(
-                            (::gal::pow(
-                                 data_value(data.data(), ie.inds[m.ind_offset + I].id),
-                                 std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
-                                 std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
-                             * ...)
-                            / static_cast<F>(m.q.den));
+                        return (::gal::pow(
+                                    data_value(data.data(), ie.inds[m.ind_offset + I].id),
+                                    std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
+                                    std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
+                                * ...)
+                               / static_cast<F>(m.q.den);
                     }
                 }
                 else if constexpr (abs(m.q.num) > 1 || m.q.num == -1)
                 {
-                    return apply_mv_op<F, ie.o>(
-                        static_cast<F>(m.q.num)
-                        * (::gal::pow(
-                               data_value(data.data(), ie.inds[m.ind_offset + I].id),
-                               std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
-                               std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
-                           * ...));
+                    return static_cast<F>(m.q.num)
+                           * (::gal::pow(
+                                  data_value(data.data(), ie.inds[m.ind_offset + I].id),
+                                  std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
+                                  std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
+                              * ...);
                 }
                 else
                 {
-                    return apply_mv_op<F, ie.o>(
-                        (::gal::pow(
-                             data_value(data.data(), ie.inds[m.ind_offset + I].id),
-                             std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
-                             std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
-                         * ...));
+                    return (::gal::pow(
+                                data_value(data.data(), ie.inds[m.ind_offset + I].id),
+                                std::integral_constant<int, ie.inds[m.ind_offset + I].degree.num>{},
+                                std::integral_constant<int, ie.inds[m.ind_offset + I].degree.den>{})
+                            * ...);
                 }
             }
         }
@@ -181,9 +177,10 @@ namespace detail
         template <size_t N>
         GAL_FORCE_INLINE constexpr static F value(std::array<ind_value<F>, N> const& data) noexcept
         {
-            return (
+            // Scalar functions apply to the coefficient as a whole, not to its individual monomials
+            return apply_mv_op<F, ie.o>((
                 cmon<F, ie, Offset + I, std::make_index_sequence<ie.mons[Offset + I].count>>::value(data)
-                + ...);
+                + ...));
         }
     };
 
-- 
2.43.0


From cc0be1e6910d2e66a55600926a26f1d445cdb1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:20 +0000
Subject: [PATCH 33/47] fix: rotor coefficients refer to their own
 indeterminates

---
 public/gal/pga.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index fd96af8..a5dfe20 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -175,9 +175,9 @@ namespace pga
                      ind{id + 1, one}, // x * sin(t/2)
                      ind{id + 2, one}},
                     {mon{one, one, 1, 0},
-                     mon{one, one, 1, 1},
-                     mon{minus_one, rat{2}, 2, 2},
-                     mon{one, rat{2}, 2, 3}},
+                     mon{one, rat{2}, 2, 1},
+                     mon{minus_one, rat{2}, 2, 3},
+                     mon{one, rat{2}, 2, 5}},
                     {term{1, 0, 0b0}, term{1, 1, 0b110}, term{1, 2, 0b1010}, term{1, 3, 0b1100}}};
         }
 
-- 
2.43.0


From 52b435c1ef9f0fc353c0809a13a03ea1a7543d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:29 +0000
Subject: [PATCH 34/47] fix: translator coefficients refer to their own
 indeterminates

---
 public/gal/pga.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index a5dfe20..8748888 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -236,14 +236,14 @@ namespace pga
                     {ind{id, one}, // d * l_x
                      ind{id + 1, one},
                      ind{id, one}, // d * l_y
-                     ind{id + 1, one},
+                     ind{id + 2, one},
                      ind{id, one}, // d * l_z
-                     ind{id + 2, one}},
+                     ind{id + 3, one}},
                     {
                         mon{one, zero, 0, 0},              // 1
-                        mon{minus_one_half, rat{2}, 2, 1}, // -1/2 * l_x
+                        mon{minus_one_half, rat{2}, 2, 0}, // -1/2 * l_x
                         mon{minus_one_half, rat{2}, 2, 2}, // -1/2 * l_y
-                        mon{minus_one_half, rat{2}, 2, 3}  // -1/2 * l_z
+                        mon{minus_one_half, rat{2}, 2, 4}  // -1/2 * l_z
                     },
                     {term{1, 0, 0b0}, term{1, 1, 0b11}, term{1, 2, 0b101}, term{1, 3, 0b1001}}};
         }
-- 
2.43.0


From 9ca8be3d09610ce68b00814b9e81c4ffc17f77e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:37 +0000
Subject: [PATCH 35/47] fix: the size of a direction in the PGA does not exceed
 its capacity

---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 8748888..bfd5d9f 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -403,7 +403,7 @@ namespace pga
         // Like planes, points are represented dually as the intersection of three planes
         GAL_NODISCARD constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{3, 3, 3},
                     {
                         ind{id + 2, one}, // -z
                         ind{id + 1, one}, // y
-- 
2.43.0


From d0f68ab568487f27ef6ca56b4f190fa2066eb25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:37 +0000
Subject: [PATCH 36/47] fix: points of the 2D PGA round-trip through their
 multivector form

---
 public/gal/pga2.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index bdaada1..6c24a6f 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -151,7 +151,7 @@ namespace pga2
                         ind{id + 1, 1}, // -y
                         ind{id, 1}      // x
                     },
-                    {mon{minus_one, one, 0, 1}, // -y
+                    {mon{minus_one, one, 1, 0}, // -y
                      mon{one, one, 1, 1},       // x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x          = w_inv;
-            y          = -w_inv;
+            x *= w_inv;
+            y *= -w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From e33a8780cee5de9ff0c5350ab8179026b064ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:56 +0000
Subject: [PATCH 37/47] fix: comparing a rational with an integer compares
 values

---
 public/gal/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index d5d169a..e08bd3d 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -392,7 +392,7 @@ namespace detail
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, int rhs) noexcept
 {
-    return lhs.den != 1 || lhs.num != rhs;
+    return !(lhs == rat{rhs, 1});
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, rat rhs) noexcept
-- 
2.43.0


From 7f373bc06438e95da4edf926f26ba047547f41e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:04 +0000
Subject: [PATCH 38/47] fix: the zeroth power is one

---
 public/gal/numeric.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index e08bd3d..685114f 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -23,6 +23,10 @@ pow(T s, std::integral_constant<int, N>, std::integral_constant<int, D>) noexcep
     {
         return std::pow(s, T{N} / T{D});
     }
+    else if constexpr (N == 0)
+    {
+        return T{1};
+    }
     else if constexpr (N == 1)
     {
         return s;
-- 
2.43.0


From c145b2cc305b5e4b0dfbb4f30ab80116b94a625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:12 +0000
Subject: [PATCH 39/47] fix: splitting a tuple before its first element keeps
 the elements

---
 public/gal/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 5a05971..851e30c 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -206,7 +206,7 @@ private:
     {
         if constexpr (sizeof...(I1) == 0)
         {
-            if constexpr (sizeof...(I1) == 0)
+            if constexpr (sizeof...(I2) == 0)
             {
                 return make_pair(tuple<>{}, tuple<>{});
             }
-- 
2.43.0


From 289fa5d29a56bed01b798054b8653136d9dccf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:19 +0000
Subject: [PATCH 40/47] fix: split_drop omits the element at the partition
 point

---
 public/gal/tuple.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 851e30c..c3c16d7 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -128,8 +128,7 @@ struct tuple : public tuple_impl<std::make_index_sequence<sizeof...(T)>, T...>
     template <size_t I>
     constexpr auto split_drop() const
     {
-        return split_n(
-            std::make_index_sequence<I>{}, std::make_index_sequence<sizeof...(T) - I - 1>{});
+        return make_pair(split<I>().first, split<I + 1>().second);
     }
 
     // This is a somewhat specialized operation that splits the tuple on the first occurence of the
-- 
2.43.0


From d06b98b57b8378d37ead5f802dc24dad2982b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:26 +0000
Subject: [PATCH 41/47] fix: indeterminate bivectors contain elements of grade
 two only

---
 public/gal/geometric_algebra.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/public/gal/geometric_algebra.hpp b/public/gal/geometric_algebra.hpp
index 6f9534b..77288ef 100644
--- a/public/gal/geometric_algebra.hpp
+++ b/public/gal/geometric_algebra.hpp
@@ -126,7 +126,11 @@ struct algebra
             out.inds[i]  = ind{id++, one};
             out.mons[i]  = mon{one, one, 1, i};
             out.terms[i] = term{1, i, e};
-            e            = next_even(e);
+            // Elements of higher even grade are interspersed among the bivectors
+            do
+            {
+                e = next_even(e);
+            } while (pop_count(e) != 2);
         }
         return out;
     }
-- 
2.43.0


From 9cc4a4f85bad7fba22a837ad733d011cf1dcf4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:02 +0000
Subject: [PATCH 42/47] fix: logarithm of a motor that rotates by half a turn

---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index bfd5d9f..7daf344 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -558,7 +558,8 @@ namespace pga
         entity<pga_algebra, T, 0, 0b1111> inv_norm{T{1} / s2, p2 / l2.template select<0>()};
 
         bool s1_zero = std::abs(s1) < T{1e-6};
-        scalar<pga_algebra, T> u{s1_zero ? ::std::atan2(-p1, p2) : ::std::atan2(s2, s1)};
+        // NOTE: s2 is positive, so the angle is well defined even if s1 vanishes
+        scalar<pga_algebra, T> u{::std::atan2(s2, s1)};
         scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};
 
         return compute(
-- 
2.43.0


From 43a3c0404000c2b14a0cb6b1f1aa9b6bff7b12a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:21 +0000
Subject: [PATCH 43/47] fix: points of the 2D PGA lie on the lines whose
 equation they satisfy

---
 public/gal/pga2.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index 6c24a6f..ab1cf47 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -148,15 +148,15 @@ namespace pga2
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, 1}, // -y
-                        ind{id, 1}      // x
+                        ind{id + 1, 1}, // y
+                        ind{id, 1}      // -x
                     },
-                    {mon{minus_one, one, 1, 0}, // -y
-                     mon{one, one, 1, 1},       // x
+                    {mon{one, one, 1, 0},       // y
+                     mon{minus_one, one, 1, 1}, // -x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
-                        term{1, 0, 0b11},  // -y * e01
-                        term{1, 1, 0b101}, // x * e02
+                        term{1, 0, 0b11},  // y * e01
+                        term{1, 1, 0b101}, // -x * e02
                         term{1, 2, 0b110}  // e12
                     }};
         }
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x *= w_inv;
-            y *= -w_inv;
+            x *= -w_inv;
+            y *= w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 34f0e70036f414696300ec77f97d7e2e9b1fbd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:43 +0000
Subject: [PATCH 44/47] fix: lines given by Pluecker coordinates are the lines
 through the points

---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 7daf344..d6ea1c8 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -487,7 +487,7 @@ namespace pga
                     },
                     {
                         mon{minus_one, one, 1, 0}, // mx
-                        mon{one, one, 1, 1},       // my
+                        mon{minus_one, one, 1, 1}, // my
                         mon{minus_one, one, 1, 2}, // dz
                         mon{minus_one, one, 1, 3}, // mz
                         mon{one, one, 1, 4},       // dy
@@ -522,6 +522,7 @@ namespace pga
             : data{in.template select<0b1100, 0b1010, 0b110, 0b11, 0b101, 0b1001>()}
         {
             mx = -mx;
+            my = -my;
             mz = -mz;
             dx = -dx;
             dz = -dz;
-- 
2.43.0


From ff0e39b9a843d164976114dec090850ce29a26f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:55 +0000
Subject: [PATCH 45/47] fix: select components in the null basis in the
 conformal algebra

---
 public/gal/dfa.hpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 9141ff1..ecf6afd 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -821,15 +821,30 @@ namespace detail
             }
             else if constexpr (n.o == op_comp)
             {
-                constexpr auto pop  = State.args.pop();
-                constexpr auto comp = pop.first.second[n.ex];
-                return rpn_state{
-                    State.inputs,
-                    State.temps,
-                    pop.second.push(make_pair(
-                        pop.first.first,
-                        comp.template resize<comp.size.ind, comp.size.mon, comp.size.term>())),
-                    State.id_count};
+                constexpr auto pop = State.args.pop();
+                if constexpr (uses_null_basis<algebra_t>)
+                {
+                    // Elements are named in the null basis
+                    constexpr auto comp = to_null_basis(pop.first.second)[n.ex];
+                    return rpn_state{
+                        State.inputs,
+                        State.temps,
+                        pop.second.push(make_pair(
+                            pop.first.first,
+                            comp.template resize<comp.size.ind, comp.size.mon, comp.size.term>())),
+                        State.id_count};
+                }
+                else
+                {
+                    constexpr auto comp = pop.first.second[n.ex];
+                    return rpn_state{
+                        State.inputs,
+                        State.temps,
+                        pop.second.push(make_pair(
+                            pop.first.first,
+                            comp.template resize<comp.size.ind, comp.size.mon, comp.size.term>())),
+                        State.id_count};
+                }
             }
             else if constexpr (n.o == op_grd)
             {
-- 
2.43.0


From 756a10fb89370ca8ba2f97406b11cb1f7c4498c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:33 +0000
Subject: [PATCH 46/47] fix: directions of the 2D PGA have two coordinates and
 lie on the ideal line

---
 public/gal/pga2.hpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index ab1cf47..8338786 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -199,51 +199,45 @@ namespace pga2
         using value_t                 = T;
         constexpr static bool is_dual = true;
 
-        std::array<T, 3> data;
+        std::array<T, 2> data;
         struct
         {
             T x;
             T y;
-            T z;
         };
 
-        // Like planes, points are represented dually as the intersection of three planes
-        [[nodiscard]] constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
+        // Directions are points on the ideal line
+        [[nodiscard]] constexpr static mv<algebra_t, 2, 2, 2> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{2, 2, 2},
                     {
-                        ind{id + 2, 1}, // -z
                         ind{id + 1, 1}, // y
                         ind{id, 1}      // -x
                     },
                     {
-                        mon{minus_one, one, 0, 1}, // -z
-                        mon{one, one, 1, 1},       // y
-                        mon{minus_one, one, 2, 1}  // -x
+                        mon{one, one, 1, 0},      // y
+                        mon{minus_one, one, 1, 1} // -x
                     },
                     {
-                        term{1, 0, 0b111},  // -z * e012
-                        term{1, 1, 0b1011}, // y * e013
-                        term{1, 2, 0b1101}  // x * e023
+                        term{1, 0, 0b11}, // y * e01
+                        term{1, 1, 0b101} // -x * e02
                     }};
         }
 
         [[nodiscard]] constexpr static size_t size() noexcept
         {
-            return 3;
+            return 2;
         }
 
-        constexpr vector(T x, T y, T z) noexcept
+        constexpr vector(T x, T y) noexcept
             : x{x}
             , y{y}
-            , z{z}
         {}
 
         template <elem_t... E>
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
-            : data{in.template select<0b1101, 0b1011, 0b111>()}
+            : data{in.template select<0b101, 0b11>()}
         {
-            z = -z;
             x = -x;
         }
 
-- 
2.43.0


From 38b6f398335c95c4afbfd361ab2ffbf4d12846b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:14 +0000
Subject: [PATCH 47/47] fix: several selections in a row in a divisor or
 function argument

The reshaping pass took an input followed by two or more selections (such as
x.select_grade(1)[2]) for a subexpression and marked a subexpression that does
not exist (or an unrelated one) as required, reading outside the list.
---
 public/gal/dfa.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index ecf6afd..0c461a2 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -303,11 +303,14 @@ namespace detail
                 {
                     width_t last_offset = offsets.peek();
                     node const& prev    = expr.nodes[last_offset];
-                    if (last_offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
+                    // Selections (there may be several) do not constitute subexpressions
+                    width_t last_op = i - 1;
+                    while (is_read_op(expr.nodes[last_op].o))
                     {
-                        known.ses[known.count - 1].required = true;
+                        --last_op;
                     }
-                    else if (last_offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
+                    if (last_offset != last_op
+                        && !(prev.o == op_cse && prev.checksum == last_op + 1))
                     {
                         known.ses[known.count - 1].required = true;
                     }
@@ -342,11 +345,13 @@ namespace detail
                 if (i > 2)
                 {
                     node const& prev = expr.nodes[offset];
-                    if (offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
+                    // Selections (there may be several) do not constitute subexpressions
+                    width_t last_op = i - 1;
+                    while (is_read_op(expr.nodes[last_op].o))
                     {
-                        known.ses[known.count - 1].required = true;
+                        --last_op;
                     }
-                    else if (offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
+                    if (offset != last_op && !(prev.o == op_cse && prev.checksum == last_op + 1))
                     {
                         known.ses[known.count - 1].required = true;
                     }
-- 
2.43.0

