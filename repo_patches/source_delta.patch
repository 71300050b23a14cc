From b5151a009301d22cce25f3384d281295f6481e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 01/94] fix: split_n honours include_all_delimiters

With include_all_delimiters split_n kept only the first delimiter of a run,
so its tokens were not a prefix of those produced by split.
---
 strtk.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cc44874..09782ff 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3579,14 +3579,18 @@ namespace strtk
          {
             if (include_delimiters)
             {
-               ++range.second;
+               if (include_1st_delimiter)
+                  ++range.second;
+               else if (include_all_delimiters)
+                  while ((end != range.second) && delimiter(*range.second)) ++range.second;
+
                (*out) = range;
                ++out;
 
                if (++match_count >= token_count)
                   return match_count;
 
-               if (compress_delimiters)
+               if ((!include_all_delimiters) && compress_delimiters)
                   while ((end != range.second) && delimiter(*range.second)) ++range.second;
             }
             else
-- 
2.43.0


From aa616c54a03a14de0089b5513e8d73041c084727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 02/94] fix: predicate based split_on_consecutive_n could not
 be instantiated

---
 strtk.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 09782ff..1c5d2f2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15956,7 +15956,7 @@ namespace strtk
 
       while ((end != itr_range.first) && (match_count <= n))
       {
-         range_type found_itr = details::find_exactly_n_consecutive_values(m,p,itr_range);
+         range_type found_itr = details::find_exactly_n_consecutive_values<iterator_type,Predicate>(m,p,itr_range);
          if ((end == found_itr.first) && (found_itr.first == found_itr.second))
          {
             break;
@@ -16201,14 +16201,13 @@ namespace strtk
                                              const char* end,
                                              OutputIterator out)
    {
-      return split_on_consecutive_n<Predicate,
-                                    char*,
-                                    OutputIterator>(n,
-                                                    m,
-                                                    p,
-                                                    const_cast<char*>(begin),
-                                                    const_cast<char*>(end),
-                                                    out);
+      return split_on_consecutive<Predicate,
+                                  OutputIterator>(n,
+                                                  m,
+                                                  p,
+                                                  const_cast<char*>(begin),
+                                                  const_cast<char*>(end),
+                                                  out);
    }
 
    template <typename Predicate, typename OutputIterator>
-- 
2.43.0


From 913be4fc68f6ff73ba920d358bf7a4f3571a94b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 03/94] fix: split_on_consecutive_n delivered one run more than
 requested

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1c5d2f2..e93c3f9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15954,7 +15954,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = details::find_exactly_n_consecutive_values<iterator_type,Predicate>(m,p,itr_range);
          if ((end == found_itr.first) && (found_itr.first == found_itr.second))
@@ -16026,7 +16026,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = find_n_consecutive<iterator_type>(m,type,mode,itr_range);
 
-- 
2.43.0


From 78b0bf81b02ff65fc4c0097861726da8a86cf9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 04/94] fix: match_n_consecutive(atleast_n) failed when the run
 reached the end of the range

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index e93c3f9..321abc0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15803,7 +15803,7 @@ namespace strtk
                return false;
          }
 
-         return false;
+         return (count >= n);
       }
 
       template <typename Iterator,typename Predicate>
-- 
2.43.0


From 77c6e46b334677aee397aa162a394d1474c348f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 05/94] fix: consecutive value search with a stateful predicate
 ran past the end

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 321abc0..ab17732 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15668,7 +15668,7 @@ namespace strtk
                   ++itr;
                if (!stateful_predicate)
                   count = n;
-               else
+               else if (end != itr)
                {
                   --count;
                   ++itr;
-- 
2.43.0


From 58f4604b8f2422c444d251bef0ec0771eb8ab119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 06/94] fix: split_regex_n delivered one match when none was
 requested

---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index ab17732..954a5d8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3806,6 +3806,8 @@ namespace strtk
                                     OutputIterator out,
                                     const regex_match_mode::type mode = regex_match_mode::match_all)
    {
+      if (0 == token_count) return 0;
+
       boost::sregex_iterator itr(begin,end,delimiter_expression);
       const boost::sregex_iterator itr_end;
       std::pair<InputIterator,InputIterator> range(begin,begin);
-- 
2.43.0


From bc8e81c0f9b395fd46af1f647956e0e6471f9de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 07/94] fix: conversion to long and unsigned long rejected
 values above 32 bits on LP64

---
 strtk.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 954a5d8..a4b4270 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22,6 +22,7 @@
 #include <algorithm>
 #include <cctype>
 #include <cerrno>
+#include <climits>
 #include <cmath>
 #include <cstddef>
 #include <cstring>
@@ -16917,10 +16918,10 @@ namespace strtk
       template<>
       struct numeric<long>
       {
-         static const unsigned int length       = 10;
-         static const unsigned int size         = 16;
-         static const unsigned int bound_length = 10;
-         static const long m10                  = 214748364;
+         static const unsigned int length       = (sizeof(long) > 4) ? 19 : 10;
+         static const unsigned int size         = (sizeof(long) > 4) ? 24 : 16;
+         static const unsigned int bound_length = (sizeof(long) > 4) ? 19 : 10;
+         static const long m10                  = LONG_MAX / 10;
          static const long ldpos                =  7;
          static const long ldneg                =  8;
       };
@@ -16928,10 +16929,10 @@ namespace strtk
       template<>
       struct numeric<unsigned long>
       {
-         static const unsigned int  length       = 10;
-         static const unsigned int  size         = 16;
-         static const unsigned int  bound_length = 10;
-         static const unsigned long m10          = 429496729;
+         static const unsigned int  length       = (sizeof(unsigned long) > 4) ? 20 : 10;
+         static const unsigned int  size         = (sizeof(unsigned long) > 4) ? 24 : 16;
+         static const unsigned int  bound_length = (sizeof(unsigned long) > 4) ? 20 : 10;
+         static const unsigned long m10          = ULONG_MAX / 10;
          static const unsigned long ldpos        = 5;
       };
 
-- 
2.43.0


From e28f54ef327e5178e0dfec931d8ecc2ba246f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 08/94] fix: signed overflow when converting the smallest value
 of a signed type

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a4b4270..6cc1db1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17495,9 +17495,11 @@ namespace strtk
                return false;
          }
 
-         t = t * 10 + static_cast<T>(digit);
+         if (last_digit == numeric<T>::ldpos)
+            result = static_cast<T>(t * 10 + static_cast<T>(digit));
+         else
+            result = static_cast<T>(-t * 10 - static_cast<T>(digit));
 
-         result = (last_digit == numeric<T>::ldpos) ? t : -t;
          itr_external = itr;
          return true;
       }
-- 
2.43.0


From d8cd1402d5e1144e16074ecc40e79788e7e74118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 09/94] fix: pow10 read outside its table and mis-scaled for
 exponents beyond 308

Negative exponents below -615 (or that many fraction digits) indexed past
fract10, long double exponents beyond 308 were scaled by 10^(10*exponent),
and a zero mantissa with a large exponent gave NaN.
---
 strtk.hpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6cc1db1..71ea374 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16827,22 +16827,24 @@ namespace strtk
 
          const int e = std::abs(exponent);
 
-         if (exponent >= std::numeric_limits<T>::min_exponent10)
+         if (e < fract10_size)
          {
-            if (e < fract10_size)
-            {
-               if (exponent > 0)
-                  return T(d * fract10[e]);
-               else
-                  return T(d / fract10[e]);
-            }
+            if (exponent > 0)
+               return T(d * fract10[e]);
             else
-               return T(d * std::pow(10.0, 10.0 * exponent));
+               return T(d / fract10[e]);
          }
+         else if (T(0) == d)
+            return d;
+         else if (exponent > 0)
+            return T(d * std::pow(T(10), T(e)));
          else
          {
-                     d /= fract10[          -std::numeric_limits<T>::min_exponent10];
-            return T(d / fract10[-exponent + std::numeric_limits<T>::min_exponent10]);
+            const int r = e - (fract10_size - 1);
+
+            d /= T(fract10[fract10_size - 1]);
+
+            return T(d / ((r < fract10_size) ? T(fract10[r]) : std::pow(T(10), T(r))));
          }
       }
 
-- 
2.43.0


From d8ad64a6c6908061c8098a713e23d5f138a3aadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 10/94] fix: exponent parsing skipped an invalid character

"1e1xf" was accepted as 10 because the character that ended the exponent
digits was consumed. The look-up table variant also indexed its table with
a negative value for bytes above 0x7F.
---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 71ea374..113faf9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17534,11 +17534,11 @@ namespace strtk
                #ifdef strtk_use_lut
 
                #define strtk_process_digit \
-               if (strtk_likely((digit = details::digit_table[(int)*itr++]) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
 
                #else
                #define strtk_process_digit \
-               if (strtk_likely((digit = (*itr++ - '0')) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = (*itr - '0')) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
 
                #endif
 
@@ -17646,10 +17646,10 @@ namespace strtk
          #ifdef strtk_use_lut
 
          #define parse_digit_1(d) \
-         if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { d = d * real_t(10) + digit; } else break; if (end == ++itr) break; \
+         if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { d = d * real_t(10) + digit; } else break; if (end == ++itr) break; \
 
          #define parse_digit_2(d) \
-         if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { d = d * real_t(10) + digit; } else break; ++itr; \
+         if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { d = d * real_t(10) + digit; } else break; ++itr; \
 
          #else
 
-- 
2.43.0


From 4cddfe02736bfeae9a2e54d632e3a0fd541df502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 11/94] fix: a real number whose exponent has no digits was
 accepted (1ef, 1e+f)

---
 strtk.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 113faf9..1e21cb0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17721,6 +17721,14 @@ namespace strtk
 
                if (('e' == c) || ('E' == c))
                {
+                  Iterator exp_itr = itr;
+
+                  if ((end != ++exp_itr) && (('-' == (*exp_itr)) || ('+' == (*exp_itr))))
+                     ++exp_itr;
+
+                  if ((end == exp_itr) || ((*exp_itr) < '0') || ((*exp_itr) > '9'))
+                     return false;
+
                   int exp = 0;
 
                   if (!details::string_to_type_converter_impl_ref(++itr,end,exp,details::signed_type_tag()))
-- 
2.43.0


From 689a0ca44589a6a2e06fe5cd5dd4b7f937d21ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 12/94] fix: fixed length signed fast conversions could not be
 instantiated and returned nothing for negatives

---
 strtk.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1e21cb0..7f48c3a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13567,9 +13567,9 @@ namespace strtk
       inline bool signed_all_digits_check(Iterator itr)
       {
          if (('-' == (*itr)) || ('+' == (*itr)))
-            return all_digits_check<Iterator,N - 1>((itr + 1));
+            return all_digits_check<N - 1,Iterator>((itr + 1));
          else
-            return all_digits_check<Iterator,N>(itr);
+            return all_digits_check<N,Iterator>(itr);
       }
 
       template <typename Iterator>
@@ -13661,16 +13661,17 @@ namespace strtk
       {
          if ('-' == (*itr))
          {
-            numeric_convert<N - 1,T,Iterator>((itr + 1),t,digit_check);
+            if (!numeric_convert<T,Iterator>(N - 1,(itr + 1),t,digit_check))
+               return false;
             typename strtk::details::supported_conversion_to_type<T>::type type;
-            details::negate(t,type);
+            return details::negate(t,type);
          }
          else if ('+' == (*itr))
          {
-            return numeric_convert<N - 1,T,Iterator>((itr + 1),t,digit_check);
+            return numeric_convert<T,Iterator>(N - 1,(itr + 1),t,digit_check);
          }
          else
-            return numeric_convert<N,T,Iterator>(itr,t,digit_check);
+            return numeric_convert<T,Iterator>(N,itr,t,digit_check);
       }
 
       template <typename T, typename Iterator>
-- 
2.43.0


From 34ef9f06ce2571059b82dcd7ee3bc75f7cd071ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 13/94] fix: convert_hex_to_bin accepted characters that are
 not hexadecimal digits

---
 strtk.hpp | 71 +++++++++++++++++++++++++++++--------------------------
 1 file changed, 38 insertions(+), 33 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7f48c3a..49539b2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4482,46 +4482,51 @@ namespace strtk
 
       static const unsigned char hex_to_bin[] =
                                  {
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x00 - 0x07
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x08 - 0x0F
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x10 - 0x17
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x18 - 0x1F
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x20 - 0x27
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x28 - 0x2F
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x00 - 0x07
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x08 - 0x0F
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x10 - 0x17
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x18 - 0x1F
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x20 - 0x27
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x28 - 0x2F
                                     0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, // 0x30 - 0x37
-                                    0x08, 0x09, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x38 - 0x3F
-                                    0x00, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0x00, // 0x40 - 0x47
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x48 - 0x4F
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x50 - 0x57
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x58 - 0x5F
-                                    0x00, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0x00, // 0x60 - 0x67
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x68 - 0x6F
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x70 - 0x77
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x78 - 0x7F
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x80 - 0x87
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x88 - 0x8F
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x90 - 0x97
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0x98 - 0x9F
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xA0 - 0xA7
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xA8 - 0xAF
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xB0 - 0xB7
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xB8 - 0xBF
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xC0 - 0xC7
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xC8 - 0xCF
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xD0 - 0xD7
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xD8 - 0xDF
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xE0 - 0xE7
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xE8 - 0xEF
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, // 0xF0 - 0xF7
-                                    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00  // 0xF8 - 0xFF
+                                    0x08, 0x09, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x38 - 0x3F
+                                    0xFF, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0xFF, // 0x40 - 0x47
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x48 - 0x4F
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x50 - 0x57
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x58 - 0x5F
+                                    0xFF, 0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x0F, 0xFF, // 0x60 - 0x67
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x68 - 0x6F
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x70 - 0x77
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x78 - 0x7F
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x80 - 0x87
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x88 - 0x8F
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x90 - 0x97
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0x98 - 0x9F
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xA0 - 0xA7
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xA8 - 0xAF
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xB0 - 0xB7
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xB8 - 0xBF
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xC0 - 0xC7
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xC8 - 0xCF
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xD0 - 0xD7
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xD8 - 0xDF
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xE0 - 0xE7
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xE8 - 0xEF
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, // 0xF0 - 0xF7
+                                    0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF  // 0xF8 - 0xFF
                                  };
 
       const unsigned char* itr = begin;
 
       while (end != itr)
       {
-         *reinterpret_cast<unsigned char*>(out) = static_cast<unsigned char>(hex_to_bin[itr[0]] << 4 | hex_to_bin[itr[1]]);
-         ++out;
+         const unsigned char high = hex_to_bin[itr[0]];
+         const unsigned char low  = hex_to_bin[itr[1]];
+
+         if ((high | low) & 0xF0)
+            return false;
+
+         *(out++) = static_cast<unsigned char>((high << 4) | low);
          itr += 2;
       }
 
-- 
2.43.0


From 5580a369bcb94f3002c6982c1d5da735bca1d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 14/94] fix: convert_base64_to_bin read before texts shorter
 than two characters

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 49539b2..d22a6d4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4677,9 +4677,11 @@ namespace strtk
 
       const unsigned char* end_itr = end;
 
-      if ('=' == *(end - 2))
+      const std::size_t total = std::distance(begin,end);
+
+      if ((total >= 2) && ('=' == *(end - 2)))
          end_itr = end - 2;
-      else if ('=' == *(end - 1))
+      else if ((total >= 1) && ('=' == *(end - 1)))
          end_itr = end - 1;
 
       const std::size_t length = std::distance(begin,end_itr);
-- 
2.43.0


From 2fe2a66d2ae8aaa7e5c83892001544498dc46cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 15/94] fix: hex and base64 number sinks could not be copied

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d22a6d4..7f2a471 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14854,7 +14854,7 @@ namespace strtk
       {}
 
       hex_to_number_sink(const hex_to_number_sink& hns)
-      : valid_(hns.valid),
+      : valid_(hns.valid_),
         t_(hns.t_)
       {}
 
@@ -14956,7 +14956,7 @@ namespace strtk
       {}
 
       base64_to_number_sink(const base64_to_number_sink& bns)
-      : valid_(bns.valid),
+      : valid_(bns.valid_),
         t_(bns.t_)
       {}
 
-- 
2.43.0


From 44750260232f78352153eab5048f6db019075b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 16/94] fix: hex_to_number_sink misplaced short numbers and
 kept a stale valid state

---
 strtk.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7f2a471..99e379f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14872,23 +14872,26 @@ namespace strtk
          const std::size_t size = std::distance(s.first,s.second);
          if ((size > 2) && ((*s.first) == '0') && (((*(s.first + 1)) == 'x') || ((*(s.first + 1)) == 'X')))
             offset = 2;
-         if ((size - offset) > (2 * sizeof(T)))
-            return (*this);
 
          const std::size_t buffer_size = 2 * sizeof(T);
-         const std::size_t buffer_offset = ((size - offset) % 2);
-         char buffer[buffer_size] = { '0' };
+         char buffer[buffer_size];
+
+         valid_ = false;
+
+         if ((size == offset) || ((size - offset) > buffer_size))
+            return (*this);
+
          if (!range_only_contains(hex_value_check(),s.first + offset,s.first + size))
-         {
-            valid_ = false;
             return (*this);
-         }
 
+         const std::size_t buffer_offset = buffer_size - (size - offset);
+
+         std::fill_n(buffer, buffer_offset, '0');
          std::copy(s.first + offset, s.first + size, buffer + buffer_offset);
-         (*t_) = 0;
-         valid_= convert_hex_to_bin(buffer,
-                                    buffer + (size - offset) + buffer_offset,
-                                    reinterpret_cast<char*>(t_));
+
+         valid_ = convert_hex_to_bin(buffer,
+                                     buffer + buffer_size,
+                                     reinterpret_cast<char*>(t_));
          reverse_bytes();
          return (*this);
       }
-- 
2.43.0


From dd8ff1e0d686f2f2a9d51dbbd04bccd3f7c9f039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 17/94] fix: base64_to_number_sink never became valid and could
 write past its number

---
 strtk.hpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 99e379f..69a3ea6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14972,33 +14972,34 @@ namespace strtk
 
       inline base64_to_number_sink& operator=(const std::string& s)
       {
-         if (!range_only_contains(base64_value_check(), to_ptr(s), to_ptr(s) + s.size()))
-         {
-            valid_ = false;
-            return (*this);
-         }
-
-         (*t_) = T(0);
-
-         convert_base64_to_bin(to_ptr(s), to_ptr(s) + s.size(), reinterpret_cast<char*>(t_));
-         reverse_bytes();
-
-         return (*this);
+         return this->operator =(std::make_pair(to_ptr(s), to_ptr(s) + s.size()));
       }
 
       template <typename InputIterator>
       inline base64_to_number_sink& operator=(const std::pair<InputIterator,InputIterator>& s)
       {
+         const std::size_t size = std::distance(s.first,s.second);
+
+         const std::size_t buffer_size = sizeof(T) + 3;
+         char buffer[buffer_size];
+
+         valid_ = false;
+
+         if ((0 == size) || (((3 * size) / 4) > buffer_size))
+            return (*this);
+
          if (!range_only_contains(base64_value_check(),s.first,s.second))
-         {
-            valid_ = false;
             return (*this);
-         }
 
-         (*t_) = T(0);
+         const std::size_t length = convert_base64_to_bin(s.first, s.second, buffer);
 
-         convert_base64_to_bin(s.first, s.second,reinterpret_cast<char*>(t_));
+         if ((0 == length) || (length > sizeof(T)))
+            return (*this);
+
+         (*t_) = T(0);
+         std::copy(buffer, buffer + length, reinterpret_cast<char*>(t_) + (sizeof(T) - length));
          reverse_bytes();
+         valid_ = true;
 
          return (*this);
       }
-- 
2.43.0


From 4514a92c076c3560b0eaa486174bb02a99839630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 18/94] fix: remove_duplicates indexed its table with a signed
 char

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 69a3ea6..53327b4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1433,16 +1433,16 @@ namespace strtk
 
    inline std::string remove_duplicates(const std::string& str)
    {
-      std::string::value_type table[0xFF];
-      std::fill_n(table,0xFF,static_cast<char>(0));
+      std::string::value_type table[256];
+      std::fill_n(table,256,static_cast<char>(0));
       std::string result;
       result.reserve(str.size());
       for (std::size_t i = 0; i < str.size(); ++i)
       {
          const char c = str[i];
-         if (0 == table[static_cast<std::size_t>(c)])
+         if (0 == table[static_cast<unsigned char>(c)])
          {
-            table[static_cast<std::size_t>(c)] = 0x01;
+            table[static_cast<unsigned char>(c)] = 0x01;
             result += c;
          }
       }
-- 
2.43.0


From c21d49c166c724892a662baf0b5dae9758c0b637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 19/94] fix: remove_duplicates_inplace left its argument
 unchanged

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 53327b4..5217b5a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1451,7 +1451,8 @@ namespace strtk
 
    inline std::string remove_duplicates_inplace(std::string& str)
    {
-      return remove_duplicates(str);
+      str = remove_duplicates(str);
+      return str;
    }
 
    template <typename Iterator, typename Predicate>
-- 
2.43.0


From 934a6c9ff703fbab64d6f2acfc317dd9a108f050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 20/94] fix: remove_trailing never removed the first element

---
 strtk.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5217b5a..9ea5604 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1464,12 +1464,11 @@ namespace strtk
       if (0 == length)
          return 0;
 
-      Iterator itr = begin + (length - 1);
+      Iterator itr = end;
       std::size_t removal_count = 0;
 
-      while ((begin != itr) && predicate(*itr))
+      while ((begin != itr) && predicate(*(--itr)))
       {
-         --itr;
          ++removal_count;
       }
 
-- 
2.43.0


From 695bd925a998c7d7423d564588fbdd03c11835f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 21/94] fix: index_remover dereferenced the end of an empty
 index list

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9ea5604..0269ff3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1156,7 +1156,7 @@ namespace strtk
          : itr_(sequence.begin()),
            end_(sequence.end()),
            current_index_(0),
-           check_(true)
+           check_(!sequence.empty())
          {}
 
          template <typename T>
-- 
2.43.0


From ace667eb843797a0965831dc90a8a312cc6261dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 22/94] fix: wildcard match follows every expansion of the
 pattern and stays inside both ranges

---
 strtk.hpp | 61 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0269ff3..dfe0662 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1906,47 +1906,48 @@ namespace strtk
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_more,
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_one)
       {
-         Iterator d_itr = data_begin;
-         Iterator p_itr = pattern_begin;
+         // state[i]: the first i pattern elements match the data consumed so far
+         std::vector<char> state(std::distance(pattern_begin,pattern_end) + 1,0);
 
-         while ((p_itr != pattern_end) && (d_itr != data_end))
+         std::size_t i = 0;
+
+         state[0] = 1;
+
+         for (Iterator p_itr = pattern_begin; p_itr != pattern_end; ++p_itr, ++i)
          {
-            if (match_zero_or_more == *p_itr)
-            {
-               while ((p_itr != pattern_end) && (*p_itr == match_zero_or_more || *p_itr == match_zero_or_one))
-               {
-                  ++p_itr;
-               }
+            if ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr))
+               state[i + 1] = state[i];
+         }
 
-               if (p_itr == pattern_end)
-                  return true;
+         for (Iterator d_itr = data_begin; d_itr != data_end; ++d_itr)
+         {
+            char prev  = state[0];
+            bool alive = false;
 
-               const typename std::iterator_traits<Iterator>::value_type c = *(p_itr++);
+            i = 0;
 
-               while ((d_itr != data_end) && !Comparator::cmp(c, *d_itr))
-               {
-                  ++d_itr;
-               }
+            state[0] = 0;
 
-               ++d_itr;
-            }
-            else if ((*p_itr == match_zero_or_one) || Comparator::cmp(*p_itr, *d_itr))
+            for (Iterator p_itr = pattern_begin; p_itr != pattern_end; ++p_itr, ++i)
             {
-               ++d_itr;
-               ++p_itr;
+               const char curr = state[i + 1];
+
+               if (match_zero_or_more == *p_itr)
+                  state[i + 1] = (state[i] || curr);
+               else if (match_zero_or_one == *p_itr)
+                  state[i + 1] = (state[i] || prev);
+               else
+                  state[i + 1] = (prev && Comparator::cmp(*p_itr, *d_itr));
+
+               alive = alive || state[i + 1];
+               prev  = curr;
             }
-            else
+
+            if (!alive)
                return false;
          }
 
-         if (d_itr != data_end)
-            return false;
-         else if (p_itr == pattern_end)
-            return true;
-         else if ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr))
-            ++p_itr;
-
-         return pattern_end == p_itr;
+         return (0 != state[i]);
       }
    }
 
-- 
2.43.0


From 7217f18171cc2fc452ff83ba9d0ff65e7e0804ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 23/94] fix: find_all and ifind_all looped forever on an empty
 pattern

---
 strtk.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index dfe0662..4ea9c66 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2063,6 +2063,8 @@ namespace strtk
       Iterator itr = begin;
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
+      if (0 == pattern_length)
+         return 0;
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end)))
       {
          (*out) = std::make_pair(itr,itr + pattern_length);
@@ -2112,6 +2114,9 @@ namespace strtk
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
 
+      if (0 == pattern_length)
+         return 0;
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end, imatch_char)))
       {
          (*out) = std::make_pair(itr, itr + pattern_length);
-- 
2.43.0


From 90269be167bbd2f9c27ca01cb41cc45c6f456a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 24/94] fix: imatch against a sequence or set of strings did
 not compile

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4ea9c66..fa87a7c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2024,7 +2024,7 @@ namespace strtk
    template <typename Iterator>
    inline Iterator imatch(const std::string& s, const Iterator begin, const Iterator end)
    {
-      for (const std::string* itr = begin; end != itr; ++itr)
+      for (Iterator itr = begin; end != itr; ++itr)
       {
          if (imatch(s,*itr))
          {
@@ -2044,13 +2044,13 @@ namespace strtk
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::set<std::string,Comparator,Allocator>& set)
    {
-      return imatch(s, set.begin(), set.end());
+      return (set.end() != imatch(s, set.begin(), set.end()));
    }
 
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::multiset<std::string,Comparator,Allocator>& multiset)
    {
-      return imatch(s, multiset.begin(), multiset.end());
+      return (multiset.end() != imatch(s, multiset.begin(), multiset.end()));
    }
 
    template <typename Iterator, typename OutputIterator>
-- 
2.43.0


From 2c25baf89c7c9b012f907b896d544aa28ddcd194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:13 +0000
Subject: [PATCH 25/94] fix: replace_pattern did not advance a plain output
 iterator

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index fa87a7c..2453b9d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1853,9 +1853,9 @@ namespace strtk
          pos = std::distance(s_begin,temp_s_itr) - p_size;
          int diff = pos - prev_pos;
 
-         std::copy(s_itr,s_itr + diff, out);
+         out = std::copy(s_itr,s_itr + diff, out);
          s_itr = temp_s_itr;
-         std::copy(r_itr,r_end, out);
+         out = std::copy(r_itr,r_end, out);
 
          pos += p_size;
          prev_pos = pos;
-- 
2.43.0


From b9047c982251df78d1c8a468ae1a18d94e447053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 26/94] fix: parse_n into an array did not compile

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2453b9d..519a8ca 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3049,7 +3049,8 @@ namespace strtk
       {}
 
       range_to_ptr_type_iterator(const range_to_ptr_type_iterator& itr)
-      : pointer_(itr.pointer_)
+      : pointer_(itr.pointer_),
+        insert_count_(itr.insert_count_)
       {}
 
       inline range_to_ptr_type_iterator& operator=(const range_to_ptr_type_iterator& itr)
-- 
2.43.0


From 7446e5b41d65f1b72ff995c444213e0b59838475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 27/94] fix: filter_on_wildcard_match let through what it
 should hold back

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 519a8ca..825ea95 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7700,7 +7700,7 @@ namespace strtk
       template <typename Iterator>
       inline void operator() (const std::pair<Iterator,Iterator>& range) const
       {
-         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') ^ allow_through_on_match_)
+         if (match(to_ptr(match_pattern_),to_ptr(match_pattern_) + match_pattern_.size(),range.first,range.second,'*','?') == allow_through_on_match_)
          {
             predicate_(range);
          }
@@ -7708,7 +7708,7 @@ namespace strtk
 
       inline void operator() (const std::string& s) const
       {
-         if (match(match_pattern_,s) ^ allow_through_on_match_)
+         if (match(match_pattern_,s) == allow_through_on_match_)
          {
             predicate_(s);
          }
-- 
2.43.0


From b9a6f46a0ad521eb2694c86b43b22ec3f9d2b686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 28/94] fix: filter_on_match compared prefixes only and read
 past short fields

---
 strtk.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 825ea95..889866d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7748,7 +7748,9 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch(to_ptr((*itr)), to_ptr((*itr)) + (*itr).size(), range.first,range.second))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(), (*itr).end(), range.first))
+                 (!case_insensitive_ &&
+                 (static_cast<std::size_t>(std::distance(range.first,range.second)) == (*itr).size()) &&
+                 std::equal((*itr).begin(), (*itr).end(), range.first))
                )
             {
                if (allow_through_on_match_)
@@ -7773,14 +7775,15 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch((*itr).begin(),(*itr).end(),s.begin(),s.end()))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(),(*itr).end(),s.begin()))
+                 (!case_insensitive_ && ((*itr) == s))
                )
             {
                if (allow_through_on_match_)
                {
                   predicate_(s);
-                  return;
                }
+
+               return;
             }
          }
 
-- 
2.43.0


From 5a98597b2e084c77f347553930bb734c867d5bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 29/94] fix: filter_on_wildcard_match did not compile for
 character pointer ranges

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 889866d..eae09f9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7700,7 +7700,7 @@ namespace strtk
       template <typename Iterator>
       inline void operator() (const std::pair<Iterator,Iterator>& range) const
       {
-         if (match(to_ptr(match_pattern_),to_ptr(match_pattern_) + match_pattern_.size(),range.first,range.second,'*','?') == allow_through_on_match_)
+         if (match(match_pattern_,std::string(range.first,range.second)) == allow_through_on_match_)
          {
             predicate_(range);
          }
-- 
2.43.0


From 0de8feeaebfb819ed44a4c9ea85253e2b64a8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 30/94] fix: parse_n over a pair of iterators called parse and
 did not compile

---
 strtk.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index eae09f9..3e6a585 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -9752,7 +9752,7 @@ namespace strtk
                               Sequence<T,Allocator>& sequence,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,sequence,split_option);
+      return parse_n(range.first,range.second,delimiters,n,sequence,split_option);
    }
 
    template <typename InputIterator,
@@ -9765,7 +9765,7 @@ namespace strtk
                               std::set<T,Comparator,Allocator>& set,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,set,split_option);
+      return parse_n(range.first,range.second,delimiters,n,set,split_option);
    }
 
    template <typename InputIterator,
@@ -9778,7 +9778,7 @@ namespace strtk
                               std::multiset<T,Comparator,Allocator>& multiset,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,multiset,split_option);
+      return parse_n(range.first,range.second,delimiters,n,multiset,split_option);
    }
 
    template <typename InputIterator,
@@ -9790,7 +9790,7 @@ namespace strtk
                               std::queue<T,Container>& queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,queue,split_option);
    }
 
    template <typename InputIterator,
@@ -9802,7 +9802,7 @@ namespace strtk
                               std::stack<T,Container>& stack,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,stack,split_option);
+      return parse_n(range.first,range.second,delimiters,n,stack,split_option);
    }
 
    template <typename InputIterator,
@@ -9815,7 +9815,7 @@ namespace strtk
                               std::priority_queue<T,Container,Comparator>& priority_queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,priority_queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,priority_queue,split_option);
    }
 
    template <typename T1 , typename T2 , typename T3 , typename  T4,
-- 
2.43.0


From 49f91ea6815eda9ccbe77a2c675342ac51ad0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 31/94] fix: token_grid trim_dquotes read outside of empty
 cells and inverted single quote cells

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 3e6a585..902ce78 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7530,6 +7530,7 @@ namespace strtk
                for (std::size_t i = 0; i < dsv_index_.token_list.size(); ++i)
                {
                   if (
+                      (std::distance(dsv_index_.token_list[i].first,dsv_index_.token_list[i].second) > 1) &&
                       ((*(dsv_index_.token_list[i].first     )) == '"') &&
                       ((*(dsv_index_.token_list[i].second - 1)) == '"')
                      )
-- 
2.43.0


From 3debbd086df4c27b343fa94fd384855a9d1dccd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 32/94] fix: token_grid unbalanced double quote in a row
 changed how the following rows were split

---
 strtk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 902ce78..c28e44f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5464,7 +5464,9 @@ namespace strtk
 
             row_start_index_ = static_cast<index_t>(idx_.token_list.size());
 
-            std::size_t token_count = split(token_predicate_,
+            const DelimiterPredicate row_predicate(token_predicate_);
+
+            std::size_t token_count = split(row_predicate,
                                             range.first, range.second,
                                             std::back_inserter(idx_.token_list),
                                             split_mode_);
-- 
2.43.0


From 2abd1dc5f50c9ff950e64587130ee0fcbb573c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 33/94] fix: token_grid kept cells of the released buffer after
 a failed load

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c28e44f..d4f57c0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7497,12 +7497,12 @@ namespace strtk
 
       inline bool load()
       {
-         if (load_from_file_ && !load_buffer_from_file())
-            return false;
-
          dsv_index_.token_list.clear();
          dsv_index_.row_index.clear();
 
+         if (load_from_file_ && !load_buffer_from_file())
+            return false;
+
          multiple_char_delimiter_predicate text_newline_predicate(options_.row_delimiters);
 
          if (!options_.support_dquotes)
-- 
2.43.0


From ffab935cfabbddb78ca3f1f2bb07c3c026740287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 34/94] fix: token_grid column limits were stale after removing
 rows

---
 strtk.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index d4f57c0..5193144 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6747,6 +6747,7 @@ namespace strtk
          if (index < dsv_index_.row_index.size())
          {
             dsv_index_.remove_row(index);
+            update_minmax_columns();
          }
       }
 
@@ -6801,6 +6802,11 @@ namespace strtk
             remove_inplace(index_remover(remove_token_list),dsv_index_.token_list);
          }
 
+         if (!remove_row_list.empty())
+         {
+            update_minmax_columns();
+         }
+
          return true;
       }
 
-- 
2.43.0


From 4d3b071932f204766327b2217faf513c585ec795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 35/94] fix: token_grid enforce column count ignored the row
 range

---
 strtk.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5193144..d577777 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6891,10 +6891,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_columns(column_count));
-
-         min_column_count_ = column_count;
-         max_column_count_ = column_count;
+         remove_row_if(row_range,insufficient_number_of_columns(column_count));
       }
 
       inline void enforce_column_count(const std::size_t& column_count)
@@ -6909,10 +6906,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_minmax_columns(min_column_count,max_column_count));
-
-         min_column_count_ = min_column_count;
-         max_column_count_ = max_column_count;
+         remove_row_if(row_range,insufficient_number_of_minmax_columns(min_column_count,max_column_count));
       }
 
       inline void enforce_min_max_column_count(const std::size_t& min_column_count,
-- 
2.43.0


From 76318e1775853704f1e1e8d9e3e317e572755bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 36/94] fix: token_grid join_row dropped the last cell of the
 last row

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d577777..4d4ee14 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7106,9 +7106,9 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = dsv_index_.token_list.begin() + r.first;
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
@@ -7143,9 +7143,9 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = (dsv_index_.token_list.begin() + r.first);
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
-- 
2.43.0


From 73db67b2d22495169388a64ebc7064470fee3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 37/94] fix: token_grid join_column with predicate omitted the
 delimiter before the last row

---
 strtk.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4d4ee14..88aab15 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7239,8 +7239,6 @@ namespace strtk
 
          bool appended = false;
 
-         const std::size_t pre_end_index = row_range.second - 1;
-
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
             const row_index_range_t& r = dsv_index_.row_index[i];
@@ -7250,7 +7248,7 @@ namespace strtk
                row_type row = row_type(i,dsv_index_);
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended && (pre_end_index != i))
+               if (!delimiter.empty() && appended)
                   result.append(delimiter);
 
                appended = false;
-- 
2.43.0


From ba1861c03b43b48551b16b573412a7651bca29d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 38/94] fix: token_grid sequential_partition merged single row
 partitions

---
 strtk.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 88aab15..f8e5c77 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7288,19 +7288,13 @@ namespace strtk
 
          for (row_range_t::first_type i = row_range.first; i < row_range.second; ++i)
          {
-            if (p(row_type(i,dsv_index_)))
+            if (p(row_type(i,dsv_index_)) && (r.first != i))
             {
-               if (r.first != r.second)
-               {
-                  r.second = i;
-                  if (!f(*this,r))
-                     return false;
-               }
-
-               r.first = r.second;
-            }
-            else
                r.second = i;
+               if (!f(*this,r))
+                  return false;
+               r.first = i;
+            }
          }
 
          if (r.first != row_range.second)
-- 
2.43.0


From 8ecaff623e2c7b772952ef1656c3ebbc1117145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 39/94] fix: token_grid extract_column did not advance the
 output iterator between rows

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f8e5c77..268b317 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7563,7 +7563,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token(const range_t& range, OutputIterator out) const
+      inline void process_token(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
          (*out) = string_to_type_converter<output_type>(range.first,range.second);
@@ -7571,7 +7571,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token_checked(const range_t& range, OutputIterator out) const
+      inline void process_token_checked(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
 
-- 
2.43.0


From 84c0462c92b311f75b00daced778205440345750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 40/94] fix: token_grid range counted cells instead of rows

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 268b317..1764dc7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5495,9 +5495,9 @@ namespace strtk
       {
          if (upper_bound == std::numeric_limits<index_t>::max())
          {
-            upper_bound = static_cast<index_t>(dsv_index_.token_list.size());
+            upper_bound = static_cast<index_t>(dsv_index_.row_index.size());
          }
-         else if (upper_bound > dsv_index_.token_list.size())
+         else if (upper_bound > dsv_index_.row_index.size())
          {
             return row_range_t(std::numeric_limits<index_t>::max(),std::numeric_limits<index_t>::max());
          }
-- 
2.43.0


From 88f1e45ed9d921e34088b0d76bbccf81541742ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 41/94] fix: token_grid deleted the caller's buffer when
 loading a file failed

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1764dc7..fd7a8f7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7349,9 +7349,9 @@ namespace strtk
          if ((load_from_file_) && (0 != buffer_))
          {
             delete [] buffer_;
-            buffer_ = 0;
          }
 
+         buffer_           = 0;
          buffer_size_      = 0;
          min_column_count_ = 0;
          max_column_count_ = 0;
-- 
2.43.0


From 648ff0969714621933ac1792a1cf2a7a947290d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:22 +0000
Subject: [PATCH 42/94] fix: column_selector with 11 and 12 columns did not
 compile

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index fd7a8f7..b84b2da 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22628,8 +22628,8 @@ namespace strtk
    template <typename T0, typename T1, typename  T2, typename T3,
              typename T4, typename T5, typename  T6, typename T7,
              typename T8, typename T9, typename T10, typename T11>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
-      column_selector(const details::column_list_impl<11>& col_list,
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11>
+      column_selector(const details::column_list_impl<12>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3,  T4&  t4,  T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10, T11& t11)
    {
@@ -22642,7 +22642,7 @@ namespace strtk
    template <typename T0, typename T1, typename T2, typename T3,
              typename T4, typename T5, typename T6, typename T7,
              typename T8, typename T9, typename T10>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10>
       column_selector(const details::column_list_impl<11>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10)
-- 
2.43.0


From d138950d42feace121ea4991430f25512d00022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:09 +0000
Subject: [PATCH 43/94] fix: column_selector did not compile for columns of
 different types

---
 strtk.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b84b2da..7745738 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22212,7 +22212,7 @@ namespace strtk
          typedef column_list_impl<10> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8, T9& t9)
          : csb_t(column_list)
          {
@@ -22235,7 +22235,7 @@ namespace strtk
          typedef column_list_impl<9> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8)
          : csb_t(column_list)
          {
@@ -22258,7 +22258,7 @@ namespace strtk
          typedef column_list_impl<8> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6, T7& t7)
          : csb_t(column_list)
          {
@@ -22280,7 +22280,7 @@ namespace strtk
          typedef column_list_impl<7> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6)
          : csb_t(column_list)
          {
@@ -22302,7 +22302,7 @@ namespace strtk
          typedef column_list_impl<6> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4, T5& t5)
          : csb_t(column_list)
          {
@@ -22323,7 +22323,7 @@ namespace strtk
          typedef column_list_impl<5> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4)
          : csb_t(column_list)
          {
@@ -22343,7 +22343,7 @@ namespace strtk
          typedef column_list_impl<4> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3)
+                              T0& t0, T1& t1, T2& t2, T3& t3)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22361,7 +22361,7 @@ namespace strtk
          typedef column_list_impl<3> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2)
+                              T0& t0, T1& t1, T2& t2)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22379,7 +22379,7 @@ namespace strtk
          typedef column_list_impl<2> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1)
+                              T0& t0, T1& t1)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
-- 
2.43.0


From bfc6f40a883481a166c56fc1e0fccda9ae8212fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 44/94] fix: column_selector of one column into a sequence was
 ambiguous

---
 strtk.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 7745738..be6d0c2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -23004,6 +23004,15 @@ namespace strtk
          throw std::invalid_argument("column_selector(sequence/list) - size < N!");
    }
 
+   template <typename T,
+             typename Allocator,
+             template <typename,typename> class Sequence>
+   inline typename details::compose_st_selector_impl<T,1>::type
+      column_selector(const details::column_list_impl<1>& col_list, Sequence<T,Allocator>& seq)
+   {
+      return column_selector<1,T,Allocator,Sequence>(col_list,seq);
+   }
+
    namespace details
    {
 
-- 
2.43.0


From 483abf51e08a98aacd18b84e300b760602994380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:59 +0000
Subject: [PATCH 45/94] fix: decimal_sink read past the end of fields without a
 fraction and dropped a digit of too long ones

---
 strtk.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index be6d0c2..530d031 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15195,6 +15195,9 @@ namespace strtk
          if (0 == t_)
             return false;
 
+         if (end == itr)
+            return false;
+
          typedef typename strtk::details::real_type<T>::type real_t;
 
          bool negative = ('-' == (*itr));
@@ -15226,7 +15229,13 @@ namespace strtk
                return false;
          }
 
-         ++itr;
+         if (end != itr)
+         {
+            if ('.' != *itr)
+               return false;
+
+            ++itr;
+         }
 
          length = std::min<std::size_t>(frac_size_,std::distance(itr,end));
          end_n  = itr + length;
-- 
2.43.0


From 2a9c5a5e81143899705774fdea5906c58fbbd57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 46/94] fix: decimal_sink was registered as a parse target
 without a converter

---
 strtk.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 530d031..7382cba 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17400,6 +17400,15 @@ namespace strtk
          return true;
       }
 
+      template <typename Iterator, typename DecimalSink>
+      inline bool string_to_type_converter_impl(Iterator& itr, const Iterator end, DecimalSink& t, decsink_type_tag)
+      {
+         if (!t(itr,end))
+            return false;
+         itr = end;
+         return true;
+      }
+
       #ifdef __builtin_expect
       # define strtk_likely(x)    __builtin_expect((x),1)
       # define strtk_unlikely(x)  __builtin_expect((x),0)
-- 
2.43.0


From c9870b02ddf64698a45168bf6010c7fc2459869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 47/94] fix: prefix trie stored the value of a key in the node
 of its prefix

---
 strtk.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7382cba..8ea440c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19830,7 +19830,6 @@ namespace strtk
 
             key_iterator_t itr = begin;
             key_value_t key    = (*itr);
-            node_ptr parent    = 0;
             node_ptr next_node = 0;
             node_ptr n = head_ = ((0 == head_) ? new node_t(*itr) : head_);
 
@@ -19843,12 +19842,11 @@ namespace strtk
                   n->add_node(next_node = new node_t(key));
                }
 
-               parent = n;
                n = next_node;
                ++itr;
             }
 
-            parent->assign_value(v);
+            n->assign_value(v);
          }
 
          template <typename key_iterator_t>
@@ -19860,7 +19858,6 @@ namespace strtk
                return false;
 
             key_iterator_t itr = begin;
-            node_ptr parent = head_;
             node_ptr n = head_;
 
             while (end != itr)
@@ -19870,13 +19867,12 @@ namespace strtk
                if (0 == next_node)
                   return false;
 
-               parent = n;
                n = next_node;
                ++itr;
             }
-            if (!parent->value_holder())
+            if (!n->value_holder())
                return false;
-             v = parent->value();
+             v = n->value();
              return true;
          }
 
-- 
2.43.0


From 404b8535c4606ec56a9163cfd6a03d04b6013ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 48/94] fix: prefix trie functions taking a const char* did not
 compile

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8ea440c..299536c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19914,11 +19914,11 @@ namespace strtk
       }
 
       template <typename Value>
-      inline void insert(prefix<std::string::iterator,Value>& trie,
+      inline void insert(prefix<std::string::const_iterator,Value>& trie,
                          const char* key,
                          const Value& value = Value(0))
       {
-         trie.insert(std::string(key),value);
+         insert(trie,std::string(key),value);
       }
 
       template <typename Value>
@@ -19934,7 +19934,7 @@ namespace strtk
                        const char* key,
                        Value& v)
       {
-         return trie.find_prefix(trie,std::string(key),v);
+         return find(trie,std::string(key),v);
       }
 
       template <typename Value>
@@ -19948,7 +19948,7 @@ namespace strtk
       inline bool find_prefix(prefix<std::string::const_iterator,Value>& trie,
                               const char* key)
       {
-         return trie.find_prefix(trie,std::string(key));
+         return find_prefix(trie,std::string(key));
       }
 
    } // namespace trie
-- 
2.43.0


From a8e0787afe9dd7a481ce5ff5565a530ad75d39bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:26 +0000
Subject: [PATCH 49/94] fix: copying a prefix trie freed its nodes twice

---
 strtk.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 299536c..111d331 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19781,6 +19781,18 @@ namespace strtk
                node_list_.push_back(n);
             }
 
+            inline node_ptr clone() const
+            {
+               node_ptr n = value_holder_ ? new node_t(key_value_,value_) : new node_t(key_value_);
+
+               for (std::size_t i = 0; i < node_list_.size(); ++i)
+               {
+                  n->add_node(node_list_[i]->clone());
+               }
+
+               return n;
+            }
+
             inline bool value_holder() const
             {
                return value_holder_;
@@ -19820,6 +19832,21 @@ namespace strtk
          : head_(0)
          {}
 
+         prefix(const prefix& p)
+         : head_(p.head_ ? p.head_->clone() : 0)
+         {}
+
+         inline prefix& operator=(const prefix& p)
+         {
+            if (this != &p)
+            {
+               prefix copy(p);
+               std::swap(head_,copy.head_);
+            }
+
+            return (*this);
+         }
+
          template <typename key_iterator_t>
          inline void insert(const key_iterator_t begin,
                             const key_iterator_t end,
-- 
2.43.0


From f6593005bc19c5f9b76f43b5a98c027f1f6e9dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 50/94] fix: copying a bloom filter deleted an uninitialised
 table pointer

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 111d331..bb58342 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20181,6 +20181,7 @@ namespace strtk
          }
 
          filter(const filter& filter)
+         : bit_table_(0)
          {
             this->operator=(filter);
          }
-- 
2.43.0


From 54553812a35488551e4cb872cc951f7db0636ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 51/94] fix: bloom filter table was too small for sizes that
 are not a multiple of eight bits

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index bb58342..3cd9a77 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20175,7 +20175,7 @@ namespace strtk
             salt_count_ = p.optimal_parameters.number_of_hashes;
             table_size_ = p.optimal_parameters.table_size;
             generate_unique_salt();
-            raw_table_size_ = table_size_ / bits_per_char;
+            raw_table_size_ = (table_size_ + bits_per_char - 1) / bits_per_char;
             bit_table_ = new cell_type[static_cast<std::size_t>(raw_table_size_)];
             std::fill_n(&bit_table_[0], static_cast<std::size_t>(raw_table_size_), static_cast<unsigned char>(0x00));
          }
-- 
2.43.0


From 903ed4cecab1ef0067ee7bc87849ddf32f51c688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 52/94] fix: bloom filter parameters could not be written by a
 binary writer

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3cd9a77..b9861bd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20067,7 +20067,7 @@ namespace strtk
                    reader(random_seed);
          }
 
-         inline bool operator()(strtk::binary::writer& writer)
+         inline bool operator()(strtk::binary::writer& writer) const
          {
             return writer(minimum_size) &&
                    writer(maximum_size) &&
-- 
2.43.0


From 54c5ef7139b358ccd12f4229cc962fb46f40d497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 53/94] fix: compressing a bloom filter overran its table and
 lost elements on copy, union, clear and save

---
 strtk.hpp | 63 +++++++++++++++++++++++++++----------------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b9861bd..6c3b219 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20199,6 +20199,7 @@ namespace strtk
                   (random_seed_                        == f.random_seed_)                        &&
                   (desired_false_positive_probability_ == f.desired_false_positive_probability_) &&
                   (salt_                               == f.salt_)                               &&
+                  (compressed_sizes_                   == f.compressed_sizes_)                   &&
                   std::equal(f.bit_table_, f.bit_table_ + raw_table_size_, bit_table_);
             }
             else
@@ -20225,6 +20226,7 @@ namespace strtk
                bit_table_               = new cell_type[static_cast<std::size_t>(raw_table_size_)];
                std::copy(f.bit_table_, f.bit_table_ + raw_table_size_, bit_table_);
                salt_                    = f.salt_;
+               compressed_sizes_        = f.compressed_sizes_;
             }
             return *this;
          }
@@ -20347,7 +20349,7 @@ namespace strtk
 
          inline virtual unsigned long long int size() const
          {
-            return table_size_;
+            return compressed_sizes_.empty() ? table_size_ : compressed_sizes_.back();
          }
 
          inline std::size_t element_count() const
@@ -20373,7 +20375,8 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (random_seed_ == f.random_seed_) &&
+                (compressed_sizes_ == f.compressed_sizes_)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20390,7 +20393,8 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (random_seed_ == f.random_seed_) &&
+                (compressed_sizes_ == f.compressed_sizes_)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20407,7 +20411,8 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
+                (random_seed_ == f.random_seed_) &&
+                (compressed_sizes_ == f.compressed_sizes_)
                )
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
@@ -20437,6 +20442,8 @@ namespace strtk
                                             salt_count_ * sizeof(           bloom_type) +
                                               static_cast<std::size_t>(raw_table_size_) *
                                                                       sizeof(cell_type) +
+                                            compressed_sizes_.size() *
+                                                         sizeof(unsigned long long int) +
                                             64; // handle array sizes etc.
             std::ofstream ostream(file_name.c_str(),std::ios::binary);
             if (!ostream)
@@ -20452,7 +20459,8 @@ namespace strtk
                           writer(random_seed_)                        &&
                           writer(desired_false_positive_probability_) &&
                           writer(salt_)                               &&
-                          writer(bit_table_,raw_table_size_);
+                          writer(bit_table_,raw_table_size_)          &&
+                          (compressed_sizes_.empty() || writer(compressed_sizes_));
             if (result)
             {
                writer(ostream);
@@ -20477,6 +20485,7 @@ namespace strtk
             random_seed_                        = 0;
             desired_false_positive_probability_ = 0.0;
             salt_.clear();
+            compressed_sizes_.clear();
 
             if (0 != bit_table_)
                delete [] bit_table_;
@@ -20498,7 +20507,8 @@ namespace strtk
                           reader(random_seed_)                        &&
                           reader(desired_false_positive_probability_) &&
                           reader(salt_)                               &&
-                          reader(bit_table_,raw_table_size_);
+                          reader(bit_table_,raw_table_size_)          &&
+                          ((reader.position() == buffer_size) || reader(compressed_sizes_));
 
             delete[] buffer;
 
@@ -20515,6 +20525,10 @@ namespace strtk
          inline virtual void compute_indices(const bloom_type& hash, std::size_t& bit_index, std::size_t& bit) const
          {
             bit_index = static_cast<std::size_t>(hash % table_size_);
+            for (std::size_t i = 0; i < compressed_sizes_.size(); ++i)
+            {
+               bit_index %= compressed_sizes_[i];
+            }
             bit = bit_index % bits_per_char;
          }
 
@@ -20655,6 +20669,7 @@ namespace strtk
          unsigned int            inserted_element_count_;
          unsigned long long int  random_seed_;
          double                  desired_false_positive_probability_;
+         std::vector<unsigned long long int> compressed_sizes_;
       };
 
       inline filter operator & (const filter& a, const filter& b)
@@ -20684,14 +20699,7 @@ namespace strtk
 
          compressible_filter(const parameters& p)
          : filter(p)
-         {
-            size_list.push_back(table_size_);
-         }
-
-         inline virtual unsigned long long int size() const
-         {
-            return size_list.back();
-         }
+         {}
 
          inline bool compress(const double& percentage)
          {
@@ -20700,8 +20708,8 @@ namespace strtk
                return false;
             }
 
-            unsigned long long int original_table_size = size_list.back();
-            unsigned long long int new_table_size = static_cast<unsigned long long int>((size_list.back() * (1.0 - (percentage / 100.0))));
+            unsigned long long int original_table_size = size();
+            unsigned long long int new_table_size = static_cast<unsigned long long int>((original_table_size * (1.0 - (percentage / 100.0))));
             new_table_size -= (((new_table_size % bits_per_char) != 0) ? (new_table_size % bits_per_char) : 0);
 
             if ((bits_per_char > new_table_size) || (new_table_size >= original_table_size))
@@ -20713,34 +20721,25 @@ namespace strtk
             cell_type* tmp = new cell_type[static_cast<std::size_t>(new_table_size / bits_per_char)];
             std::copy(bit_table_, bit_table_ + (new_table_size / bits_per_char), tmp);
             cell_type* itr = bit_table_ + (new_table_size / bits_per_char);
-            cell_type* end = bit_table_ + (original_table_size / bits_per_char);
+            cell_type* end = bit_table_ + raw_table_size_;
             cell_type* itr_tmp = tmp;
+            cell_type* end_tmp = tmp + (new_table_size / bits_per_char);
 
             while (end != itr)
             {
                *(itr_tmp++) |= (*itr++);
+
+               if (end_tmp == itr_tmp)
+                  itr_tmp = tmp;
             }
 
             delete[] bit_table_;
             bit_table_ = tmp;
-            size_list.push_back(new_table_size);
+            raw_table_size_ = new_table_size / bits_per_char;
+            compressed_sizes_.push_back(new_table_size);
 
             return true;
          }
-
-      private:
-
-         inline virtual void compute_indices(const bloom_type& hash, std::size_t& bit_index, std::size_t& bit) const
-         {
-            bit_index = hash;
-            for (std::size_t i = 0; i < size_list.size(); ++i)
-            {
-               bit_index %= size_list[i];
-            }
-            bit = bit_index % bits_per_char;
-         }
-
-         std::vector<unsigned long long int> size_list;
       };
 
    }
-- 
2.43.0


From 253bb644d61ad5abaf634c1958b4cf24357d3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:29 +0000
Subject: [PATCH 54/94] fix: reading a damaged bloom filter file left a filter
 that accesses memory out of bounds

---
 strtk.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 6c3b219..4966811 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20512,6 +20512,20 @@ namespace strtk
 
             delete[] buffer;
 
+            const unsigned long long int bit_count = (result ? size() : 0);
+
+            result = result                          &&
+                     (0 != table_size_)              &&
+                     (0 != bit_count)                &&
+                     (salt_.size() == salt_count_)   &&
+                     (raw_table_size_ == (bit_count + bits_per_char - 1) / bits_per_char) &&
+                     (compressed_sizes_.end() == std::find(compressed_sizes_.begin(),compressed_sizes_.end(),0ULL));
+
+            if (!result)
+            {
+               *this = filter();
+            }
+
             return result;
          }
 
-- 
2.43.0


From 77485ba10d8a5a06ae002647e467522e9f3f9892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 55/94] fix: bloom filter parameters with an impossible
 probability were accepted and gave a table of undefined size

---
 strtk.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4966811..94dcfe3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20030,8 +20030,7 @@ namespace strtk
                    (minimum_number_of_hashes < 1)     ||
                    (0 == maximum_number_of_hashes)    ||
                    (0 == projected_element_count)     ||
-                   (false_positive_probability < 0.0) ||
-                   (std::numeric_limits<double>::infinity() == std::abs(false_positive_probability)) ||
+                   !((0.0 < false_positive_probability) && (false_positive_probability <= 1.0)) ||
                    (0 == random_seed)                 ||
                    (0xFFFFFFFFFFFFFFFFULL == random_seed);
          }
-- 
2.43.0


From 38b06a7f1ef633f5de61e0260b42151f7e0aafb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 56/94] fix: big endian conversion of 32 bit values scrambled
 their bytes

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 94dcfe3..12733ee 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13770,8 +13770,8 @@ namespace strtk
          static inline unsigned int convert(const unsigned int v)
          {
             //static_assert(4 == sizeof(v),"");
-            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0x0000FF00) |
-                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0xFF000000);
+            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0xFF000000) |
+                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0x0000FF00);
          }
 
          static inline unsigned long long int convert(const unsigned long long int v)
-- 
2.43.0


From 00e3c6a54464fc159245c976a845d843b3a88b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 57/94] fix: right padded text fields read past the end of the
 text

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 12733ee..794a8fb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14608,7 +14608,7 @@ namespace strtk
                else if (s.size() < size)
                {
                   if (right_padding == pmode)
-                     s.resize(size - s.size(),padding);
+                     s.resize(size,padding);
                   else
                      s = std::string(size - s.size(),padding) + s;
                }
-- 
2.43.0


From b2c98b8ad0a70fd08b365a20467f98d6a18e2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 58/94] fix: binary reader ignored a given 64 bit array length

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 794a8fb..5946889 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13999,7 +13999,7 @@ namespace strtk
          inline bool operator()(T*& data, uint64_t& length, const bool read_length = true)
          {
             uint32_t l = 0;
-            if (read_length)
+            if (!read_length)
                l = static_cast<uint32_t>(length);
             if (!operator()(data,l,read_length))
                return false;
-- 
2.43.0


From 641d1bab8ec8741cfb1fbb56b63f9130befd4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:23 +0000
Subject: [PATCH 59/94] fix: seeking by the smallest int overflowed

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5946889..e5eae42 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13951,7 +13951,7 @@ namespace strtk
          inline bool seek(const int& n_bytes)
          {
             if (n_bytes < 0)
-               return rewind(-n_bytes);
+               return rewind(static_cast<std::size_t>(-static_cast<long long int>(n_bytes)));
             else if (n_bytes > 0)
             {
                if ((amount_read_sofar_ + n_bytes) <= buffer_length_)
-- 
2.43.0


From b7b653b278788ee8883853db8e55bd6438c8fd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 60/94] fix: binary reader and writer rejected containers of
 strings that fit the buffer

---
 strtk.hpp | 68 +++++++++++++++++++++++++++----------------------------
 1 file changed, 33 insertions(+), 35 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e5eae42..7ef216f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14047,14 +14047,10 @@ namespace strtk
             if (!read_pod(size))                           \
                return false;                               \
                                                            \
-            const std::size_t raw_size = size * sizeof(T); \
-            if (!buffer_capacity_ok(raw_size))             \
-               return false;                               \
-                                                           \
-            T t = T();                                     \
-                                                           \
             for (std::size_t i = 0; i < size; ++i)         \
             {                                              \
+               T t = T();                                  \
+                                                           \
                if (operator()(t))                          \
                   seq.push_back(t);                        \
                else                                        \
@@ -14076,13 +14072,6 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-
-            if (!buffer_capacity_ok(raw_size))
-               return false;
-
-            vec.resize(size);
-
             return selector<T>::type::batch_vector_read(*this,size,vec,false);
          }
 
@@ -14095,13 +14084,9 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
-               return false;
-
-            T t;
             for (std::size_t i = 0; i < size; ++i)
             {
+               T t = T();
                if (!operator()(t))
                   return false;
                set.insert(t);
@@ -14119,13 +14104,9 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
-               return false;
-
-            T t;
             for (std::size_t i = 0; i < size; ++i)
             {
+               T t = T();
                if (!operator()(t))
                   return false;
                multiset.insert(t);
@@ -14264,12 +14245,14 @@ namespace strtk
                                                     std::vector<T,Allocator>& v,
                                                     const bool)
                {
-                  T t;
+                  v.clear();
 
                   for (std::size_t i = 0; i < size; ++i)
                   {
+                     T t = T();
+
                      if (r.operator()(t))
-                        v[i] = t;
+                        v.push_back(t);
                      else
                         return false;
                   }
@@ -14297,6 +14280,15 @@ namespace strtk
                                                     const bool)
                {
                   const std::size_t raw_size = sizeof(T) * size;
+
+                  if (!r.buffer_capacity_ok(raw_size))
+                     return false;
+
+                  v.resize(size);
+
+                  if (v.empty())
+                     return true;
+
                   char* ptr = const_cast<char*>(reinterpret_cast<const char*>(&v[0]));
                   std::copy(r.buffer_, r.buffer_ + raw_size, ptr);
                   r.buffer_ += raw_size;
@@ -14491,7 +14483,7 @@ namespace strtk
          {
             const uint32_t size = static_cast<uint32_t>(vec.size());
             const std::size_t raw_size = (size * sizeof(T));
-            if (!buffer_capacity_ok(raw_size + sizeof(size)))
+            if (!selector<T>::type::batch_vector_fits(*this,raw_size + sizeof(size)))
                return false;
             if (!operator()(size))
                return false;
@@ -14507,11 +14499,6 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-
-            if (!buffer_capacity_ok(raw_size))
-               return false;
-
             typename std::set<T,Comparator,Allocator>::const_iterator itr = set.begin();
             typename std::set<T,Comparator,Allocator>::const_iterator end = set.end();
 
@@ -14534,10 +14521,6 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
-               return false;
-
             typename std::multiset<T,Allocator,Comparator>::const_iterator itr = multiset.begin();
             typename std::multiset<T,Allocator,Comparator>::const_iterator end = multiset.end();
 
@@ -14654,6 +14637,12 @@ namespace strtk
                   return t(w);
                }
 
+               template <typename Writer>
+               static inline bool batch_vector_fits(Writer&, const std::size_t&)
+               {
+                  return true;
+               }
+
                template <typename Writer,
                          typename Allocator>
                static inline bool batch_vector_writer(Writer& w,
@@ -14681,12 +14670,21 @@ namespace strtk
                   return w.write_pod(t);
                }
 
+               template <typename Writer>
+               static inline bool batch_vector_fits(Writer& w, const std::size_t& required_size)
+               {
+                  return w.buffer_capacity_ok(required_size);
+               }
+
                template <typename Writer,
                          typename Allocator>
                static inline bool batch_vector_writer(Writer& w,
                                                       const std::size_t& raw_size,
                                                       const std::vector<T,Allocator>& v)
                {
+                  if (v.empty())
+                     return true;
+
                   const char* ptr = reinterpret_cast<const char*>(&v[0]);
                   std::copy(ptr, ptr + raw_size, w.buffer_);
                   w.buffer_ += raw_size;
-- 
2.43.0


From 289fbc40303ffef3d6afb7a0759e31a1755c4a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 61/94] fix: fileio read_pod and write_pod of arrays and
 containers reported the opposite result or did not compile

---
 strtk.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7ef216f..5e4de1a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18675,7 +18675,7 @@ namespace strtk
          template <typename T>
          inline bool write_pod_proxy(std::ofstream& stream, const T& t)
          {
-            return (false == stream.write(reinterpret_cast<char*>(&t),
+            return (false == stream.write(reinterpret_cast<const char*>(&t),
                                           static_cast<std::streamsize>(sizeof(T))).fail());
          }
       }
@@ -18813,14 +18813,14 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool read_pod(std::ifstream& stream, T (&t)[N])
       {
-         return (false != stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
                 typename Allocator,
                 template <typename,typename> class Sequence>
       inline bool read_pod(std::ifstream& stream,
-                           const std::size_t& count,
+                           const std::size_t count,
                            Sequence<T,Allocator>& sequence)
       {
          T t;
@@ -18840,7 +18840,7 @@ namespace strtk
                 typename Comparator,
                 typename Allocator>
       inline bool read_pod(std::ifstream& stream,
-                           const std::size_t& count,
+                           const std::size_t count,
                            std::set<T,Comparator,Allocator>& set)
       {
          T t;
@@ -18860,7 +18860,7 @@ namespace strtk
                 typename Comparator,
                 typename Allocator>
       inline bool read_pod(std::ifstream& stream,
-                           const std::size_t& count,
+                           const std::size_t count,
                            std::multiset<T,Comparator,Allocator>& multiset)
       {
          T t;
@@ -19007,9 +19007,9 @@ namespace strtk
       }
 
       template <typename T, std::size_t N>
-      inline bool write_pod(std::ofstream& stream, T (&t)[N])
+      inline bool write_pod(std::ofstream& stream, const T (&t)[N])
       {
-         return (false != stream.write(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.write(reinterpret_cast<const char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
@@ -19018,8 +19018,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const Sequence<T,Allocator>& sequence)
       {
-         typename Sequence<T,Allocator>::iterator itr = sequence.begin();
-         typename Sequence<T,Allocator>::iterator end = sequence.end();
+         typename Sequence<T,Allocator>::const_iterator itr = sequence.begin();
+         typename Sequence<T,Allocator>::const_iterator end = sequence.end();
 
          while (end != itr)
          {
@@ -19028,6 +19028,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19046,6 +19048,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19064,6 +19068,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       inline bool read_at_offset(std::ifstream& stream,
-- 
2.43.0


From 846c834b7608afb4516fc9282a41ee2efcc423cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:37 +0000
Subject: [PATCH 62/94] fix: read_pod and write_pod of containers in memory did
 not compile

---
 strtk.hpp | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5e4de1a..ebe2856 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19311,36 +19311,36 @@ namespace strtk
              typename Allocator,
              template <typename,typename> class Sequence>
    inline unsigned char* read_pod(unsigned char* data,
-                                  const std::size_t& n,
-                                  const Sequence<T,Allocator>& sequence)
+                                  const std::size_t n,
+                                  Sequence<T,Allocator>& sequence)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(ptr, ptr + n, std::back_inserter(sequence));
-      return data + (sequence.size() * sizeof(T));
+      return data + (n * sizeof(T));
    }
 
    template <typename T,
              typename Comparator,
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
-                                  const std::size_t& n,
-                                  const std::set<T,Comparator,Allocator>& set)
+                                  const std::size_t n,
+                                  std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(ptr, ptr + n, std::inserter(set,set.begin()));
-      return data + (set.size() * sizeof(T));
+      return data + (n * sizeof(T));
    }
 
    template <typename T,
              typename Comparator,
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
-                                  const std::size_t& n,
-                                  const std::multiset<T,Comparator,Allocator>& multiset)
+                                  const std::size_t n,
+                                  std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(ptr, ptr + n, std::inserter(multiset,multiset.begin()));
-      return data + (multiset.size() * sizeof(T));
+      return data + (n * sizeof(T));
    }
 
    template <typename T1,  typename T2, typename  T3, typename  T4,
@@ -19543,9 +19543,9 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const Sequence<T,Allocator>& sequence)
    {
-      ::memcpy(data, sequence.data(), sequence.size() * sizeof(T));
-      data += (sequence.size() * sizeof(T));
-      return data;
+      T* ptr = reinterpret_cast<T*>(data);
+      std::copy(sequence.begin(),sequence.end(),ptr);
+      return data + (sequence.size() * sizeof(T));
    }
 
    template <typename T,
@@ -19554,7 +19554,7 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(set.begin(),set.end(),ptr);
       return data + (set.size() * sizeof(T));
    }
@@ -19565,7 +19565,7 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
+      T* ptr = reinterpret_cast<T*>(data);
       std::copy(multiset.begin(),multiset.end(),ptr);
       return data + (multiset.size() * sizeof(T));
    }
-- 
2.43.0


From 4045f8016bcef7bfce07f92c6b72a4d6fafd1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:30 +0000
Subject: [PATCH 63/94] fix: copy_file and concatenate destroyed the output
 file when an input could not be opened or was the output

---
 strtk.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ebe2856..9d3c9d7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18556,8 +18556,9 @@ namespace strtk
       inline bool copy_file(const std::string& src_file_name, const std::string& dest_file_name)
       {
          std::ifstream src_file(src_file_name.c_str(),std::ios::binary);
-         std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!src_file) return false;
+         if (src_file_name == dest_file_name) return true;
+         std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!dest_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
@@ -18590,9 +18591,13 @@ namespace strtk
       {
          std::ifstream file1(file_name1.c_str(),std::ios::binary);
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
+
+         if (!file1 || !file2) return false;
+         if ((file_name1 == output_file_name) || (file_name2 == output_file_name)) return false;
+
          std::ofstream out_file(output_file_name.c_str(),std::ios::binary);
 
-         if (!file1 || !file2 || !out_file) return false;
+         if (!out_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
          char buffer[block_size];
-- 
2.43.0


From dd8e158edfa598d1f7d2059ac33324cb4fceb936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 64/94] fix: read_line_as_value used string_to_type_converter
 before its declaration

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 9d3c9d7..3022e08 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -241,6 +241,9 @@ namespace strtk
          return 0;
    }
 
+   template <typename T>
+   inline bool string_to_type_converter(const std::string& s, T& t);
+
    template <typename T>
    inline bool read_line_as_value(std::istream& stream,
                                   T& t,
-- 
2.43.0


From 9ca4096827e0451f70a51efc6d2f46104a1dba22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:35 +0000
Subject: [PATCH 65/94] fix: keyvalue numeric keys wrapped modulo the key type
 and an empty key meant key 0

---
 strtk.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3022e08..a0bd8f8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24290,12 +24290,14 @@ namespace strtk
          template <typename Range>
          inline bool operator()(const Range& key_range, const Range& value_range)
          {
-            std::size_t key = 0;
-            if (!fast::numeric_convert(distance(key_range),key_range.first,key,true))
+            unsigned long long int key = 0;
+            if (!fast::all_digits_check(distance(key_range),key_range.first))
+               return false;
+            if (!strtk::string_to_type_converter(key_range.first,key_range.second,key))
                return false;
             if (key >= value_lut_.size())
                return false;
-            const strtk::util::value& v = value_lut_[key];
+            const strtk::util::value& v = value_lut_[static_cast<std::size_t>(key)];
             if (!v)
                return false;
             else
@@ -24348,9 +24350,11 @@ namespace strtk
          {
             static inline unsigned int transform(const Range& key_range)
             {
-               unsigned int result = 0;
-               if (strtk::fast::numeric_convert(std::distance(key_range.first,key_range.second),key_range.first,result,true))
-                  return result;
+               unsigned long long int result = 0;
+               if (strtk::fast::all_digits_check(std::distance(key_range.first,key_range.second),key_range.first) &&
+                   strtk::string_to_type_converter(key_range.first,key_range.second,result)                       &&
+                   (result <= std::numeric_limits<unsigned int>::max()))
+                  return static_cast<unsigned int>(result);
                else
                   return std::numeric_limits<unsigned int>::max();
             }
-- 
2.43.0


From 6374fd7275259fcb839539eac55e4b06acc667e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 66/94] fix: nth_combination_sequence/nth_permutation_sequence
 edge sizes and outputs, n_choose_k(0,0)

---
 strtk.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a0bd8f8..4f2d109 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12479,7 +12479,6 @@ namespace strtk
    inline unsigned long long int n_choose_k(const unsigned long long int& n, const unsigned long long int& k)
    {
       if (n  < k) return 0;
-      if (0 == n) return 0;
       if (0 == k) return 1;
       if (n == k) return 1;
       if (1 == k) return n;
@@ -12592,7 +12591,7 @@ namespace strtk
       value_type x = 0;
       ++n;
 
-      for (std::size_t i = 1; i <= (k - 1); ++i)
+      for (std::size_t i = 1; i < k; ++i)
       {
          index_list[i - 1] = 0;
 
@@ -12612,11 +12611,15 @@ namespace strtk
          x -= j;
       }
 
-      index_list[k - 1] = index_list[k - 2] + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      if (0 < k)
+      {
+         const std::size_t previous_index = (1 < k) ? index_list[k - 2] : 0;
+         index_list[k - 1] = previous_index + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      }
 
       for (std::size_t i = 0; i < index_list.size(); --index_list[i++]);
 
-      std::copy(index_list.begin(),index_list.end(),out);
+      out = std::copy(index_list.begin(),index_list.end(),out);
 
       if (complete_index)
       {
@@ -12660,6 +12663,9 @@ namespace strtk
    inline void nth_permutation_sequence(std::size_t n, const std::size_t k, OutputIterator out)
    {
       //Note: n in [0,k!)
+      if (0 == k)
+         return;
+
       std::vector<std::size_t> factorid (k,0);
       std::vector<std::size_t> permutate(k,0);
 
@@ -12703,7 +12709,7 @@ namespace strtk
       nth_permutation_sequence(n,size,index_list.begin());
       for (std::size_t i = 0; i < size; ++i)
       {
-         *(out++) = (begin + index_list[i]);
+         *(out++) = *(begin + index_list[i]);
       }
    }
 
-- 
2.43.0


From b689af1f5641733c9101dd55f93717b596f1ce4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 67/94] fix: generate_random_data wrote outside short buffers
 and used misaligned stores

---
 strtk.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4f2d109..cfce3f5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11866,22 +11866,26 @@ namespace strtk
          while (pre_gen_cnt--) rnd();
       }
 
+      const std::size_t data_length = length;
       unsigned char* itr = data;
-      unsigned int* x = 0;
+      unsigned int x = 0;
 
       while (length >= sizeof(unsigned int))
       {
-         x = reinterpret_cast<unsigned int*>(itr);
-         (*x) = rnd();
+         x = rnd();
+         std::memcpy(itr, &x, sizeof(unsigned int));
          itr += sizeof(unsigned int);
          length -= sizeof(unsigned int);
       }
 
       if (length > 0)
       {
-         itr -= (sizeof(unsigned int) - length);
-         x = reinterpret_cast<unsigned int*>(itr);
-         (*x) = rnd();
+         x = rnd();
+
+         if (data_length >= sizeof(unsigned int))
+            std::memcpy(itr - (sizeof(unsigned int) - length), &x, sizeof(unsigned int));
+         else
+            std::memcpy(itr, &x, length);
       }
    }
 
-- 
2.43.0


From 81827c571f1744bd775e27263b61025be949b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 68/94] fix: uniform_real_rng ignored its pre-generation count

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index cfce3f5..c2c1bb4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11963,7 +11963,7 @@ namespace strtk
       : rng_(static_cast<rng_type::result_type>(seed)),
         rnd_(rng_,boost::uniform_real<double>(0.0,1.0))
       {
-         while (pregen--) rng_();
+         while (pregen--) rnd_.engine()();
       }
 
       inline double operator()()
-- 
2.43.0


From 5765ebe84e3bdf5ffb3610764767e95bcabc0f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 69/94] fix: join_if(delimiter,predicate,sequence) did not
 compile

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index c2c1bb4..ade9aea 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11387,7 +11387,7 @@ namespace strtk
                               Predicate predicate,
                               const Sequence<T,Allocator>& sequence)
    {
-      return join(delimiter,predicate,sequence.begin(),sequence.end());
+      return join_if(delimiter,predicate,sequence.begin(),sequence.end());
    }
 
    template <typename T,
-- 
2.43.0


From 780e80afb5aea98b08cfd46425edf119ec542f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 70/94] fix: translation_table indexed its table with negative
 char values

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ade9aea..63d6954 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11820,13 +11820,13 @@ namespace strtk
 
          for (std::size_t i = 0; i < itable.size(); ++i)
          {
-            table_[static_cast<unsigned int>(itable[i])] = static_cast<unsigned char>(otable[i]);
+            table_[static_cast<unsigned char>(itable[i])] = static_cast<unsigned char>(otable[i]);
          }
       }
 
       inline char operator()(const char c) const
       {
-         return static_cast<char>(table_[static_cast<unsigned int>(c)]);
+         return static_cast<char>(table_[static_cast<unsigned char>(c)]);
       }
 
       inline unsigned char operator()(const unsigned char c) const
-- 
2.43.0


From 89308c2f193050bfd58697bbec86542dcec8c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 71/94] fix: text::insert_inplace and remove_inplace copied
 overlapping ranges with memcpy

---
 strtk.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 63d6954..595299b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15621,8 +15621,7 @@ namespace strtk
       {
          if (index >= s.size())
             return;
-         std::memcpy(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - index);
-         s.resize(s.size() - 1);
+         s.erase(index,1);
       }
 
       inline std::string remove(const std::string& s, const std::size_t& index)
@@ -15634,9 +15633,9 @@ namespace strtk
 
       inline void insert_inplace(std::string& s, const std::size_t& index, const char c)
       {
-         s.resize(s.size() + 1);
-         std::memcpy(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - index);
-         s[index] = c;
+         if (index > s.size())
+            return;
+         s.insert(index,1,c);
       }
 
       inline std::string insert(const std::string& s, const std::size_t& index, const char c)
-- 
2.43.0


From 7c77669559d41f52134f2e522abc4d692898c3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 72/94] fix: ext_string::operator*= made n + 1 copies

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 595299b..9d66c37 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18356,7 +18356,7 @@ namespace strtk
 
       inline ext_string& operator *= (const std::size_t& n)
       {
-         strtk::replicate_inplace(n,s_);
+         s_ = strtk::replicate(n,s_);
          return (*this);
       }
 
-- 
2.43.0


From 9c4656440f7f78888c97f4f5972d2e589b9176e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 73/94] fix: hamming_distance_elementwise never advanced

---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 9d66c37..405c956 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5205,6 +5205,8 @@ namespace strtk
       {
          if ((*itr1) != (*itr2))
             ++distance;
+         ++itr1;
+         ++itr2;
       }
 
       return distance;
-- 
2.43.0


From dafb3271260483997e3edf80d49ebffdb4546b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 74/94] fix: twoway_bitwise_interleave(std::string) wrote twice
 the size of its output

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 405c956..49a2f79 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4958,7 +4958,7 @@ namespace strtk
          return false;
       }
 
-      out.resize(str1.size());
+      out.resize(str1.size() * 2);
 
       return twoway_bitwise_interleave(to_ptr(str1), to_ptr(str1) + str1.size(),
                                        to_ptr(str2), to_ptr(str2) + str2.size(),
-- 
2.43.0


From dc83a8b895b86cabfaf40edfe6abe016dc7ff86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 75/94] fix: twoway_bitwise_interleave stored through a
 misaligned pointer

---
 strtk.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 49a2f79..5d37f4e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4930,9 +4930,10 @@ namespace strtk
 
       while (end1 != itr1)
       {
-         *(reinterpret_cast<unsigned short*>(out))  = (interleave_table[*(itr2++)] << 1);
-         *(reinterpret_cast<unsigned short*>(out)) |=  interleave_table[*(itr1++)];
-         out += 2;
+         const unsigned short interleaved = static_cast<unsigned short>((interleave_table[*(itr2++)] << 1) |
+                                                                         interleave_table[*(itr1++)]);
+         std::memcpy(out,&interleaved,sizeof(interleaved));
+         out += sizeof(interleaved);
       }
 
       return true;
-- 
2.43.0


From 0d34e8017dda0a9e9b2808a84834bd1ef4d5a606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 76/94] fix: hash left out the elements after its first block

---
 strtk.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5d37f4e..e687080 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20837,7 +20837,7 @@ namespace strtk
       }
 
       template <std::size_t block_size, typename Iterator>
-      inline void compute_block(Iterator itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(Iterator& itr, std::size_t& length, unsigned int& hash)
       {
          while (length >= block_size)
          {
@@ -20850,7 +20850,7 @@ namespace strtk
       }
 
       template <std::size_t block_size>
-      inline void compute_block(unsigned char* itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(unsigned char*& itr, std::size_t& length, unsigned int& hash)
       {
          unsigned int local_hash = hash;
 
@@ -20867,15 +20867,17 @@ namespace strtk
       }
 
       template <std::size_t block_size>
-      inline void compute_block(char* itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(char*& itr, std::size_t& length, unsigned int& hash)
       {
-         compute_block<block_size>(reinterpret_cast<unsigned char*>(itr),length,hash);
+         unsigned char* uitr = reinterpret_cast<unsigned char*>(itr);
+         compute_block<block_size>(uitr,length,hash);
+         itr = reinterpret_cast<char*>(uitr);
       }
 
       static const unsigned int hash_seed = 0xAAAAAAAA;
 
       template <typename Iterator>
-      inline void hash(const Iterator itr, std::size_t length, unsigned int& hash_value)
+      inline void hash(Iterator itr, std::size_t length, unsigned int& hash_value)
       {
          if (length >= 64) compute_block<64>(itr,length,hash_value);
          if (length >= 32) compute_block<32>(itr,length,hash_value);
@@ -20883,7 +20885,7 @@ namespace strtk
          if (length >=  8) compute_block< 8>(itr,length,hash_value);
          if (length >=  4) compute_block< 4>(itr,length,hash_value);
          if (length >=  2) compute_block< 2>(itr,length,hash_value);
-         if (length ==  0) compute_block< 1>(itr,length,hash_value);
+         if (length ==  1) compute_block< 1>(itr,length,hash_value);
       }
 
    } // namespace details
-- 
2.43.0


From 3e604e679af796762bf1bf6d3ef72814c1b595f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 77/94] fix: hash of bytes above 127 depended on the entry
 point

---
 strtk.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index e687080..c592bac 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20796,6 +20796,13 @@ namespace strtk
          hash ^= ~((hash << 11) + (data[1] ^ (hash >> 5)));
       }
 
+      inline void compute_pod_hash(const int& data, unsigned int& hash);
+
+      inline void compute_pod_hash(const char& data, unsigned int& hash)
+      {
+         compute_pod_hash(static_cast<int>(static_cast<unsigned char>(data)),hash);
+      }
+
       inline void compute_pod_hash(const int& data, unsigned int& hash)
       {
          const unsigned char* itr = reinterpret_cast<const unsigned char*>(&data);
-- 
2.43.0


From 8f72e588d3b8190c2745ae923af739fd613f6757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 78/94] fix: lexicographically_canonicalize compared suffixes
 instead of rotations

---
 strtk.hpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c592bac..a3fa485 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4272,6 +4272,10 @@ namespace strtk
       typedef typename std::list<iter_type> itr_list_type;
       itr_list_type itr_list;
 
+      if (begin == end)
+         return;
+
+      std::size_t length = static_cast<std::size_t>(std::distance(begin,end));
       type smallest = (*std::min_element(begin,end));
 
       for (Iterator itr = begin; itr != end; ++itr)
@@ -4279,16 +4283,16 @@ namespace strtk
          if (*itr == smallest) itr_list.push_back(std::make_pair(itr,itr));
       }
 
-      while (itr_list.size() > 1)
+      //Rotations that are still equal after 'length' elements are the same.
+      while ((itr_list.size() > 1) && (--length > 0))
       {
          typename itr_list_type::iterator itr = itr_list.begin();
          while (itr_list.end() != itr)
          {
             ++(*itr).first;
             if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
+               (*itr).first = begin;
+            ++itr;
          }
 
          smallest = *(*itr_list.begin()).first;
@@ -4309,15 +4313,6 @@ namespace strtk
            else
               ++itr;
          }
-
-         itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-            if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
-         }
       }
 
       std::rotate(begin,(*itr_list.begin()).second,end);
-- 
2.43.0


From ff6ad25f84f3e25ff395e2ef41945959a9368c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 79/94] fix: first_non_repeated_char indexed its table with
 negative char values

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index a3fa485..1e61da8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4347,7 +4347,7 @@ namespace strtk
 
       while (end != itr)
       {
-         unsigned long long int& element = lut[static_cast<unsigned int>(*itr)];
+         unsigned long long int& element = lut[static_cast<unsigned char>(*itr)];
 
          if (not_yet_encountered == element)
          {
-- 
2.43.0


From 531bd3cb5f4215fb958f8f0e6c59a3eef0b09b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 80/94] fix: character ranges other than const char* converted
 to an empty string

---
 strtk.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 1e61da8..2dcf2ff 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -972,6 +972,21 @@ namespace strtk
             return std::string(begin,end);
          }
 
+         static inline std::string stringify(char* begin, char* end)
+         {
+            return std::string(begin,end);
+         }
+
+         static inline std::string stringify(const unsigned char* begin, const unsigned char* end)
+         {
+            return std::string(begin,end);
+         }
+
+         static inline std::string stringify(unsigned char* begin, unsigned char* end)
+         {
+            return std::string(begin,end);
+         }
+
          iterator begin_;
          iterator end_;
       };
-- 
2.43.0


From 6f1fb1a47cffa3d75d311ebd70a67b76b4bcd9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 81/94] fix: range::type of a pointer range and of an array did
 not compile

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2dcf2ff..1ee7edd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -995,15 +995,15 @@ namespace strtk
       typedef adapter<const unsigned char> ustring;
 
       template <typename T>
-      inline adapter<T> type(const T* begin, const T* end)
+      inline adapter<const T> type(const T* begin, const T* end)
       {
-         return adapter<T>(begin,end);
+         return adapter<const T>(begin,end);
       }
 
       template <typename T, std::size_t N>
-      inline adapter<T> type(const T (&t)[N])
+      inline adapter<const T> type(const T (&t)[N])
       {
-         return adapter<T>(t,N);
+         return adapter<const T>(t,N);
       }
 
       static inline adapter<const char> type(const std::string& s)
-- 
2.43.0


From 2fb1253c688427769aa8b22f737c359c2e6bd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 82/94] fix: string_condition begins_with and ends_with only
 accepted texts of the condition's own length

---
 strtk.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1ee7edd..4485194 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19633,22 +19633,12 @@ namespace strtk
 
       inline bool condition_begins_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
-         {
-            return strtk::begins_with(s_begin, s_end, begin, end);
-         }
-         else
-            return false;
+         return strtk::begins_with(s_begin, s_end, begin, end);
       }
 
       inline bool condition_ends_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
-         {
-            return strtk::ends_with(s_begin, s_end, begin, end);
-         }
-         else
-            return false;
+         return strtk::ends_with(s_begin, s_end, begin, end);
       }
 
       inline bool condition_within(const itr_type begin, const itr_type end) const
-- 
2.43.0


From 0bc1504361b3e827ec5bfd688fafaff777152042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 83/94] fix: a copied string_condition kept pointing into the
 text of the original

---
 strtk.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 4485194..8dd9cef 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19702,6 +19702,24 @@ namespace strtk
          }
       }
 
+      string_condition(const string_condition& sc)
+      : cond_type_(sc.cond_type_),
+        s(sc.s),
+        s_begin(reinterpret_cast<const unsigned char*>(to_ptr(s))),
+        s_end  (reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size())),
+        condition_method_(sc.condition_method_)
+      {}
+
+      inline string_condition& operator=(const string_condition& sc)
+      {
+         cond_type_ = sc.cond_type_;
+         s          = sc.s;
+         s_begin    = reinterpret_cast<const unsigned char*>(to_ptr(s));
+         s_end      = reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size());
+         condition_method_ = sc.condition_method_;
+         return (*this);
+      }
+
       template <typename Iterator>
       inline bool operator()(const Iterator begin, const Iterator end)
       {
-- 
2.43.0


From ceb878233f7761f071b3f29ff1e73b9d0788bd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 84/94] fix: a default constructed attribute reported an
 indeterminate value and change

---
 strtk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8dd9cef..360d64c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20982,7 +20982,9 @@ namespace strtk
       public:
 
          attribute()
-         : initialised_(false)
+         : t_(),
+           prev_t_(),
+           initialised_(false)
          {}
 
          attribute(const T& t)
-- 
2.43.0


From 39a28e0031afc2dcfac0450b69c5efff9b368c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 85/94] fix: a copied semantic_action kept pointing into the
 buffer of the original

---
 strtk.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 360d64c..9a8417e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21120,6 +21120,8 @@ namespace strtk
             {
                return operator()(p.first,p.second);
             }
+
+            virtual function_holder_base* clone(unsigned char* buffer) const = 0;
          };
 
          template <typename Function>
@@ -21136,6 +21138,11 @@ namespace strtk
                return (*function_)(begin,end);
             }
 
+            inline virtual function_holder_base* clone(unsigned char* buffer) const
+            {
+               return new(buffer)function_holder<Function>(*function_);
+            }
+
          private:
 
             Function* function_;
@@ -21149,6 +21156,14 @@ namespace strtk
             std::fill_n(function_holder_buffer_, sizeof(function_holder_buffer_), static_cast<unsigned char>(0x00));
          }
 
+         semantic_action_impl(const semantic_action_impl& sa)
+         : function_holder_(0)
+         {
+            std::fill_n(function_holder_buffer_, sizeof(function_holder_buffer_), static_cast<unsigned char>(0x00));
+            if (0 != sa.function_holder_)
+               function_holder_ = sa.function_holder_->clone(function_holder_buffer_);
+         }
+
          template <typename Function>
          inline explicit semantic_action_impl(const Function& f)
          {
-- 
2.43.0


From f80230d480eb37b245f9435db904574c99054652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 86/94] fix: a copied util::value kept pointing into the
 original

---
 strtk.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 9a8417e..eb8f6d0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21384,6 +21384,20 @@ namespace strtk
             std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
          }
 
+         value(const value& v)
+         : type_holder_(0)
+         {
+            std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
+            operator=(v);
+         }
+
+         value(value& v)
+         : type_holder_(0)
+         {
+            std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
+            operator=(v);
+         }
+
          template <typename T>
          inline explicit value(T& t)
          {
-- 
2.43.0


From 8b3afb46807a1445583020c83a7f23e4bfc0622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 87/94] fix: util::delete_if of sets of pointers did not
 compile

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index eb8f6d0..acfe3dd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21765,7 +21765,7 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
+               delete (*itr);
                itr = cont.erase(itr);
             }
             else
@@ -21786,7 +21786,7 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
+               delete (*itr);
                itr = cont.erase(itr);
             }
             else
-- 
2.43.0


From 32ae82dfc300196c02d36d06216c1fabf8e94d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 88/94] fix: util::delete_if of associative containers needed
 C++11

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index acfe3dd..cac2198 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21723,7 +21723,7 @@ namespace strtk
             if (p(*itr))
             {
                delete (*itr).second;
-               itr = cont.erase(itr);
+               cont.erase(itr++);
             }
             else
                ++itr;
@@ -21745,7 +21745,7 @@ namespace strtk
             if (p(*itr))
             {
                delete (*itr).second;
-               itr = cont.erase(itr);
+               cont.erase(itr++);
             }
             else
                ++itr;
@@ -21766,7 +21766,7 @@ namespace strtk
             if (p(*itr))
             {
                delete (*itr);
-               itr = cont.erase(itr);
+               cont.erase(itr++);
             }
             else
                ++itr;
@@ -21787,7 +21787,7 @@ namespace strtk
             if (p(*itr))
             {
                delete (*itr);
-               itr = cont.erase(itr);
+               cont.erase(itr++);
             }
             else
                ++itr;
-- 
2.43.0


From f775b025024d8e199bce17ee56397459a4d80a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 89/94] fix: hexview pads the address of a partial first row
 with zeros

---
 strtk_hexview.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk_hexview.cpp b/strtk_hexview.cpp
index aa83eed..2060465 100644
--- a/strtk_hexview.cpp
+++ b/strtk_hexview.cpp
@@ -98,7 +98,7 @@ int main()
          if (0 != read_in_width)
          {
             strtk::convert_bin_to_hex(buffer,buffer + read_in_width,hex_buffer);
-            std::cout << std::hex << std::uppercase << std::setw(10) << current_address << ' ';
+            std::cout << std::hex << std::uppercase << std::setfill('0') << std::setw(10) << current_address << ' ';
             std::cout.write(hex_buffer,(2 * read_in_width));
             std::cout << std::string(2 * (16 - read_in_width) + 1, ' ');
             strtk::convert_to_printable_chars(buffer,buffer + read_in_width);
-- 
2.43.0


From 368837ba08917bb520a058a5d70b8053cea2cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 90/94] fix: reals with more digits than the type's range holds
 keep their value

---
 strtk.hpp | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cac2198..351e125 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17681,6 +17681,22 @@ namespace strtk
          return true;
       }
 
+      // Accumulates as many digits of [begin,end) as can be held by a T, and
+      // returns the position of the first digit that was left out.
+      template <typename Iterator, typename T>
+      inline Iterator leading_digits(const Iterator begin, const Iterator end, T& t)
+      {
+         const T limit = std::numeric_limits<T>::max() / T(100);
+         Iterator itr = begin;
+
+         for (t = T(0); (end != itr) && (t < limit); ++itr)
+         {
+            t = t * T(10) + T((*itr) - '0');
+         }
+
+         return itr;
+      }
+
       template <typename Iterator, typename T>
       inline bool string_to_type_converter_impl(Iterator& itr_external, const Iterator end, T& t, real_type_tag)
       {
@@ -17719,10 +17735,13 @@ namespace strtk
 
          #endif
 
+         int exponent = 0;
+
          if (strtk_likely('.' != (*itr)))
          {
             const Iterator curr = itr;
             while ((end != itr) && ('0' == (*itr))) ++itr;
+            const Iterator first = itr;
             unsigned int digit;
 
             while (end != itr)
@@ -17739,9 +17758,12 @@ namespace strtk
             }
 
             if (curr != itr) instate = true;
-         }
 
-         int exponent = 0;
+            if (strtk_unlikely(d > std::numeric_limits<real_t>::max()))
+            {
+               exponent = static_cast<int>(std::distance(leading_digits(first,itr,d),itr));
+            }
+         }
 
          if (end != itr)
          {
@@ -17766,7 +17788,22 @@ namespace strtk
                if (curr != itr)
                {
                   instate = true;
-                  d += pow10(tmp_d,static_cast<int>(-std::distance(curr,itr)));
+                  Iterator last = itr;
+
+                  if (strtk_unlikely(tmp_d > std::numeric_limits<real_t>::max()))
+                  {
+                     last = leading_digits(curr,itr,tmp_d);
+                  }
+
+                  const int length = static_cast<int>(std::distance(curr,last));
+
+                  if (real_t(0) == d)
+                  {
+                     d = tmp_d;
+                     exponent = -length;
+                  }
+                  else
+                     d += pow10(tmp_d,-length);
                }
 
                #undef parse_digit_1
-- 
2.43.0


From 449e89a955cee5437e9215222763eb21938eeea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 91/94] fix: set_array copies only the source array's own
 elements

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 351e125..43c1ccc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24155,7 +24155,7 @@ namespace strtk
    {
       if (N < M)
          return false;
-      std::copy(src,src + N, &dest[0]);
+      std::copy(src,src + M, &dest[0]);
       if ((M < N) && pad)
          std::fill_n(&dest[M],N - M,padding);
       return true;
-- 
2.43.0


From bb1ec37ebd6cca085333c1a66d8a8042fd309bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 92/94] fix: fill of a character range or range adapter
 compiles

---
 strtk.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 43c1ccc..d9ac81d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24194,18 +24194,11 @@ namespace strtk
       std::fill(const_cast<char*>(to_ptr(s)),const_cast<char*>(to_ptr(s) + s.size()), v);
    }
 
-   inline void fill(const std::pair<const char*,const char*>& range, char v)
-   {
-      char* begin = const_cast<char*>(range.first);
-      char* end = const_cast<char*>(range.second);
-      std::fill(begin,end,v);
-   }
-
    template <typename T>
    inline void fill(const range::adapter<const T>& r, const typename range::adapter<const T>::value_type& v)
    {
-      char* begin = const_cast<char*>(r.begin());
-      char* end = const_cast<char*>(r.end());
+      T* begin = const_cast<T*>(r.begin());
+      T* end = const_cast<T*>(r.end());
       std::fill(begin,end,v);
    }
 
-- 
2.43.0


From 2d999c851e02e96fa3dae5f47a66c420c51c5804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 93/94] fix: range_to_ptr_type advances when post-incremented
 or called with a range

---
 strtk.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d9ac81d..15a64c8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3111,9 +3111,10 @@ namespace strtk
       }
 
       template <typename Iterator>
-      inline void operator()(const std::pair<Iterator,Iterator>& r) const
+      inline void operator()(const std::pair<Iterator,Iterator>& r)
       {
-         value_type t;
+         value_type t = value_type();
+
          if (string_to_type_converter(r.first,r.second,t))
          {
             (*pointer_) = t;
@@ -3140,7 +3141,7 @@ namespace strtk
          return (*this);
       }
 
-      inline range_to_ptr_type_iterator operator++(int)
+      inline range_to_ptr_type_iterator& operator++(int)
       {
          return (*this);
       }
-- 
2.43.0


From 8e85f0e86845eec2621b629eea5188a5dae2ac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:48 +0000
Subject: [PATCH 94/94] fix: a sink constructed with its container starts
 without an element limit

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 15a64c8..66d5f64 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15416,7 +15416,8 @@ namespace strtk
                        const split_options::type& split_option = split_options::compress_delimiters)
       : delimiters_(delimiters),
         split_option_(split_option),
-        container_(&container)
+        container_(&container),
+        element_count_(std::numeric_limits<std::size_t>::max())
       {}
 
       inline sink_type& count(const std::size_t& element_count = std::numeric_limits<std::size_t>::max())
-- 
2.43.0

