From 458c6d6c78fced5f9251466445a037999a1cf8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 01/27] fix: UTF-8 to UTF-8 transcode_size reported
 insufficient space when the output fits exactly

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 5740082..cebb5e1 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1948,7 +1948,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         } else {
             size += 3;
         }
-        if (size >= limit) {
+        if (size > limit) {
             return {previous_size, previous_src, strf::transcode_stop_reason::insufficient_output_space};
         }
     }
-- 
2.43.0


From 3099b2a9f11ee346464d19fb62267484c3fbb67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:30 +0000
Subject: [PATCH 02/27] fix: UTF-8 to UTF-32 unsafe_transcode_size stopped in
 the middle of a character

---
 include/strf/detail/utf.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index cebb5e1..3bbdfa3 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -1671,11 +1671,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         //               :              4);
     } else {
         for (;src_it < src_end; ++src_it) {
-            if (size >= limit){
-                return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
-            }
             const unsigned ch = detail::cast_u8(*src_it);
-            size += detail::not_utf8_continuation(ch);
+            if (detail::not_utf8_continuation(ch)) {
+                if (size >= limit) {
+                    return {size, src_it, strf::transcode_stop_reason::insufficient_output_space};
+                }
+                ++size;
+            }
         }
     }
     return {size, src_end, strf::transcode_stop_reason::completed};
-- 
2.43.0


From 85be9ba31f499ee6dd13e1bf9cd5ad1d1eb4350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 03/27] fix: UTF-32 to UTF-32 transcode_size missed invalid
 code units of signed character types

---
 include/strf/detail/utf.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 3bbdfa3..8582859 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -3012,13 +3012,13 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
     if (src_end - src <= limit) {
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
             }
@@ -3027,7 +3027,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
         const auto* src_limit = src_begin + limit;
         if (strf::with_strict_surrogate_policy(flags)) {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
+                if (detail::cast_u32(*src) >= 0x110000 || detail::is_surrogate(detail::cast_unsigned(*src))) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
@@ -3036,7 +3036,7 @@ STRF_HD strf::transcode_size_result<SrcCharT> strf::static_transcoder
             }
         } else {
             for ( ; src < src_end; ++src) {
-                if (*src >= 0x110000) {
+                if (detail::cast_u32(*src) >= 0x110000) {
                     return {src - src_begin, src, reason::invalid_sequence};
                 }
                 if (src >= src_limit) {
-- 
2.43.0


From 4ee64fa49b1edf487591a3ab874b4f97e9ad1ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 04/27] fix: UTF-32 to single-byte transcode_size classified
 boundary code units differently from transcode

---
 include/strf/detail/single_byte_charsets.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index de410ca..711aaad 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -246,7 +246,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                    if ( (*it < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +255,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it <= 0xD800 || (0xFFFF <= *it && *it <= 0x10FFFF))
+                if ( (*it < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +276,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it <= 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
-- 
2.43.0


From 1209bb2fd48692fb549fe6e7a7cda8d3de6fcec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 05/27] fix: UTF-32 to single-byte charsets missed invalid code
 units of signed character types

---
 include/strf/detail/single_byte_charsets.hpp | 26 ++++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 711aaad..69c40a3 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -143,14 +143,14 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                 }
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::cast_u32(*it) >= 0x110000) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
             }
@@ -159,7 +159,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (it == src_limit) {
@@ -168,7 +168,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::cast_u32(*it) >= 0x110000) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (it == src_limit) {
@@ -188,7 +188,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                    if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                         return {it - src, it, stop_reason::invalid_sequence};
                     }
                     if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -198,7 +198,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it >= 0x110000) {
+                if (detail::cast_u32(*it) >= 0x110000) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -210,7 +210,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if (*it >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
+                if (detail::cast_u32(*it) >= 0x110000 || (0xD800 <= *it && *it <= 0xFFFF)) {
                     return {it - src, it, stop_reason::invalid_sequence};
                 }
                 if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -222,7 +222,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it >= 0x110000) {
+            if (detail::cast_u32(*it) >= 0x110000) {
                 return {it - src, it, stop_reason::invalid_sequence};
             }
             if (T::encode(static_cast<char32_t>(*it)) >= 0x100) {
@@ -246,7 +246,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         if (src_end - src <= limit) {
             if (strict_surrogates) {
                 for(auto it = src; it < src_end; ++it) {
-                    if ( (*it < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
+                    if ( (detail::cast_u32(*it) < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                          && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                     {
                         return {it - src, it, stop_reason::unsupported_codepoint};
@@ -255,7 +255,7 @@ struct sbcs_find_unsupported_codepoint_crtp
                 return {src_end - src, src_end, stop_reason::completed};
             }
             for(auto it = src; it < src_end; ++it) {
-                if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+                if (detail::cast_u32(*it) < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                     return {it - src, it, stop_reason::unsupported_codepoint};
                 }
             }
@@ -265,7 +265,7 @@ struct sbcs_find_unsupported_codepoint_crtp
         const auto* const src_limit = src + limit;
         if (strict_surrogates) {
             for(auto it = src; ; ++it) {
-                if ( (*it < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
+                if ( (detail::cast_u32(*it) < 0xD800 || (0xFFFF < *it && *it <= 0x10FFFF))
                      && T::encode(static_cast<char32_t>(*it)) >= 0x100)
                 {
                     return {it - src, it, stop_reason::unsupported_codepoint};
@@ -276,7 +276,7 @@ struct sbcs_find_unsupported_codepoint_crtp
             }
         }
         for(auto it = src; ; ++it) {
-            if (*it < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
+            if (detail::cast_u32(*it) < 0x110000 && T::encode(static_cast<char32_t>(*it)) >= 0x100) {
                 return {it - src, it, stop_reason::unsupported_codepoint};
             }
             if (it == src_limit) {
@@ -2664,7 +2664,7 @@ utf32_to_single_byte_charset<SrcCharT, DstCharT, Impl>::transcode
         unsigned ch = Impl::encode(detail::cast_u32(*src));
         STRF_IF_UNLIKELY (ch >= 0x100) {
             const bool is_invalid =
-                ( *src >= 0x110000
+                ( detail::cast_u32(*src) >= 0x110000
                || ( strf::with_strict_surrogate_policy(flags)
                  && 0xD800 <= *src
                  && *src <= 0xFFFF));
-- 
2.43.0


From c5cb199de14ccb5795719c38e58a716b9f521443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 06/27] fix: windows-1254 encoded U+00D0, U+00DD, U+00DE,
 U+00F0, U+00FD and U+00FE as other characters

---
 include/strf/detail/single_byte_charsets.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 69c40a3..0e7a88f 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2001,6 +2001,8 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1254::encode_ext(char32_t ch) noexc
         case 0x90: return 0x90;
         case 0x9D: return 0x9D;
         case 0x9E: return 0x9E;
+        case 0xD0: case 0xDD: case 0xDE:
+        case 0xF0: case 0xFD: case 0xFE: return 0x100;
         case 0x011E: return 0xD0;
         case 0x011F: return 0xF0;
         case 0x0130: return 0xDD;
-- 
2.43.0


From e5bc53cc54a2aeb70f013096274e9f625e9f7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:56 +0000
Subject: [PATCH 07/27] fix: windows-1258 encoded U+009F as the byte of U+0178

---
 include/strf/detail/single_byte_charsets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/single_byte_charsets.hpp b/include/strf/detail/single_byte_charsets.hpp
index 0e7a88f..097c528 100644
--- a/include/strf/detail/single_byte_charsets.hpp
+++ b/include/strf/detail/single_byte_charsets.hpp
@@ -2401,7 +2401,7 @@ STRF_FUNC_IMPL STRF_HD unsigned impl_windows_1258::encode_ext(char32_t ch) noexc
     static const ch32_to_char char_map[] =
         { {0x0081, 0x81}, {0x008A, 0x8A}, {0x008D, 0x8D}, {0x008E, 0x8E}
         , {0x008F, 0x8F}, {0x0090, 0x90}, {0x009A, 0x9A}, {0x009D, 0x9D}
-        , {0x009E, 0x9E}, {0x009F, 0x9F}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
+        , {0x009E, 0x9E}, {0x00A0, 0xA0}, {0x00A1, 0xA1}
         , {0x00A2, 0xA2}, {0x00A3, 0xA3}, {0x00A4, 0xA4}, {0x00A5, 0xA5}
         , {0x00A6, 0xA6}, {0x00A7, 0xA7}, {0x00A8, 0xA8}, {0x00A9, 0xA9}
         , {0x00AA, 0xAA}, {0x00AB, 0xAB}, {0x00AC, 0xAC}, {0x00AD, 0xAD}
-- 
2.43.0


From bf99c99e950b6c55877546ffae548cf3b348dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 08/27] fix: C-string and array destinations lost the end of
 the kept text when written to after becoming full

---
 include/strf/destination.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/strf/destination.hpp b/include/strf/destination.hpp
index 8415cac..29b36bb 100644
--- a/include/strf/destination.hpp
+++ b/include/strf/destination.hpp
@@ -372,6 +372,10 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if ( ! this->good()) {
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CSTRING)
@@ -507,6 +511,10 @@ private:
 
     STRF_HD void do_write(const CharT* data, std::size_t) noexcept override
     {
+        if ( ! this->good()) {
+            this->set_buffer_ptr(garbage_buff<CharT>());
+            return;
+        }
         auto sub_count = this->buffer_space();
         auto *ptr = this->buffer_ptr();
 #if !defined(STRF_FREESTANDING) || defined(STRF_WITH_CHAR_ARRAYING)
-- 
2.43.0


From 4b434ddf381672a30abcefc981ecaeee636cc01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:14 +0000
Subject: [PATCH 09/27] fix: streambuf destination wrote a string after a
 failed write of the text before it

---
 include/strf/to_streambuf.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strf/to_streambuf.hpp b/include/strf/to_streambuf.hpp
index 755bc40..cc83b05 100644
--- a/include/strf/to_streambuf.hpp
+++ b/include/strf/to_streambuf.hpp
@@ -86,7 +86,9 @@ private:
         STRF_IF_LIKELY (this->good()) {
             this->set_good(false);
             auto count_inc = dst_.sputn(buf_, count);
-            count_inc += dst_.sputn(str,  str_slen);
+            if (count_inc == count) {
+                count_inc += dst_.sputn(str,  str_slen);
+            }
             count_ += count_inc;
             this->set_good(count_inc == count + str_slen);
         }
-- 
2.43.0


From bba76397448694e97670a229dc3f9846917178d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:59 +0000
Subject: [PATCH 10/27] fix: integers with sign format but no alignment ensured
 space for only one character

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index eae51e1..e6440ab 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1355,7 +1355,7 @@ public:
 
     STRF_HD void operator()(strf::destination<CharT>& dst) const
     {
-        dst.ensure(data_.digcount + data_.prefix != 0);
+        dst.ensure(data_.digcount + (data_.prefix != 0));
         auto *it = dst.buffer_ptr();
         if (data_.prefix != 0) {
             *it++ = static_cast<CharT>(data_.prefix);
-- 
2.43.0


From a0f6a1632ed5aac06ccf28b3ff53debbb3a93704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:56 +0000
Subject: [PATCH 11/27] fix: alignment could not be set after a full dynamic
 integer format

---
 include/strf/detail/printable_types/int.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index e6440ab..b34a941 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -879,7 +879,7 @@ public:
     template <typename U>
     constexpr STRF_HD explicit int_format_specifier_full_dynamic_fn
         ( const int_format_specifier_full_dynamic_fn<U>& other)  noexcept
-        : data_(other.data_)
+        : data_(other.get_int_format())
     {
     }
 
-- 
2.43.0


From 46bf944095d799307c90ab54574dd494d262c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 12/27] fix: thousands separators that cannot be encoded were
 still counted in the width of integers

---
 include/strf/detail/printable_types/int.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index b34a941..665e646 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -1787,6 +1787,7 @@ STRF_HD fmt_int_printer_data_init_result init_punct_fmt_int_printer_data
         auto sepsize = validate(data.sepchar);
         if (sepsize == strf::invalid_char_len) {
             data.grouping = strf::digits_grouping{};
+            data.sepcount = 0;
             data.sepsize = 0;
         } else {
             data.sepsize = static_cast<int>(sepsize);
-- 
2.43.0


From f98155bd50e7021f9cf41ad1a3d0bd2dd3eaeb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:10 +0000
Subject: [PATCH 13/27] fix: binary integers with thousands separators wrote
 the first group past the space of the destination

---
 include/strf/detail/int_digits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/strf/detail/int_digits.hpp b/include/strf/detail/int_digits.hpp
index a14fcdb..224712f 100644
--- a/include/strf/detail/int_digits.hpp
+++ b/include/strf/detail/int_digits.hpp
@@ -1126,6 +1126,7 @@ public:
 
         UIntT mask = (UIntT)1 << (digcount - 1);
         auto dist = grouping.distribute(digcount);
+        dst.ensure(dist.highest_group);
         auto *oit = dst.buffer_ptr();
         auto *end = dst.buffer_end();
         while (dist.highest_group--) {
-- 
2.43.0


From 971203da8685de53bf7f65ee402296b6ee65c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 14/27] fix: no_grouping ignored the decimal point it was given

---
 include/strf/detail/facets/numpunct.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/detail/facets/numpunct.hpp b/include/strf/detail/facets/numpunct.hpp
index 063c4b1..ecdae5e 100644
--- a/include/strf/detail/facets/numpunct.hpp
+++ b/include/strf/detail/facets/numpunct.hpp
@@ -595,11 +595,11 @@ public:
     }
     constexpr STRF_HD char32_t decimal_point() const noexcept
     {
-        return U'.';
+        return decimal_point_;
     }
-    constexpr STRF_HD explicit operator strf::numpunct<Base> () const noexcept
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD explicit operator strf::numpunct<Base> () const noexcept
     {
-        return {};
+        return strf::numpunct<Base>{}.decimal_point(decimal_point_);
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD no_grouping& decimal_point(char32_t ch) & noexcept
     {
@@ -613,7 +613,7 @@ public:
     }
 
 private:
-    char32_t decimal_point_;
+    char32_t decimal_point_ = U'.';
 };
 
 template <int Base> struct numpunct_c
-- 
2.43.0


From ae1c97cd5d1698ba12e8dfefcc037714a5f81f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:21 +0000
Subject: [PATCH 15/27] fix: decode_unit of UTF-8 in char gave garbage for the
 bytes above 0x7F

---
 include/strf/detail/utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/utf.hpp b/include/strf/detail/utf.hpp
index 8582859..4f9cffa 100644
--- a/include/strf/detail/utf.hpp
+++ b/include/strf/detail/utf.hpp
@@ -962,7 +962,7 @@ public:
 
     static STRF_HD char32_t decode_unit(CharT ch) noexcept
     {
-        STRF_IF_LIKELY (ch < 0x80)
+        STRF_IF_LIKELY (detail::cast_u8(ch) < 0x80)
             return static_cast<char32_t>(ch);
         return 0xFFFD;
     }
-- 
2.43.0


From 4e0e0bd77b9a10f93f27bf1884fd2d88ab5c41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:00 +0000
Subject: [PATCH 16/27] fix: width of a string cut before a wide character
 counted columns it does not have

std_width_calc_t::str_width_and_pos returned the limit as the width when the
next character did not fit in what was left, so strf::right(u"\u4e2d",4).p(1)
wrote three fill characters. It also stopped inside a grapheme cluster when
the limit was reached exactly at the 32nd codepoint.
---
 docs/ref_width.adoc                             | 2 +-
 include/strf/detail/facets/width_calculator.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/ref_width.adoc b/docs/ref_width.adoc
index 0fff9d3..c718d27 100644
--- a/docs/ref_width.adoc
+++ b/docs/ref_width.adoc
@@ -501,7 +501,7 @@ static auto str_width_and_pos
 ----
 Return value:: a value `r` such that
 +
-* `r.width` is same value returned by `str_width(cs, limit, str, str_end )`
+* `r.width` is the width of [`str`, `r.ptr`)
 * `r.ptr` is greatest pointer not greater than `str_end` such that the expression
 below evaluates to `true`:
 +
diff --git a/include/strf/detail/facets/width_calculator.hpp b/include/strf/detail/facets/width_calculator.hpp
index d63a7ea..07d6a05 100644
--- a/include/strf/detail/facets/width_calculator.hpp
+++ b/include/strf/detail/facets/width_calculator.hpp
@@ -220,7 +220,7 @@ STRF_FUNC_IMPL STRF_HD std_width_calc_func_return std_width_calc_func
             return {0, 0, nullptr};
         }
         if (ch_width > width) {
-            return {0, 0, str -1};
+            return {width, 0, str -1};
         }
         width = 0;
         goto next_codepoint; // because there might be more codepoints in this grapheme cluster
@@ -515,7 +515,7 @@ public:
             resw = detail::std_width_calc_func
                 ( buff32, res_tr.dst_ptr, resw.remaining_width, resw.state, true );
 
-            if ( resw.remaining_width <= 0 ||
+            if ( resw.ptr != res_tr.dst_ptr ||
                  res_tr.stop_reason != transcode_stop_reason::insufficient_output_space)
             {
                 const auto width = limit - resw.remaining_width;
-- 
2.43.0


From 834b21664405bce3f369130d3f3bfee587776ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 17/27] fix: reserve_calc() could not be combined with tr()

to_string.reserve_calc().tr(...) did not compile: the destination type without
a size argument was created with the calculated size.
---
 include/strf/detail/reserve_policies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strf/detail/reserve_policies.hpp b/include/strf/detail/reserve_policies.hpp
index 0767317..e5e69f7 100644
--- a/include/strf/detail/reserve_policies.hpp
+++ b/include/strf/detail/reserve_policies.hpp
@@ -356,7 +356,7 @@ private:
         , std::initializer_list<const detail::polymorphic_printer<CharT>*> printers )
     {
         using dest_creator_t = detail::remove_cvref_t<DestCreator>;
-        using dest_type = typename dest_creator_t::destination_type;
+        using dest_type = typename dest_creator_t::sized_destination_type;
 
         using charset_cat = strf::charset_c<CharT>;
         auto charset = strf::get_facet<charset_cat, void>(fp);
-- 
2.43.0


From 23baa59c9fee71f391185235779d2b7a3e65f9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 18/27] fix: reserve(n) could not be called again after
 reserve(n)

The documented member of printing_syntax with the reserve_given_space policy
was named reserve_given_space.
---
 include/strf/printing_syntax.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index 9c000d5..b6096c4 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -281,7 +281,7 @@ public:
                  < std::is_copy_constructible<FP>::value
                 && std::is_copy_constructible<DC>::value
                  , int > = 0 >
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve_given_space(std::size_t space) const &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve(std::size_t space) const &
     {
         auto& self = static_cast<const this_pss_&>(*this);
         return {self.dest_creator_, reserve_policy_t{space}, self.fpack_};
@@ -293,18 +293,18 @@ public:
                  < std::is_copy_constructible<FP>::value
                 && std::is_copy_constructible<DC>::value
                  , int > = 0 >
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve_given_space(std::size_t space) const &&
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_ reserve(std::size_t space) const &&
     {
         auto& self = static_cast<const this_pss_&>(*this);
         return {self.dest_creator_, reserve_policy_t{space}, self.fpack_};
     }
 
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& reserve_given_space(std::size_t space) &
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& reserve(std::size_t space) &
     {
         poli_.space = space;
         return static_cast<pss_<reserve_policy_t>&>(*this);
     }
-    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_&& reserve_given_space(std::size_t space) &&
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_&& reserve(std::size_t space) &&
     {
         poli_.space = space;
         return static_cast<pss_<reserve_policy_t>&&>(*this);
-- 
2.43.0


From c12b84aa2a67519a6d4428cd0581aa391a276f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:29 +0000
Subject: [PATCH 19/27] fix: with() without arguments did not compile on a
 non-const lvalue

---
 include/strf/printing_syntax.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/printing_syntax.hpp b/include/strf/printing_syntax.hpp
index b6096c4..703ef7f 100644
--- a/include/strf/printing_syntax.hpp
+++ b/include/strf/printing_syntax.hpp
@@ -436,7 +436,7 @@ public:
 
     STRF_CONSTEXPR_IN_CXX14 STRF_HD this_pss_& with() &
     {
-        return static_cast<this_pss_&&>(*this);
+        return static_cast<this_pss_&>(*this);
     }
 
     constexpr STRF_HD const this_pss_&& with() const &&
@@ -446,7 +446,7 @@ public:
 
     constexpr STRF_HD const this_pss_& with() const &
     {
-        return static_cast<const this_pss_&&>(*this);
+        return static_cast<const this_pss_&>(*this);
     }
 };
 
-- 
2.43.0


From 121369b0f77188f45240ad72dd520f0fd334221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 20/27] fix: set_int_format(default_int_format) did not compile
 after most int formats

---
 include/strf/detail/printable_types/int.hpp | 44 ++++++++++++++++++---
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/strf/detail/printable_types/int.hpp b/include/strf/detail/printable_types/int.hpp
index 665e646..4e8c7ba 100644
--- a/include/strf/detail/printable_types/int.hpp
+++ b/include/strf/detail/printable_types/int.hpp
@@ -322,12 +322,12 @@ public:
     constexpr STRF_HD const T&&
     set_int_format(strf::default_int_format) const && noexcept
     {
-        return static_cast<T&&>(*this);
+        return static_cast<const T&&>(*this);
     }
     constexpr STRF_HD const T&
     set_int_format(strf::default_int_format) const & noexcept
     {
-        return static_cast<T&>(*this);
+        return static_cast<const T&>(*this);
     }
     template <int Base>
     constexpr STRF_HD no_pad0_nor_punct_t_<Base> set_int_format
@@ -577,9 +577,20 @@ public:
     constexpr STRF_HD strf::fmt_replace
         < T, int_format_specifier_no_pad0_nor_punct<Base>
         , default_int_format_specifier >
-    set_int_format(strf::default_int_format) const & noexcept
+    set_int_format(strf::default_int_format data) const & noexcept
     {
-        return { * static_cast<const T*>(this) };
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::fmt_replace
+        < T, int_format_specifier_no_pad0_nor_punct<Base>
+        , default_int_format_specifier >
+    set_int_format(strf::default_int_format data) && noexcept
+    {
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
     }
     constexpr STRF_HD full_dynamic_t_
     set_int_format(strf::int_format_full_dynamic new_data) const & noexcept
@@ -826,9 +837,21 @@ public:
         < T
         , int_format_specifier_static_base_and_punct<Base, Punctuate>
         , default_int_format_specifier >
-    set_int_format(strf::default_int_format) const & noexcept
+    set_int_format(strf::default_int_format data) const & noexcept
+    {
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD strf::fmt_replace
+        < T
+        , int_format_specifier_static_base_and_punct<Base, Punctuate>
+        , default_int_format_specifier >
+    set_int_format(strf::default_int_format data) && noexcept
     {
-        return { * static_cast<const T*>(this) };
+        return { *static_cast<const T*>(this)
+               , strf::tag<strf::default_int_format_specifier>{}
+               , data };
     }
     constexpr STRF_HD
     strf::fmt_replace
@@ -1047,6 +1070,15 @@ public:
             , strf::tag<strf::default_int_format_specifier>{}
             , data };
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, int_format_specifier_full_dynamic, default_int_format_specifier >
+    set_int_format(strf::default_int_format data) && noexcept
+    {
+        return
+            { *static_cast<const T*>(this)
+            , strf::tag<strf::default_int_format_specifier>{}
+            , data };
+    }
 
     constexpr STRF_HD const int_format_full_dynamic& get_int_format() const
     {
-- 
2.43.0


From 22b9a760766830a3112338e6a5a448fb42a7403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 21/27] fix: set_float_format(default_float_format) was
 ambiguous on rvalues

---
 include/strf/detail/printable_types/float.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 34af085..e292999 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -523,6 +523,14 @@ public:
                , format };
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, float_format_specifier_no_punct, float_format_specifier>
+    set_float_format(strf::default_float_format format) && noexcept
+    {
+        return { self_downcast_()
+               , strf::tag<float_format_specifier>{}
+               , format };
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
     strf::fmt_replace<T, float_format_specifier_no_punct, float_format_specifier_full_dynamic>
     set_float_format(strf::float_format format) const & noexcept
     {
@@ -674,6 +682,14 @@ public:
                , strf::tag<float_format_specifier>{}
                , format };
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    strf::fmt_replace<T, float_format_specifier_full_dynamic, float_format_specifier>
+    set_float_format(strf::default_float_format format) && noexcept
+    {
+        return { self_downcast_()
+               , strf::tag<float_format_specifier>{}
+               , format };
+    }
     constexpr STRF_HD strf::float_notation float_notation() const noexcept
     {
         return data_.notation;
-- 
2.43.0


From 48105b0d94b5b7fd68efb5dc71b453bcc0021e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:19 +0000
Subject: [PATCH 22/27] fix: clear_alignment_format was missing without
 alignment, set_alignment_format(default) ambiguous with it

---
 include/strf/detail/format_functions.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/strf/detail/format_functions.hpp b/include/strf/detail/format_functions.hpp
index 1789fb3..307f3b8 100644
--- a/include/strf/detail/format_functions.hpp
+++ b/include/strf/detail/format_functions.hpp
@@ -132,6 +132,15 @@ public:
     {
         return { self_downcast_(), strf::tag<strf::alignment_format_specifier_q<false>>{} };
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD
+    auto set_alignment_format(strf::default_alignment_format) &&
+        -> strf::fmt_replace
+            < T
+            , strf::alignment_format_specifier_q<true>
+            , strf::alignment_format_specifier_q<false> >
+    {
+        return { self_downcast_(), strf::tag<strf::alignment_format_specifier_q<false>>{} };
+    }
     constexpr STRF_HD auto clear_alignment_format() const
         -> strf::fmt_replace
             < T
@@ -235,6 +244,18 @@ public:
             , strf::tag<strf::alignment_format_specifier_q<true>>{}
             , data };
     }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T&& clear_alignment_format() && noexcept
+    {
+        return move_self_downcast_();
+    }
+    STRF_CONSTEXPR_IN_CXX14 STRF_HD T& clear_alignment_format() & noexcept
+    {
+        return self_downcast_();
+    }
+    constexpr STRF_HD const T& clear_alignment_format() const & noexcept
+    {
+        return self_downcast_();
+    }
     constexpr static STRF_HD strf::default_alignment_format get_alignment_format() noexcept
     {
         return {};
-- 
2.43.0


From c8148647e230e30739ec303cb012ec45557c2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 23/27] fix: size and width measured for aligned joins were
 wrong under the maximum width limit

---
 include/strf/detail/premeasurements.hpp      |  2 +-
 include/strf/detail/printable_types/join.hpp | 10 ++++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/strf/detail/premeasurements.hpp b/include/strf/detail/premeasurements.hpp
index bb325ef..50ed930 100644
--- a/include/strf/detail/premeasurements.hpp
+++ b/include/strf/detail/premeasurements.hpp
@@ -55,7 +55,7 @@ public:
     }
     constexpr STRF_HD bool remaining_width_greater_than(strf::width_t w) const noexcept
     {
-        return width_ + w < limit_;
+        return w < remaining_width();
     }
     STRF_CONSTEXPR_IN_CXX14 STRF_HD bool has_remaining_width() const noexcept
     {
diff --git a/include/strf/detail/printable_types/join.hpp b/include/strf/detail/printable_types/join.hpp
index 005978f..a5a18bc 100644
--- a/include/strf/detail/printable_types/join.hpp
+++ b/include/strf/detail/printable_types/join.hpp
@@ -243,22 +243,20 @@ struct join_printing
         const auto charset = get_facet<strf::charset_c<CharT>, void>(facets);
         const auto afmt = arg.get_alignment_format();
         strf::width_t wmax = afmt.width;
-        strf::width_t wdiff = 0;
         if (pre->remaining_width_greater_than(afmt.width)) {
             wmax = pre->remaining_width();
-            wdiff = wmax - afmt.width;
         }
         sub_pre_t sub_pre{wmax};
         pf_type pf
             { {arg.value().args, &sub_pre, facets}
             , afmt
             , charset.encode_fill_func() };
+        const strf::width_t content_width = wmax - sub_pre.remaining_width();
         pf.fillcount_ =
-            ( sub_pre.remaining_width_greater_than(wdiff)
-            ? (sub_pre.remaining_width() - wdiff).round()
+            ( afmt.width > content_width
+            ? (afmt.width - content_width).round()
             : 0 );
-        pre->add_width
-            ( strf::sat_sub(strf::sat_add(wmax, pf.fillcount_), sub_pre.remaining_width()) );
+        pre->add_width(strf::sat_add(content_width, pf.fillcount_));
         STRF_IF_CONSTEXPR (static_cast<bool>(SizePresence)) {
             pre->add_size(sub_pre.accumulated_ssize());
             if (pf.fillcount_ > 0) {
-- 
2.43.0


From b74c92f66e9019f89db904cdb5556ae3c8c263c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 24/27] fix: size of floats rounded up to a single digit did
 not count the sign

---
 include/strf/detail/printable_types/float.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index e292999..7aae25b 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1668,7 +1668,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
         data.sub_chars_count = data.showsign;
         if (data.e10 < 0) {
             data.showpoint = true;
-            data.sub_chars_count = 2 - data.e10;
+            data.sub_chars_count += 2 - data.e10;
             if (alt_form) {
                 data.extra_zeros = precision - 1;
                 data.sub_chars_count += data.extra_zeros;
@@ -1677,7 +1677,7 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_g
             data.showpoint = alt_form;
             const int int_digcount = 1 + data.e10;
             data.sep_count = grouping.separators_count(int_digcount);
-            data.sub_chars_count = 1 + data.e10 + data.sep_count + data.showpoint;
+            data.sub_chars_count += 1 + data.e10 + data.sep_count + data.showpoint;
             if (alt_form && precision > int_digcount) {
                 data.extra_zeros = precision - int_digcount;
                 data.sub_chars_count += data.extra_zeros;
-- 
2.43.0


From 2cc52ca45fe46b2538f3933af4a4f40265bf31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 25/27] fix: hexadecimal floats rounded up to the next power of
 two were printed as the one before

---
 include/strf/detail/printable_types/float.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 7aae25b..d799bd3 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2507,7 +2507,8 @@ STRF_HD void punct_double_printer<CharT>::print_hexadecimal_
         dst.ensure(sub_size - 2 - data_.showsign);
         it = dst.buffer_ptr();
     }
-    *it ++ = static_cast<CharT>(0x30 | int(!data_.subnormal)); // '0' or  '1'
+    // '0' or '1', plus one if the mantissa has been rounded up to 1.0
+    *it ++ = static_cast<CharT>('0' + int(!data_.subnormal) + int(data_.mantissa >> 52));
     if (data_.showpoint) {
         if (decimal_point_ < 0x80) {
             *it ++ = static_cast<CharT>(decimal_point_);
-- 
2.43.0


From 89abf7360d1ed8ebf8afce67f0117994397c5fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 26/27] fix: floats rounded up to one more integral digit
 missed a thousands separator

---
 include/strf/detail/printable_types/float.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index d799bd3..08ffe02 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -1937,6 +1937,12 @@ inline STRF_HD strf::detail::float_init_result init_double_data_with_precision_f
                     } else {
                         data.extra_zeros = precision;
                         ++data.sub_chars_count;
+                        if (grouping.any_separator(data.e10 + 1)) {
+                            const auto sep_count = static_cast<detail::chars_count_t>
+                                (grouping.separators_count(data.e10 + 1));
+                            data.sub_chars_count += sep_count - data.sep_count;
+                            data.sep_count = sep_count;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 8d705f90112defb80c8ba9f497a0ec9eaef6f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:54 +0000
Subject: [PATCH 27/27] fix: thousands separator of large floats was not
 encoded

---
 include/strf/detail/printable_types/float.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/strf/detail/printable_types/float.hpp b/include/strf/detail/printable_types/float.hpp
index 08ffe02..81c49a1 100644
--- a/include/strf/detail/printable_types/float.hpp
+++ b/include/strf/detail/printable_types/float.hpp
@@ -2396,9 +2396,14 @@ STRF_HD void punct_double_printer<CharT>::print_fixed_
                                        , strf::lowercase );
             strf::detail::write_fill(dst, data_.e10, (CharT)'0');
         } else if (sep_size_ == 1) {
+            CharT sep;
+            if (thousands_sep_ < 0x80) {
+                sep = static_cast<CharT>(thousands_sep_);
+            } else {
+                encode_char_(&sep, thousands_sep_);
+            }
             strf::detail::print_amplified_integer_small_separator
-                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10
-                , static_cast<CharT>(thousands_sep_) );
+                ( dst, data_.m10, grouping_, data_.m10_digcount, data_.e10, sep );
         } else {
             strf::detail::print_amplified_integer_big_separator
                 ( dst, encode_char_, data_.m10, grouping_, data_.m10_digcount
-- 
2.43.0

