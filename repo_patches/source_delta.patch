From 479920b57b6732675e85aaddb6e4a98f7f1c31c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:13 +0000
Subject: [PATCH 01/49] fix: don't treat the current segment of a
 non-contiguous source as all of the remaining input

---
 src/scn/impl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 676a9e5..c6aa422 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -997,8 +997,10 @@ bool is_segment_contiguous(Range r)
         }
         else {
             if (beg.stores_parent()) {
-                return beg.contiguous_segment().end() ==
-                       beg.parent()->current_view().end();
+                // Even the last segment of a non-contiguous source can't be
+                // treated as the entirety of the rest of the input:
+                // the source may still be able to provide more characters
+                return beg.parent()->is_contiguous();
             }
             return true;
         }
-- 
2.43.0


From fa2e213fba6ceb6e2a4864f9378dac225e759c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:13 +0000
Subject: [PATCH 02/49] fix: store the scanned value when reading char and
 wchar_t with integer presentation types

---
 src/scn/impl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index c6aa422..0f63d4b 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5709,7 +5709,7 @@ public:
         reader_impl_for_int<CharT> reader{};
         signed char tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<signed char>(value);
+        value = static_cast<signed char>(tmp_value);
         return ret;
     }
 };
@@ -5747,7 +5747,7 @@ public:
             std::conditional_t<sizeof(wchar_t) == 2, int16_t, int32_t>;
         integer_type tmp_value{};
         auto ret = reader.read_specs(range, specs, tmp_value, loc);
-        value = static_cast<integer_type>(value);
+        value = static_cast<integer_type>(tmp_value);
         return ret;
     }
 };
-- 
2.43.0


From f70d46646d26f833590bae0385d489fe39980376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:50 +0000
Subject: [PATCH 03/49] fix: reject overlong, surrogate and out-of-range code
 points when decoding Unicode

---
 include/scn/scan.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 255f789..e2f685d 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4111,6 +4111,11 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         char32_t cp{};
         cp |= (static_cast<char32_t>(input[0]) & 0x1f) << 6;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 0;
+        if (cp < 0x80) {
+            // Overlong encoding
+            SCN_UNLIKELY_ATTR
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4129,6 +4134,11 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[0]) & 0x0f) << 12;
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 0;
+        if (cp < 0x800 || (cp >= 0xd800 && cp <= 0xdfff)) {
+            // Overlong encoding, or an encoded surrogate
+            SCN_UNLIKELY_ATTR
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4153,6 +4163,11 @@ inline constexpr char32_t decode_utf8_code_point_exhaustive(
         cp |= (static_cast<char32_t>(input[1]) & 0x3f) << 12;
         cp |= (static_cast<char32_t>(input[2]) & 0x3f) << 6;
         cp |= (static_cast<char32_t>(input[3]) & 0x3f) << 0;
+        if (cp < 0x10000 || cp >= invalid_code_point) {
+            // Overlong encoding, or outside of the Unicode range
+            SCN_UNLIKELY_ATTR
+            return invalid_code_point;
+        }
         return cp;
     }
 
@@ -4280,7 +4295,8 @@ inline constexpr char32_t decode_code_point_exhaustive(
     else {
         SCN_EXPECT(input.size() == 1);
         auto cp = static_cast<char32_t>(input.front());
-        if (SCN_UNLIKELY(cp >= invalid_code_point)) {
+        if (SCN_UNLIKELY(cp >= invalid_code_point ||
+                         (cp >= 0xd800 && cp <= 0xdfff))) {
             return invalid_code_point;
         }
         return cp;
-- 
2.43.0


From f9ca74c3dbfc2b216c01f4c47c2a2f41eeb9bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:50 +0000
Subject: [PATCH 04/49] fix: report an error when reading a code point at the
 end of input or from invalid encoding

---
 src/scn/impl.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 0f63d4b..f9da87b 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5617,14 +5617,22 @@ public:
     auto read(const SourceRange& range, char32_t& cp)
         -> scan_expected<ranges::const_iterator_t<SourceRange>>
     {
+        if (auto e = eof_check(range); SCN_UNLIKELY(!e)) {
+            return unexpected(make_eof_scan_error(e));
+        }
         auto result = read_code_point_into(range);
         if (SCN_UNLIKELY(!result.is_valid())) {
             return detail::unexpected_scan_error(
                 scan_error::invalid_scanned_value, "Invalid code point");
         }
-        cp = detail::decode_code_point_exhaustive_valid(
+        const auto decoded_cp = detail::decode_code_point_exhaustive(
             std::basic_string_view<detail::char_t<SourceRange>>{
                 result.codepoint});
+        if (SCN_UNLIKELY(decoded_cp >= detail::invalid_code_point)) {
+            return detail::unexpected_scan_error(
+                scan_error::invalid_scanned_value, "Invalid code point");
+        }
+        cp = decoded_cp;
         return result.iterator;
     }
 };
-- 
2.43.0


From 7401b42901bfeec45a2c9a42ece1533d3c9cf362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:20 +0000
Subject: [PATCH 05/49] fix: recognize whitespace code points split between
 segments of a non-contiguous source

---
 src/scn/impl.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index f9da87b..3374b8c 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2183,6 +2183,20 @@ auto read_while_code_point(Range range, function_ref<bool(char32_t)> pred)
     return read_until_code_point(range, std::not_fn(pred));
 }
 
+// The end of a segment may be in the middle of a code point.
+// Leave out the trailing non-ASCII code units of the segment,
+// so that everything in it can be decoded without looking past the segment.
+inline std::string_view trim_possibly_partial_code_points(
+    std::string_view segment)
+{
+    while (!segment.empty() &&
+           !detail::is_ascii_code_point(
+               static_cast<unsigned char>(segment.back()))) {
+        segment.remove_suffix(1);
+    }
+    return segment;
+}
+
 template <typename Range>
 auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
 {
@@ -2198,7 +2212,8 @@ auto read_until_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg = trim_possibly_partial_code_points(
+                get_contiguous_beginning(range));
             if (auto seg_it = find_classic_space_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
@@ -2227,7 +2242,8 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
         auto it = range.begin();
 
         if constexpr (std::is_same_v<detail::char_t<Range>, char>) {
-            auto seg = get_contiguous_beginning(range);
+            auto seg = trim_possibly_partial_code_points(
+                get_contiguous_beginning(range));
             if (auto seg_it = find_classic_nonspace_narrow_fast(seg);
                 seg_it != seg.end()) {
                 return ranges::next(it, ranges::distance(seg.begin(), seg_it));
@@ -2235,9 +2251,9 @@ auto read_while_classic_space(Range range) -> ranges::const_iterator_t<Range>
             ranges::advance(it, seg.size());
         }
 
-        return read_while_code_point(range, [](char32_t cp) noexcept {
-            return detail::is_cp_space(cp);
-        });
+        return read_while_code_point(
+            ranges::subrange{it, range.end()},
+            [](char32_t cp) noexcept { return detail::is_cp_space(cp); });
     }
 }
 
-- 
2.43.0


From 5b9e5310997afb90ea7b1dea673e08169f5d06cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:39 +0000
Subject: [PATCH 06/49] fix: don't skip over invalid code units as if they were
 matched by the predicate

---
 src/scn/impl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 3374b8c..c9d691c 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2163,12 +2163,14 @@ auto read_until_code_point(Range range, function_ref<bool(char32_t)> pred)
     while (it != range.end()) {
         const auto val =
             read_code_point_into(ranges::subrange{it, range.end()});
-        if (SCN_LIKELY(val.is_valid())) {
-            const auto cp = detail::decode_code_point_exhaustive(
-                std::basic_string_view<detail::char_t<Range>>{val.codepoint});
-            if (pred(cp)) {
-                return it;
-            }
+        const auto cp =
+            SCN_LIKELY(val.is_valid())
+                ? detail::decode_code_point_exhaustive(
+                      std::basic_string_view<detail::char_t<Range>>{
+                          val.codepoint})
+                : detail::invalid_code_point;
+        if (pred(cp)) {
+            return it;
         }
         it = val.iterator;
     }
-- 
2.43.0


From 55aba7af686ea9c61c3f4e67486a567840a64eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:15 +0000
Subject: [PATCH 07/49] fix: match literal text outside of ASCII in narrow
 format strings

---
 src/scn/impl.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f97c748..81d4d65 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1605,14 +1605,15 @@ struct format_handler : format_handler_base {
                     {scan_error::invalid_literal, "Unexpected end of source"});
             }
 
-            if (auto [after_space_it, cp, is_space] = impl::is_first_char_space(
+            const auto [after_space_it, cp, is_space] =
+                impl::is_first_char_space(
                     detail::make_string_view_from_pointers(begin, end));
-                cp == detail::invalid_code_point) {
+            if (cp == detail::invalid_code_point) {
                 SCN_UNLIKELY_ATTR
                 return on_error({scan_error::invalid_format_string,
                                  "Invalid encoding in format string"});
             }
-            else if (is_space) {
+            if (is_space) {
                 // Skip all whitespace in input
                 get_ctx().advance_to(
                     impl::read_while_classic_space(get_ctx().range()));
@@ -1626,12 +1627,27 @@ struct format_handler : format_handler_base {
                 continue;
             }
 
-            if (*it != *begin) {
-                SCN_UNLIKELY_ATTR
-                return on_error({scan_error::invalid_literal,
-                                 "Unexpected literal character in source"});
+            // Match every code unit of the code point
+            const auto cp_end = detail::to_address(after_space_it);
+            while (true) {
+                if (*it != *begin) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected literal character in source"});
+                }
+                get_ctx().advance_to(ranges::next(it));
+                // (+1 because of the for loop ++begin)
+                if (begin + 1 == cp_end) {
+                    break;
+                }
+                ++begin;
+                it = get_ctx().begin();
+                if (impl::is_range_eof(it, get_ctx().end())) {
+                    SCN_UNLIKELY_ATTR
+                    return on_error({scan_error::invalid_literal,
+                                     "Unexpected end of source"});
+                }
             }
-            get_ctx().advance_to(ranges::next(it));
         }
     }
 
-- 
2.43.0


From 765de8407433d6fd40c6f18fdfb48fc10b92dc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:15 +0000
Subject: [PATCH 08/49] fix: propagate errors found in format specs of an
 argument

---
 src/scn/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 81d4d65..1506e8e 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1717,7 +1717,8 @@ struct format_handler : format_handler_base {
                       "Missing '}' in format string"});
             return parse_ctx.begin();
         }
-        if (SCN_UNLIKELY(!handler.get_error())) {
+        if (auto err = handler.get_error(); SCN_UNLIKELY(!err)) {
+            on_error(err.error());
             return parse_ctx.begin();
         }
         parse_ctx.advance_to(begin);
-- 
2.43.0


From 1c1d15dc9898bed82df1d936d1204c09b42c62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:15 +0000
Subject: [PATCH 09/49] fix: keep track of visited arguments when there are 64
 or more of them

---
 src/scn/impl.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 1506e8e..1acad0c 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1410,7 +1410,7 @@ struct format_handler_base {
     format_handler_base(size_t argcount) : args_count(argcount)
     {
         if (SCN_UNLIKELY(args_count >= 64)) {
-            visited_args_upper.resize((args_count - 64) / 8);
+            visited_args_upper.resize((args_count - 64 + 7) / 8);
         }
     }
 
@@ -1428,24 +1428,11 @@ struct format_handler_base {
             }
         }
 
-        if (args_count < 64) {
-            return;
-        }
-
-        auto last_args_count = args_count - 64;
-        for (auto it = visited_args_upper.begin();
-             it != visited_args_upper.end() - 1; ++it) {
-            if (*it != std::numeric_limits<uint8_t>::max()) {
+        for (std::size_t id = 64; id < args_count; ++id) {
+            if (!has_arg_been_visited(id)) {
                 return on_error({scan_error::invalid_format_string,
                                  "Argument list not exhausted"});
             }
-            last_args_count -= 8;
-        }
-
-        const auto mask = static_cast<uint8_t>(1u << last_args_count) - 1;
-        if (visited_args_upper.back() != mask) {
-            return on_error({scan_error::invalid_format_string,
-                             "Argument list not exhausted"});
         }
     }
 
-- 
2.43.0


From 24ccde9665159c9327f97d14321fff266c789d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:15 +0000
Subject: [PATCH 10/49] fix: don't replace the error of a failed scan with an
 unexhausted argument list

---
 include/scn/scan.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index e2f685d..785e7a9 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7810,7 +7810,10 @@ constexpr scan_expected<void> parse_format_string(
     Handler&& handler)
 {
     parse_format_string_impl<IsConstexpr>(format, handler);
-    handler.check_args_exhausted();
+    if (handler.get_error()) {
+        // Don't overwrite an earlier error
+        handler.check_args_exhausted();
+    }
     return handler.get_error();
 }
 
-- 
2.43.0


From 36661267216be98bf9597d21007086b6750c5b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:52 +0000
Subject: [PATCH 11/49] fix: accept the documented 'c' presentation type for
 char and wchar_t

---
 include/scn/scan.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 785e7a9..10ac46e 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7939,8 +7939,9 @@ template <typename Handler>
 constexpr void check_char_type_specs(const format_specs& specs,
                                      Handler&& handler)
 {
-    if (specs.type > presentation_type::int_hex ||
-        specs.type == presentation_type::int_arbitrary_base) {
+    if (specs.type != presentation_type::character &&
+        (specs.type > presentation_type::int_hex ||
+         specs.type == presentation_type::int_arbitrary_base)) {
         SCN_UNLIKELY_ATTR
         return handler.on_error("Invalid type specifier for character type");
     }
-- 
2.43.0


From 45fa3bbb4e3fe4a65e3cda9409b22f5b618be18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:52 +0000
Subject: [PATCH 12/49] fix: include the ASCII part of [character set] ranges
 extending past ASCII

---
 include/scn/scan.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 10ac46e..b365551 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7093,16 +7093,13 @@ public:
         const auto end_value = static_cast<unsigned>(end);
         SCN_EXPECT(begin_value < end_value);
 
-        if (SCN_LIKELY(end_value <= 127)) {
-            // No need to bit-twiddle with a mask, because with the
-            // SCN_ASSUME, -O3 will optimize this to a single operation
-            SCN_ASSUME(begin_value < end_value);
-            for (auto v = begin_value; v != end_value; ++v) {
-                m_specs.charset_literals[v / 8] |=
-                    static_cast<unsigned char>(1ul << (v % 8));
-            }
+        // end_value is exclusive
+        const auto ascii_end_value = end_value <= 128 ? end_value : 128u;
+        for (auto v = begin_value; v < ascii_end_value; ++v) {
+            m_specs.charset_literals[v / 8] |=
+                static_cast<unsigned char>(1ul << (v % 8));
         }
-        else {
+        if (SCN_UNLIKELY(end_value > 128)) {
             m_specs.charset_has_nonascii = true;
         }
     }
-- 
2.43.0


From 3bd0061fa8460d4c5ea26e78727356f4d9f31515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:52 +0000
Subject: [PATCH 13/49] fix: handle regex_matches when checking flags in format
 specs

---
 include/scn/scan.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index b365551..44a702b 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7864,6 +7864,8 @@ constexpr arg_type_category get_category_for_arg_type(arg_type type)
         case arg_type::narrow_string_type:
         case arg_type::wide_string_view_type:
         case arg_type::wide_string_type:
+        case arg_type::narrow_regex_matches_type:
+        case arg_type::wide_regex_matches_type:
             return arg_type_category::string;
 
         case arg_type::custom_type:
-- 
2.43.0


From 8e6b639c55ca435f5e82056300352acc5b79d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:52 +0000
Subject: [PATCH 14/49] fix: preserve the whole code unit of a fill character
 in a wide format string

---
 include/scn/scan.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 44a702b..24cbd60 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6944,6 +6944,7 @@ public:
             m_data[1] = static_cast<char>(front >> 8);
             m_data[2] = static_cast<char>(front >> 16);
             m_data[3] = static_cast<char>(front >> 24);
+            m_size = sizeof(CharT);
         }
     }
 
-- 
2.43.0


From 961f95a34745a461cf106f7aa9cbb0880b58b2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:28 +0000
Subject: [PATCH 15/49] fix: accept hexfloats starting with a letter digit when
 no prefix is given

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 1acad0c..9347399 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -854,7 +854,7 @@ scan_expected<std::ptrdiff_t> dispatch_impl(
                 "Invalid floating-point digit");
         }
     }
-    if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
+    else if (SCN_UNLIKELY(char_to_int(data.input.view().front()) >= 10)) {
         return detail::unexpected_scan_error(scan_error::invalid_scanned_value,
                                              "Invalid floating-point digit");
     }
-- 
2.43.0


From 1c92c7a7d12790710f61c4474c855465e8252fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:28 +0000
Subject: [PATCH 16/49] fix: read the same hexfloats from non-contiguous
 sources as from contiguous ones

---
 src/scn/impl.h | 32 +++++++++++++++-----------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index c9d691c..570dbf6 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3955,13 +3955,8 @@ private:
         auto it = range.begin();
 
         std::ptrdiff_t digits_count = 0;
-        if (auto r = read_hex_digits(ranges::subrange{it, range.end()}, true);
-            SCN_UNLIKELY(!r)) {
-            return r.transform_error(map_parse_error_to_scan_error(
-                scan_error::invalid_scanned_value,
-                "Invalid hexadecimal floating-point value"));
-        }
-        else {
+        if (auto r =
+                read_hex_digits(ranges::subrange{it, range.end()}, true)) {
             digits_count += ranges::distance(it, *r);
             it = *r;
         }
@@ -4074,17 +4069,17 @@ private:
         if (allowed_hex && !allowed_nonhex) {
             // only hex allowed:
             // prefix "0x" allowed, not required
-            auto it = range.begin();
-
             if (auto r = read_hex_prefix(range)) {
-                m_kind = float_kind::hex_with_prefix;
-                it = *r;
-            }
-            else {
-                m_kind = float_kind::hex_without_prefix;
+                if (auto r_hex =
+                        read_hex(ranges::subrange{*r, range.end()})) {
+                    m_kind = float_kind::hex_with_prefix;
+                    return *r_hex;
+                }
+                // "0x" not followed by a hexfloat: just a zero
             }
 
-            return read_hex(ranges::subrange{it, range.end()});
+            m_kind = float_kind::hex_without_prefix;
+            return read_hex(ranges::subrange{range.begin(), range.end()});
         }
         if (!allowed_hex && allowed_nonhex) {
             // only nonhex allowed:
@@ -4097,8 +4092,11 @@ private:
         // regular otherwise
 
         if (auto r = read_hex_prefix(range); SCN_UNLIKELY(r)) {
-            m_kind = float_kind::hex_with_prefix;
-            return read_hex(ranges::subrange{*r, range.end()});
+            if (auto r_hex = read_hex(ranges::subrange{*r, range.end()})) {
+                m_kind = float_kind::hex_with_prefix;
+                return *r_hex;
+            }
+            // "0x" not followed by a hexfloat: just a zero
         }
 
         m_kind = float_kind::generic;
-- 
2.43.0


From 86531820fffb6a496116f408fda4d49838195021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:28 +0000
Subject: [PATCH 17/49] fix: store the value of %y and %C when scanning
 datetime_components

---
 src/scn/impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 9347399..83d3158 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2412,6 +2412,7 @@ struct datetime_setter<datetime_components> {
         else {
             t.year = *t.year + c * 100;
         }
+        st.century_value = static_cast<unsigned char>(c);
         st.set_century(h);
     }
     template <typename Handler>
@@ -2426,6 +2427,7 @@ struct datetime_setter<datetime_components> {
         else {
             t.year = *t.year + y;
         }
+        st.short_year_value = static_cast<unsigned char>(y);
         st.set_short_year(h);
     }
     template <typename Handler>
-- 
2.43.0


From c0b01d5097e03b9bbe6eb3bb6e2f856a632d7a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:28 +0000
Subject: [PATCH 18/49] fix: accept all days of the year with %j for
 datetime_components

---
 src/scn/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 83d3158..d6d65dc 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2449,7 +2449,7 @@ struct datetime_setter<datetime_components> {
                          setter_state& st,
                          int d)
     {
-        if (SCN_UNLIKELY(d < 0 || d > 6)) {
+        if (SCN_UNLIKELY(d < 0 || d > 365)) {
             return h.set_error(
                 {scan_error::invalid_scanned_value, "Invalid value for yday"});
         }
-- 
2.43.0


From 01a2957fdde0cc6b6e84fd5c7666d5c57743e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:28 +0000
Subject: [PATCH 19/49] fix: map the ISO weekday read with %u to the right day

---
 src/scn/impl.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index d6d65dc..70beb7d 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2950,24 +2950,24 @@ public:
     }
     void on_dec1_weekday(numeric_system sys = numeric_system::standard)
     {
-        auto adjust_wday = [](int d) {
-            if (d == 0) {
-                return 6;
-            }
-            return d - 1;
-        };
-
 #if !SCN_DISABLE_LOCALE
         if (m_st.localized && sys != numeric_system::standard) {
-            if (auto t = read_localized("%Ow", L"%Ow")) {
-                setter::set_wday(*this, m_tm, m_st, adjust_wday(t->tm_wday));
+            if (auto t = read_localized("%Ou", L"%Ou")) {
+                setter::set_wday(*this, m_tm, m_st, t->tm_wday);
             }
             return;
         }
 #endif
 
+        // 1-7, Monday is 1, Sunday is 7
         int wday = read_classic_unsigned_integer(1, 1);
-        setter::set_wday(*this, m_tm, m_st, adjust_wday(wday));
+        if (wday == 0) {
+            wday = -1;
+        }
+        else if (wday == 7) {
+            wday = 0;
+        }
+        setter::set_wday(*this, m_tm, m_st, wday);
     }
 
     void on_24_hour(numeric_system sys = numeric_system::standard)
-- 
2.43.0


From 8a0e58018920ce25fb9e6946358925242405530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:28 +0000
Subject: [PATCH 20/49] fix: don't access the result of a failed scan of a time
 zone name

---
 src/scn/impl.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 70beb7d..17a68b0 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3158,11 +3158,9 @@ public:
                 }
             }());
         if (!res) {
-            set_error(res.error());
-        }
-        else {
-            setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
+            return set_error(res.error());
         }
+        setter::set_tz_name(*this, m_tm, m_st, std::move(res->value()));
         m_begin = res->begin();
     }
 
-- 
2.43.0


From 53e0c31ce92db9f183e5792941fc77c72b3566aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:28 +0000
Subject: [PATCH 21/49] fix: reject setting all of wday, mday and yday at once

---
 include/scn/chrono.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index cb25ac5..2470472 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -826,8 +826,7 @@ struct setter_state {
                 {scan_error::invalid_format_string,
                  "tzoff (%z) can't be used together with tzname (%Z)"});
         }
-        if ((wday_set || mday_set || yday_set) &&
-            !(wday_set ^ mday_set ^ yday_set)) {
+        if (wday_set + mday_set + yday_set > 1) {
             return handler.set_error(
                 {scan_error::invalid_format_string,
                  "Only up to one of wday (%a/%u/%w), mday "
-- 
2.43.0


From 38e8bf4a694e04115b62f0f0450aae0b0bb6bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:28 +0000
Subject: [PATCH 22/49] fix: make %c usable, it always conflicted with itself

---
 src/scn/impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 17a68b0..5c0d37d 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3189,6 +3189,8 @@ public:
         // %c == %a %b %d %H:%M:%S %Y
         constexpr CharT colon = ':';
         on_weekday_name();
+        // The weekday is redundant here, don't let it conflict with %d
+        m_st.wday_set = 0;
         on_whitespace();
         on_month_name();
         on_whitespace();
-- 
2.43.0


From db847f8be239e6ecdbb7a554a7ccd423effceca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:28 +0000
Subject: [PATCH 23/49] fix: don't skip the character after a non-ASCII literal
 in a chrono format string

---
 include/scn/chrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 2470472..42480d1 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -432,8 +432,8 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                     handler.on_text(begin, cp_start_p);
                     handler.on_whitespace();
                     begin = p;
-                    continue;
                 }
+                continue;
             }
             ++p;
             continue;
-- 
2.43.0


From d565c31c264141c9953158e55a032142335d2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:02 +0000
Subject: [PATCH 24/49] fix: check that a chrono format string sets the fields
 required by the scanned type

---
 include/scn/chrono.h | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index 42480d1..ba6c473 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -1231,6 +1231,7 @@ struct tm_format_checker {
         if (!always_supports_field<T, field_tags::mon>::value) {
             on_error("Months not supported with this type");
         }
+        st.set_mon(*this);
     }
     constexpr void on_dec_month(numeric_system = numeric_system::standard)
     {
@@ -1549,12 +1550,9 @@ struct scanner<datetime_components, CharT>
 
 namespace detail {
 
-template <typename CharT>
+template <typename CharT, typename T>
 struct chrono_component_scanner
     : protected chrono_datetime_scanner<CharT, datetime_components> {
-private:
-    using base = chrono_datetime_scanner<CharT, datetime_components>;
-
 public:
     template <typename ParseCtx>
     constexpr typename ParseCtx::iterator parse(ParseCtx& pctx)
@@ -1562,7 +1560,7 @@ public:
         if (pctx.begin() == pctx.end() || *pctx.begin() == CharT{'}'}) {
             pctx.on_error("Default format not supported for this type");
         }
-        return base::parse(pctx);
+        return detail::chrono_parse_impl<T, CharT>(pctx, this->m_fmt_str);
     }
 };
 
@@ -1570,13 +1568,13 @@ public:
 
 template <typename CharT>
 struct scanner<weekday, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, weekday> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(weekday& wd,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, weekday>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1587,12 +1585,12 @@ struct scanner<weekday, CharT>
 };
 
 template <typename CharT>
-struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT> {
+struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT, day> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(day& d, Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, day>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1603,12 +1601,12 @@ struct scanner<day, CharT> : public detail::chrono_component_scanner<CharT> {
 };
 
 template <typename CharT>
-struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT> {
+struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT, month> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(month& m, Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, month>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1619,12 +1617,12 @@ struct scanner<month, CharT> : public detail::chrono_component_scanner<CharT> {
 };
 
 template <typename CharT>
-struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT> {
+struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT, year> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(year& y, Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, year>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1636,13 +1634,13 @@ struct scanner<year, CharT> : public detail::chrono_component_scanner<CharT> {
 
 template <typename CharT>
 struct scanner<month_day, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, month_day> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(month_day& md,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, month_day>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1656,13 +1654,13 @@ struct scanner<month_day, CharT>
 
 template <typename CharT>
 struct scanner<year_month, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, year_month> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(year_month& ym,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, year_month>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1676,13 +1674,13 @@ struct scanner<year_month, CharT>
 
 template <typename CharT>
 struct scanner<year_month_day, CharT>
-    : public detail::chrono_component_scanner<CharT> {
+    : public detail::chrono_component_scanner<CharT, year_month_day> {
     template <typename Context>
     scan_expected<typename Context::iterator> scan(year_month_day& ymd,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, year_month_day>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
@@ -1698,7 +1696,7 @@ struct scanner<year_month_day, CharT>
 
 template <typename CharT, typename Duration>
 struct scanner<std::chrono::time_point<std::chrono::system_clock, Duration>,
-               CharT> : public detail::chrono_component_scanner<CharT> {
+               CharT> : public detail::chrono_component_scanner<CharT, datetime_components> {
     using time_point_type =
         std::chrono::time_point<std::chrono::system_clock, Duration>;
 
@@ -1707,7 +1705,7 @@ struct scanner<std::chrono::time_point<std::chrono::system_clock, Duration>,
                                                    Context& ctx) const
     {
         datetime_components dt{};
-        auto r = detail::chrono_component_scanner<CharT>::scan(dt, ctx);
+        auto r = detail::chrono_component_scanner<CharT, datetime_components>::scan(dt, ctx);
         if (!r) {
             return unexpected(r.error());
         }
-- 
2.43.0


From 18a4c4009fbc710c5cce86efdccdbbb90fe0bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:37 +0000
Subject: [PATCH 25/49] fix: don't modify the global C locale when scanning
 floating-point values with glibc

---
 src/scn/impl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 5c0d37d..436e6e9 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -89,6 +89,12 @@ SCN_GCC_POP
 #if !((__GLIBC__ > 2) || ((__GLIBC__ == 2) && (__GLIBC_MINOR__ > 25)))
 #include <xlocale.h>
 #define SCN_XLOCALE SCN_XLOCALE_POSIX
+#elif defined(_GNU_SOURCE)
+// No <xlocale.h> since 2.26, its contents are in the regular headers
+#include <locale.h>
+#include <stdlib.h>
+#include <wchar.h>
+#define SCN_XLOCALE SCN_XLOCALE_POSIX
 #endif  // __GLIBC__ <= 2.25
 
 #elif defined(__FreeBSD_version) && __FreeBSD_version >= 1000010
-- 
2.43.0


From c67ff2fb6e8bd22306568072c92a0a6c9f3534f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:25 +0000
Subject: [PATCH 26/49] fix: don't ignore the case bit of non-letters when
 matching case-insensitively

---
 src/scn/impl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 570dbf6..2c638d4 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -2337,11 +2337,15 @@ auto read_matching_string_classic(Range range, std::string_view str)
 // Ripped from fast_float
 constexpr bool fast_streq_nocase(const char* a, const char* b, size_t len)
 {
+    // b is expected to be in lower case
     unsigned char running_diff{0};
     for (size_t i = 0; i < len; ++i) {
-        running_diff |= static_cast<unsigned char>(a[i] ^ b[i]);
+        const auto is_letter = b[i] >= 'a' && b[i] <= 'z';
+        // Only letters have case to ignore
+        running_diff |= static_cast<unsigned char>(
+            (a[i] ^ b[i]) & (is_letter ? ~32 : ~0));
     }
-    return running_diff == 0 || running_diff == 32;
+    return running_diff == 0;
 }
 
 template <typename Range>
-- 
2.43.0


From 55db103d8c519e448676a450b9f7d737f414b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:25 +0000
Subject: [PATCH 27/49] fix: don't treat the '}' ending a replacement field as
 a fill character

---
 include/scn/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 24cbd60..f9f1e03 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7336,7 +7336,7 @@ constexpr const CharT* parse_align(const CharT* begin,
             handler.on_error("Invalid fill character '{' in format string");
             return begin;
         }
-        if (potential_fill[0] == '[') {
+        if (potential_fill[0] == '[' || potential_fill[0] == '}') {
             return begin_before_fill;
         }
     }
-- 
2.43.0


From 1eaa0b3a25f8f3405e375ae97c20c9f9b5bd51e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:45 +0000
Subject: [PATCH 28/49] fix: don't advance a FILE nothing has been read from
 when syncing

---
 src/scn/impl.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 2c638d4..4dfbb5e 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -1207,8 +1207,13 @@ bool basic_scan_file_buffer<FileInterface>::sync(std::ptrdiff_t position)
             return true;
         }
 
-        m_file.unsafe_advance_n(position - static_cast<std::ptrdiff_t>(
-                                               this->putback_buffer().size()));
+        const auto n = position - static_cast<std::ptrdiff_t>(
+                                      this->putback_buffer().size());
+        if (n != 0) {
+            // If nothing has been read from the file,
+            // it may not have a buffer yet
+            m_file.unsafe_advance_n(n);
+        }
         return true;
     }
 
-- 
2.43.0


From 0569c6d73f272450f590693abe2824c78e22f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:11 +0000
Subject: [PATCH 29/49] fix: detect 64-bit integer overflow past the smallest
 full-length value

A number with the maximum number of digits can wrap around to a value
above the smallest such number (36893488147419103220 for uint64_t), which
was then accepted.
---
 src/scn/impl.cpp | 85 ++++++++++++++----------------------------------
 1 file changed, 24 insertions(+), 61 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 436e6e9..83bae13 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1010,62 +1010,29 @@ SCN_FORCE_INLINE constexpr size_t maxdigits_u64(int base)
     return maxdigits_u64_table[static_cast<size_t>(base)];
 }
 
-constexpr uint64_t min_safe_u64_table[] = {0,
-                                           0,
-                                           9223372036854775808ull,
-                                           12157665459056928801ull,
-                                           4611686018427387904,
-                                           7450580596923828125,
-                                           4738381338321616896,
-                                           3909821048582988049,
-                                           9223372036854775808ull,
-                                           12157665459056928801ull,
-                                           10000000000000000000ull,
-                                           5559917313492231481,
-                                           2218611106740436992,
-                                           8650415919381337933,
-                                           2177953337809371136,
-                                           6568408355712890625,
-                                           1152921504606846976,
-                                           2862423051509815793,
-                                           6746640616477458432,
-                                           15181127029874798299ull,
-                                           1638400000000000000,
-                                           3243919932521508681,
-                                           6221821273427820544,
-                                           11592836324538749809ull,
-                                           876488338465357824,
-                                           1490116119384765625,
-                                           2481152873203736576,
-                                           4052555153018976267,
-                                           6502111422497947648,
-                                           10260628712958602189ull,
-                                           15943230000000000000ull,
-                                           787662783788549761,
-                                           1152921504606846976,
-                                           1667889514952984961,
-                                           2386420683693101056,
-                                           3379220508056640625,
-                                           4738381338321616896};
-
-SCN_FORCE_INLINE constexpr size_t min_safe_u64(int base)
-{
-    SCN_EXPECT(base >= 2 && base <= 36);
-    return min_safe_u64_table[static_cast<size_t>(base)];
-}
-
-template <typename T>
+// `digits` has no leading zeroes, `val` is its value modulo 2^64
+template <typename T, typename CharT>
 constexpr bool check_integer_overflow(uint64_t val,
-                                      size_t digits_count,
+                                      std::basic_string_view<CharT> digits,
                                       int base,
                                       bool is_negative)
 {
-    auto max_digits = maxdigits_u64(base);
-    if (digits_count > max_digits) {
+    const auto max_digits = maxdigits_u64(base);
+    if (digits.size() > max_digits) {
         return true;
     }
-    if (digits_count == max_digits && val < min_safe_u64(base)) {
-        return true;
+    if (digits.size() == max_digits) {
+        // Only the last digit can make the value wrap around
+        const auto u64base = static_cast<uint64_t>(base);
+        uint64_t prefix{};
+        for (size_t i = 0; i < max_digits - 1; ++i) {
+            prefix = prefix * u64base +
+                     static_cast<uint64_t>(char_to_int(digits[i]));
+        }
+        const auto last = static_cast<uint64_t>(char_to_int(digits.back()));
+        if (prefix > (std::numeric_limits<uint64_t>::max() - last) / u64base) {
+            return true;
+        }
     }
     if constexpr (!std::is_same_v<T, uint64_t>) {
         if (val > static_cast<uint64_t>(std::numeric_limits<T>::max()) +
@@ -1102,9 +1069,9 @@ auto parse_decimal_integer_fast(std::string_view input,
     auto ptr = parse_decimal_integer_fast_impl(
         input.data(), input.data() + input.size(), u64val);
 
-    auto digits_count = static_cast<size_t>(ptr - input.data());
+    auto digits = detail::make_string_view_from_pointers(input.data(), ptr);
     if (SCN_UNLIKELY(
-            check_integer_overflow<T>(u64val, digits_count, 10, is_negative))) {
+            check_integer_overflow<T>(u64val, digits, 10, is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
                         : scan_error::value_positive_overflow,
@@ -1135,9 +1102,9 @@ auto parse_regular_integer(std::basic_string_view<CharT> input,
         ++begin;
     }
 
-    auto digits_count = static_cast<size_t>(begin - input.data());
-    if (SCN_UNLIKELY(check_integer_overflow<T>(u64val, digits_count, base,
-                                               is_negative))) {
+    auto digits = detail::make_string_view_from_pointers(input.data(), begin);
+    if (SCN_UNLIKELY(
+            check_integer_overflow<T>(u64val, digits, base, is_negative))) {
         return detail::unexpected_scan_error(
             is_negative ? scan_error::value_negative_overflow
                         : scan_error::value_positive_overflow,
@@ -1235,12 +1202,8 @@ void parse_integer_value_exhaustive_valid(std::string_view source, T& value)
     }
     SCN_EXPECT(p == end);
 
-    {
-        auto digits_count = static_cast<size_t>(p - source.data());
-        SCN_UNUSED(digits_count);
-        SCN_EXPECT(check_integer_overflow<T>(u64val, digits_count, 10,
-                                             negative_sign) == false);
-    }
+    SCN_EXPECT(check_integer_overflow<T>(u64val, source, 10, negative_sign) ==
+               false);
 
     value = store_result<T>(u64val, negative_sign);
 }
-- 
2.43.0


From 73bff4d8a3ed41ee465791c1a5a82e36260ca5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:37 +0000
Subject: [PATCH 30/49] fix: reject mixing of automatic and manual argument ids
 at run time

The error was recorded in the parse context only, where nobody looked.
---
 src/scn/impl.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 83bae13..1838a21 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -1607,16 +1607,27 @@ struct format_handler : format_handler_base {
         }
     }
 
-    constexpr std::size_t on_arg_id()
+    std::size_t on_arg_id()
     {
-        return parse_ctx.next_arg_id();
+        const auto id = parse_ctx.next_arg_id();
+        check_arg_id_error();
+        return id;
     }
-    constexpr std::size_t on_arg_id(std::size_t id)
+    std::size_t on_arg_id(std::size_t id)
     {
         parse_ctx.check_arg_id(id);
+        check_arg_id_error();
         return id;
     }
 
+    void check_arg_id_error()
+    {
+        if (auto err = parse_ctx.get_error();
+            SCN_UNLIKELY(!err && get_error())) {
+            on_error(err.error());
+        }
+    }
+
     template <typename Visitor>
     void on_visit_scan_arg(Visitor&& visitor, arg_type arg)
     {
-- 
2.43.0


From 44dd6ae8c608dd5ad41d1377845361c4fec122b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:38 +0000
Subject: [PATCH 31/49] fix: nested scans from a buffer see every character
 exactly once

basic_scan_ref_buffer decided whether to fill from the underlying buffer by
comparing the ends of two of its segments. If the underlying buffer had
already put characters back, and the nested scan started after those, the
first fill duplicated the rest of the current view instead of reading more;
the later ones could throw std::out_of_range or drop characters.
---
 include/scn/scan.h | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index f9f1e03..d8bc015 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -5144,8 +5144,6 @@ public:
           m_starting_pos(starting_pos)
     {
         this->m_current_view = other.get_segment_starting_at(starting_pos);
-        m_fill_needs_to_propagate = other.get_segment_starting_at(0).end() ==
-                                    this->m_current_view.end();
     }
 
     basic_scan_ref_buffer(std::basic_string_view<CharT> view)
@@ -5160,24 +5158,31 @@ public:
         }
         SCN_EXPECT(m_starting_pos >= 0);
 
-        if (m_fill_needs_to_propagate) {
-            auto ret = m_other->fill();
-            this->m_current_view = m_other->current_view();
-            this->m_putback_buffer =
-                m_other->putback_buffer().substr(m_starting_pos);
-            return ret;
+        const auto old_available = this->chars_available();
+        if (m_starting_pos + old_available == m_other->chars_available()) {
+            // Everything read by m_other is already visible through *this
+            m_other->fill();
         }
 
-        m_fill_needs_to_propagate = true;
-        this->m_putback_buffer = std::basic_string<CharT>{this->m_current_view};
-        this->m_current_view = m_other->current_view();
-        return true;
+        // Cover everything in m_other, starting from m_starting_pos
+        const auto& other_putback = m_other->putback_buffer();
+        const auto starting_pos = static_cast<std::size_t>(m_starting_pos);
+        if (starting_pos <= other_putback.size()) {
+            this->m_putback_buffer.append(
+                other_putback, starting_pos + this->m_putback_buffer.size(),
+                std::basic_string<CharT>::npos);
+            this->m_current_view = m_other->current_view();
+        }
+        else {
+            this->m_current_view =
+                m_other->get_segment_starting_at(m_starting_pos);
+        }
+        return this->chars_available() > old_available;
     }
 
 private:
     base* m_other;
     std::ptrdiff_t m_starting_pos{-1};
-    bool m_fill_needs_to_propagate{false};
 };
 
 template <typename CharT>
-- 
2.43.0


From 2e163f56348ff89dc1e66d256ab1c1d1c39790ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:55 +0000
Subject: [PATCH 32/49] fix: report format specifier errors found by the
 scanners of built-in types

scanner<T>::parse collected the errors in a local handler and dropped them,
so a custom scanner based on one (or a range of such elements) accepted
specifiers which are rejected for the type itself.
---
 include/scn/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index d8bc015..c9e4b5b 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -9155,6 +9155,10 @@ constexpr typename ParseCtx::iterator scanner_parse_for_builtin_type(
         }
     }
 
+    if (auto e = checker.get_error(); SCN_UNLIKELY(!e)) {
+        pctx.on_error(e.error().msg());
+    }
+
     return it;
 }
 }  // namespace detail
-- 
2.43.0


From 72f63963ba619539d61296f29754c6eed41bd802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:55 +0000
Subject: [PATCH 33/49] fix: a mismatched literal before a custom argument is
 reported as such

Parsing went on to the replacement field after the literal had failed.
The field was then not visited, the parse context not advanced, and the
error replaced with an invalid_format_string one.
---
 include/scn/scan.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index c9e4b5b..5d3c2fe 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -7787,6 +7787,9 @@ constexpr void parse_format_string_impl(std::basic_string_view<CharT> format,
         const auto ch = *it++;
         if (ch == CharT{'{'}) {
             handler.on_literal_text(begin, it - 1);
+            if (!handler.get_error()) {
+                return;
+            }
 
             begin = it = parse_replacement_field(it - 1, end, handler);
             if (!handler.get_error()) {
-- 
2.43.0


From bc6d0800400abab51564656a7d8c9b2cba2db116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:40 +0000
Subject: [PATCH 34/49] fix: match names of months, days and am/pm
 case-insensitively for letters only

---
 src/scn/impl.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 1838a21..8b81855 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3415,10 +3415,15 @@ private:
             const auto ch = *m_begin;
             ++m_begin;
             while (i < options_available) {
-                const auto cmp = static_cast<unsigned>(
-                    ch ^ options[i].first[chars_consumed]);
+                const auto opt_ch = options[i].first.size() > chars_consumed
+                                        ? options[i].first[chars_consumed]
+                                        : '\0';
+                const auto cmp = static_cast<unsigned>(ch ^ opt_ch);
+                // Only letters have another case, that differs by 32
+                const bool is_letter = (opt_ch >= 'a' && opt_ch <= 'z') ||
+                                       (opt_ch >= 'A' && opt_ch <= 'Z');
                 if (options[i].first.size() <= chars_consumed ||
-                    (cmp != 0 && cmp != 32)) {
+                    (cmp != 0 && !(cmp == 32 && is_letter))) {
                     std::rotate(options.begin() + i, options.begin() + i + 1,
                                 options.end());
                     --options_available;
-- 
2.43.0


From 4704cd06fdf5ba55d80e0f1f39cb01690e9c22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:40 +0000
Subject: [PATCH 35/49] fix: keep fractions of a second below one

---
 src/scn/impl.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index 8b81855..f6da454 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3055,7 +3055,9 @@ public:
             return set_error(dbl_res.error());
         }
 
-        setter::set_subsec(*this, m_tm, m_st, dbl_res->value());
+        // A long run of nines could've been rounded up to 1.0
+        setter::set_subsec(*this, m_tm, m_st,
+                           std::min(dbl_res->value(), std::nextafter(1.0, 0.0)));
 
 #else  // !SCN_DISABLE_TYPE_STRING && !SCN_DISABLE_TYPE_DOUBLE
         SCN_UNUSED(sys);
-- 
2.43.0


From 689e460e55e3cdcc71dc9af769c861739e2c7001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:40 +0000
Subject: [PATCH 36/49] fix: take non-ASCII whitespace in wide chrono formats
 as whitespace

---
 include/scn/chrono.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/scn/chrono.h b/include/scn/chrono.h
index ba6c473..4c78ac0 100644
--- a/include/scn/chrono.h
+++ b/include/scn/chrono.h
@@ -414,8 +414,8 @@ constexpr const CharT* parse_chrono_format_specs(const CharT* begin,
                 handler.on_error("Invalid literal character");
                 return p;
             }
-            if (cp_len > 1) {
-                // Multi code unit code point,
+            if (cp_len > 1 || sizeof(CharT) > 1) {
+                // Non-ASCII code point,
                 // possible space
                 auto cp_start_p = p;
                 CharT buffer[4] = {};
-- 
2.43.0


From 0fbed9f8fd75d7bb16f13ddc9fc9673b856df304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:45 +0000
Subject: [PATCH 37/49] fix: read localized dates and times from the current
 position

---
 src/scn/impl.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index f6da454..b11a5c6 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -2785,7 +2785,7 @@ public:
 
     void on_month_name()
     {
-#if !SCN_DISABLE_FAST_FLOAT
+#if !SCN_DISABLE_LOCALE
         if (m_st.localized) {
             if (auto t = read_localized("%b", L"%b")) {
                 setter::set_mon(*this, m_tm, m_st, t->tm_mon + 1);
@@ -3497,12 +3497,12 @@ private:
             if constexpr (std::is_same_v<
                               iterator,
                               remove_cvref_t<decltype(m_range.end())>>) {
-                return std::pair{m_range.begin(), m_range.end()};
+                return std::pair{m_begin, m_range.end()};
             }
             else {
                 using common_iterator_type =
                     typename basic_scan_buffer<CharT>::common_forward_iterator;
-                return std::pair{common_iterator_type{m_range.begin()},
+                return std::pair{common_iterator_type{m_begin},
                                  common_iterator_type{m_range.end()}};
             }
         }();
-- 
2.43.0


From 0e0416a4fb7c0f7812a2bf28edc49833ed77dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:58 +0000
Subject: [PATCH 38/49] fix: give the time facet an iterator that can reach the
 end of a non-contiguous source

---
 src/scn/impl.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index b11a5c6..dd68a0f 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -3444,7 +3444,12 @@ private:
 
 #if !SCN_DISABLE_LOCALE
     struct localized_read_state {
-        using time_facet_type = std::time_get<CharT, iterator>;
+        // The facet needs an iterator that is its own sentinel
+        using time_iterator = std::conditional_t<
+            std::is_same_v<iterator, ranges::sentinel_t<Range>>,
+            iterator,
+            typename basic_scan_buffer<CharT>::common_forward_iterator>;
+        using time_facet_type = std::time_get<CharT, time_iterator>;
         using numpunct_facet_type = std::numpunct<CharT>;
 
         std::locale locale;
@@ -3493,19 +3498,9 @@ private:
         const auto& facet = *get_localized_read_state().time_facet;
         std::ios_base::iostate err{std::ios_base::goodbit};
         std::tm tm{};
-        auto [begin, end] = [&]() {
-            if constexpr (std::is_same_v<
-                              iterator,
-                              remove_cvref_t<decltype(m_range.end())>>) {
-                return std::pair{m_begin, m_range.end()};
-            }
-            else {
-                using common_iterator_type =
-                    typename basic_scan_buffer<CharT>::common_forward_iterator;
-                return std::pair{common_iterator_type{m_begin},
-                                 common_iterator_type{m_range.end()}};
-            }
-        }();
+        using time_iterator = typename localized_read_state::time_iterator;
+        auto begin = time_iterator{m_begin};
+        auto end = time_iterator{m_range.end()};
         auto iter = facet.get(begin, end, m_loc_state->dummy_stream, err, &tm,
                               fmt.data(), fmt.data() + fmt.size());
         if ((err & std::ios_base::failbit) != 0) {
-- 
2.43.0


From 202293997944fe5a688d48ae48f0669d98b4691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:14 +0000
Subject: [PATCH 39/49] fix: give the name of a Boost regex capture to its own
 group only

A group was given the name of any named group with the same text, and the
whole match the name of a group that spans it (or, without captures, of any).
---
 src/scn/impl.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 4dfbb5e..498eb75 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4634,10 +4634,17 @@ auto read_regex_matches_impl(std::basic_string_view<CharT> pattern,
                 return std::nullopt;
             auto sv = detail::make_string_view_from_pointers(match.first,
                                                              match.second);
+            if (&match == &matches[0]) {
+                // The whole match is not a group, and has no name
+                return sv;
+            }
 
             if (auto name_it = std::find_if(
                     names.begin(), names.end(),
-                    [&](const auto& name) { return match == matches[name]; });
+                    [&](const auto& name) {
+                        // The group itself, not one that has the same text
+                        return &match == &matches[name];
+                    });
                 name_it != names.end()) {
                 return basic_regex_match<CharT>{sv, *name_it};
             }
-- 
2.43.0


From 86969cec596c7783941a3a43473efc507fad13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 40/49] fix: pass the locale on to custom scanners

scan(locale, source, "{}", ...) and the scanner for a builtin type, when used
by another scanner, both used the global locale instead.
---
 src/scn/impl.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/scn/impl.cpp b/src/scn/impl.cpp
index dd68a0f..0494adc 100644
--- a/src/scn/impl.cpp
+++ b/src/scn/impl.cpp
@@ -240,7 +240,8 @@ scan_expected<typename Context::iterator>
 scanner_scan_for_builtin_type(T& val, Context& ctx, const format_specs& specs)
 {
     if constexpr (!detail::is_type_disabled<T>) {
-        return impl::arg_reader<Context>{ctx.range(), specs, {}}(val);
+        return impl::arg_reader<Context>{ctx.range(), specs,
+                                         ctx.locale()}(val);
     }
     else {
         SCN_EXPECT(false);
@@ -1733,7 +1734,7 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(source, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(source, SCN_MOVE(args), arg, loc);
     }
 
     auto handler = format_handler<true, CharT>{
@@ -1753,7 +1754,7 @@ scan_expected<std::ptrdiff_t> vscan_internal(
     const auto argcount = args.size();
     if (is_simple_single_argument_format_string(format) && argcount == 1) {
         auto arg = args.get(0);
-        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg);
+        return scan_simple_single_argument(buffer, SCN_MOVE(args), arg, loc);
     }
 
     if (buffer.is_contiguous()) {
-- 
2.43.0


From d60afe463adc691b51d084bff86196da386b6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 41/49] fix: don't take a null character for a thousands
 separator

A locale without grouping has no separator, which is stored as a zero.
---
 src/scn/impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 498eb75..75d8915 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -3472,7 +3472,8 @@ auto parse_integer_digits_with_thsep(
     auto it = range.begin();
     bool digit_matched = false;
     for (; it != range.end(); ++it) {
-        if (*it == locale_options.thousands_sep) {
+        if (locale_options.thousands_sep != CharT{0} &&
+            *it == locale_options.thousands_sep) {
             thsep_indices.push_back(
                 static_cast<char>(ranges::distance(range.begin(), it)));
         }
-- 
2.43.0


From 40a5b09cc089d26ac9fcc7f76a78411185a9a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 42/49] fix: keep the decimal point of a locale that groups
 digits with '.'

The decimal separator was replaced with '.', and then erased with the
thousands separators.
---
 src/scn/impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 75d8915..713d21e 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -4121,6 +4121,9 @@ private:
         }
 
         auto& str = this->m_buffer.make_into_allocated_string();
+        erase_thsep(str);
+
+        // Only after that: '.' may be the thousands separator
         if (m_locale_options.decimal_point != CharT{'.'}) {
             for (auto& ch : str) {
                 if (ch == m_locale_options.decimal_point) {
@@ -4128,7 +4131,10 @@ private:
                 }
             }
         }
+    }
 
+    void erase_thsep(std::basic_string<CharT>& str)
+    {
         if (m_locale_options.thousands_sep == 0) {
             return;
         }
-- 
2.43.0


From 3a10ee94d1417eb659098cf647e018fb31f538b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 43/49] fix: try the longer of the localized boolean names
 first

A name that begins with the other one could never be read.
---
 src/scn/impl.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/scn/impl.h b/src/scn/impl.h
index 713d21e..b24db11 100644
--- a/src/scn/impl.h
+++ b/src/scn/impl.h
@@ -5549,14 +5549,15 @@ protected:
         const auto longer = std::pair{
             !is_truename_shorter ? truename : falsename, !is_truename_shorter};
 
-        if (auto r = read_matching_string(range, shorter.first)) {
-            value = shorter.second;
-            return *r;
-        }
+        // The shorter name may be a prefix of the longer one
         if (auto r = read_matching_string(range, longer.first)) {
             value = longer.second;
             return *r;
         }
+        if (auto r = read_matching_string(range, shorter.first)) {
+            value = shorter.second;
+            return *r;
+        }
 
         return detail::unexpected_scan_error(
             scan_error::invalid_scanned_value,
-- 
2.43.0


From df29e5029e3c7c359237ca0a0e699ac92b90a8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:26 +0000
Subject: [PATCH 44/49] fix: let GCC check format strings in C++20

The constructor of compile_parse_context was consteval, but is called by a
constexpr constructor with its arguments: before P2564 that isn't a constant
expression, and no scan with a format string compiled.
---
 include/scn/scan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 5d3c2fe..a031ec3 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -6764,7 +6764,7 @@ class compile_parse_context : public basic_scan_parse_context<CharT> {
 
 public:
     template <typename Source>
-    explicit SCN_CONSTEVAL compile_parse_context(
+    explicit constexpr compile_parse_context(
         source_tag_type<Source>,
         std::basic_string_view<CharT> format_str,
         int num_args,
-- 
2.43.0


From c28fbd7cd92791067383d51dc78c1fe3395917d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:34 +0000
Subject: [PATCH 45/49] fix: don't take regex_matches for a range

With both regex.h and ranges.h included, its scanner was ambiguous, and no
format string with a regex_matches could be checked at compile time.
---
 include/scn/ranges.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index f592adc..25dba54 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -142,7 +142,9 @@ template <typename T, typename CharT>
 struct is_range
     : std::integral_constant<
           bool,
-          ranges::range<T> && !detail::is_std_string_like<T>::value &&
+          ranges::range<T> &&
+              arg_type_constant<T, CharT>::value == arg_type::custom_type &&
+              !detail::is_std_string_like<T>::value &&
               !std::is_convertible_v<T, std::basic_string<CharT>> &&
               !std::is_convertible_v<T, std::basic_string_view<CharT>>> {};
 
-- 
2.43.0


From 906a3d43fb71af0f9314e60d7fcb28683b69ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:34 +0000
Subject: [PATCH 46/49] fix: reject integer presentations of a code point at
 compile time

Like at run time, where scan() rejects them.
---
 include/scn/scan.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index a031ec3..4fc370a 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -9108,10 +9108,13 @@ constexpr typename ParseCtx::iterator scanner_parse_for_builtin_type(
 
         case arg_type::narrow_character_type:
         case arg_type::wide_character_type:
-        case arg_type::code_point_type:
             check_char_type_specs(specs, checker);
             break;
 
+        case arg_type::code_point_type:
+            check_code_point_type_specs(specs, checker);
+            break;
+
         case arg_type::float_type:
         case arg_type::double_type:
         case arg_type::ldouble_type:
-- 
2.43.0


From 9bb54f7878b300bd382f3b38e2c0855881c8567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:55 +0000
Subject: [PATCH 47/49] fix: don't read past the end of input in
 multi-character brackets and separators of ranges

---
 include/scn/ranges.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index 25dba54..357ba05 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -155,6 +155,10 @@ scan_expected<ranges::iterator_t<Source>> scan_str(
 {
     SCN_TRY(it, internal_skip_classic_whitespace(source, false));
     for (auto ch_to_read : str_to_read) {
+        if (SCN_UNLIKELY(it == ranges::end(source))) {
+            return unexpected_scan_error(scan_error::end_of_input,
+                                         "Unexpected end of range");
+        }
         if (SCN_UNLIKELY(ch_to_read != *it)) {
             return unexpected_scan_error(scan_error::invalid_scanned_value,
                                          "Invalid range character");
-- 
2.43.0


From 41ce63e9359bb41e829fa6ae6813eca0da833f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:01 +0000
Subject: [PATCH 48/49] fix: don't scan more elements into a range than its
 max_size()

---
 include/scn/ranges.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/scn/ranges.h b/include/scn/ranges.h
index 357ba05..52d7220 100644
--- a/include/scn/ranges.h
+++ b/include/scn/ranges.h
@@ -216,17 +216,24 @@ void add_element_to_range(Range& r, Element&& elem)
 template <typename Range, typename Enable = void>
 struct has_max_size : std::false_type {};
 template <typename Range>
-struct has_max_size<Range, decltype(SCN_DECLVAL(const Range&).max_size())>
+struct has_max_size<
+    Range,
+    std::void_t<decltype(SCN_DECLVAL(const Range&).max_size())>>
     : std::true_type {};
 
 template <typename Range, typename DiffT = ranges::range_difference_t<Range>>
 DiffT range_max_size(const Range& r)
 {
+    constexpr auto limit = std::numeric_limits<DiffT>::max();
     if constexpr (has_max_size<Range>::value) {
-        return static_cast<DiffT>(r.max_size());
+        const auto size = static_cast<std::size_t>(r.max_size());
+        return size < static_cast<std::size_t>(limit)
+                   ? static_cast<DiffT>(size)
+                   : limit;
     }
     else {
-        return std::numeric_limits<DiffT>::max();
+        SCN_UNUSED(r);
+        return limit;
     }
 }
 
-- 
2.43.0


From 211bcf28936cd45bd3ad1c4269c4531e473aad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:58 +0000
Subject: [PATCH 49/49] fix: keep the lock of a file while putting characters
 back to it

---
 include/scn/scan.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/scn/scan.h b/include/scn/scan.h
index 4fc370a..75b8dae 100644
--- a/include/scn/scan.h
+++ b/include/scn/scan.h
@@ -4963,14 +4963,11 @@ struct posix_stdio_file_interface : stdio_file_interface_base<File> {
         return static_cast<char>(res);
     }
 
-    void prepare_putback()
-    {
-        unlock();
-    }
-    void finalize_putback()
-    {
-        lock();
-    }
+    // The lock is recursive, so it can be (and has to be) held during putback:
+    // otherwise, other threads could read the file before
+    // everything is put back
+    void prepare_putback() {}
+    void finalize_putback() {}
 
     bool putback(char ch)
     {
-- 
2.43.0

