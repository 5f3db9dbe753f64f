From fca80a1bab70177764a7cf52c64dd2c82d514a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 01/15] fix: do not read past the end of a truncated UTF-8
 sequence

detect_next_encoding() compared the whole string length with the sequence
length, so a multi-byte lead byte near the end of a longer string read beyond
the view and could accept a truncated sequence.
---
 src/jogasaki/executor/function/builtin_scalar_functions.cpp | 6 +++---
 src/jogasaki/utils/utf8_utils.cpp                           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jogasaki/executor/function/builtin_scalar_functions.cpp b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
index 88ceaff..7eda14a 100644
--- a/src/jogasaki/executor/function/builtin_scalar_functions.cpp
+++ b/src/jogasaki/executor/function/builtin_scalar_functions.cpp
@@ -989,19 +989,19 @@ static encoding_type detect_next_encoding(std::string_view view, const size_t of
     auto first            = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (view.size() >= 2 && is_continuation_byte(view[offset_2nd]))
+        return (offset_2nd < view.size() && is_continuation_byte(view[offset_2nd]))
                    ? encoding_type::UTF8_2BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (view.size() >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_3rd < view.size() && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (view.size() >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_4th < view.size() && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
diff --git a/src/jogasaki/utils/utf8_utils.cpp b/src/jogasaki/utils/utf8_utils.cpp
index 0e77961..feea7f4 100644
--- a/src/jogasaki/utils/utf8_utils.cpp
+++ b/src/jogasaki/utils/utf8_utils.cpp
@@ -25,18 +25,18 @@ encoding_type detect_next_encoding(std::string_view view, const size_t offset) {
     const auto first      = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (size >= 2 && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
+        return (offset_2nd < size && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
                                                                      : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (size >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_3rd < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (size >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_4th < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From db190760d7e9eaaa8191ac925bec92766d3afaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 02/15] fix: refuse in-page allocation whose size wraps around
 the page offset

---
 src/jogasaki/memory/details/page_allocation_info.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/memory/details/page_allocation_info.cpp b/src/jogasaki/memory/details/page_allocation_info.cpp
index f51a0eb..b8db27e 100644
--- a/src/jogasaki/memory/details/page_allocation_info.cpp
+++ b/src/jogasaki/memory/details/page_allocation_info.cpp
@@ -36,11 +36,12 @@ void *page_allocation_info::try_allocate_back(std::size_t bytes, std::size_t ali
     auto ua_next = head + upper_bound_offset_;
     auto next = (ua_next + (alignment - 1)) / alignment * alignment;
     auto next_lower_offset = next - head; // inclusive
-    auto next_upper_offset = next_lower_offset + bytes; // exclusive
 
-    if (next_upper_offset > page_size) {
+    // NOTE: compare without computing the end first, which may wrap around if the size is too large
+    if (next_lower_offset > page_size || bytes > page_size - next_lower_offset) {
         return nullptr;
     }
+    auto next_upper_offset = next_lower_offset + bytes; // exclusive
     // keep track the first alignment padding
     if (lower_bound_offset_ == upper_bound_offset_ && next_lower_offset > lower_bound_offset_) {
         lower_bound_offset_ = next_lower_offset;
-- 
2.43.0


From 93e43ee1f9824cf20a78895cc40c2fca64ddb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 03/15] fix: round_down_to_power_of_two returned zero for
 values above 2^63

---
 src/jogasaki/utils/round.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/utils/round.h b/src/jogasaki/utils/round.h
index 4be5f24..2420791 100644
--- a/src/jogasaki/utils/round.h
+++ b/src/jogasaki/utils/round.h
@@ -38,7 +38,8 @@ namespace jogasaki::utils {
         v |= v >> i;
     }
 
-    return static_cast<std::size_t>(v + 1) >> 1U;
+    // NOTE: v + 1 would wrap around to zero for values above 2^63
+    return static_cast<std::size_t>(v >> 1U) + 1U;
 }
 
 [[nodiscard]] constexpr std::size_t round_up_to_power_of_two(std::size_t v) noexcept {
-- 
2.43.0


From 7cded867daf6bd98ca7cb10653d21bccb69b53a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 04/15] fix: subtract_vectors underflowed when an element is
 subtracted more often than it occurs

---
 src/jogasaki/utils/subtract_vectors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/utils/subtract_vectors.h b/src/jogasaki/utils/subtract_vectors.h
index 8e68eac..7cc2e45 100644
--- a/src/jogasaki/utils/subtract_vectors.h
+++ b/src/jogasaki/utils/subtract_vectors.h
@@ -28,8 +28,8 @@ std::vector<T> subtract_vectors(std::vector<T> const& x, std::vector<T> const& y
         ++m[e];
     }
     for(auto&& e : y) {
-        if(m.count(e) > 0) {
-            --m[e];
+        if(auto it = m.find(e); it != m.end() && it->second > 0) {
+            --it->second;
         }
     }
     std::vector<T> ret{};
-- 
2.43.0


From 3895a5a6ae0f8d4d67c724327361c0f7cace9b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 05/15] fix: decoding a text from an exhausted buffer reported
 success and moved past its end

---
 src/jogasaki/kvs/readable_stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/kvs/readable_stream.h b/src/jogasaki/kvs/readable_stream.h
index 0be2937..14c7f97 100644
--- a/src/jogasaki/kvs/readable_stream.h
+++ b/src/jogasaki/kvs/readable_stream.h
@@ -154,7 +154,10 @@ public:
             }
             ++pos;
         }
-        return pos - pos_;
+        // no room even for the terminator
+        throw_exception(std::domain_error{
+            string_builder{} << base_filename() << " no text terminator found with pos_:" << pos_ << " capacity_:" << capacity_ << string_builder::to_string
+        });
     }
 
     /**
-- 
2.43.0


From 2617aea6e41fe197844e0dfecf5b47f768991ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:57 +0000
Subject: [PATCH 06/15] fix: encoding a decimal failed when an earlier
 operation left a decimal status flag

---
 src/jogasaki/kvs/writable_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/kvs/writable_stream.cpp b/src/jogasaki/kvs/writable_stream.cpp
index d46b097..153f709 100644
--- a/src/jogasaki/kvs/writable_stream.cpp
+++ b/src/jogasaki/kvs/writable_stream.cpp
@@ -173,6 +173,7 @@ status writable_stream::do_write(runtime_t<meta::field_type_kind::decimal> data,
     }
     std::size_t precision = option.precision_.value();
     std::size_t scale = option.scale_.value();
+    decimal::context.clear_status(); // flags left by preceding operations of this thread
     decimal::Decimal x{data};
     if((decimal::context.status() & MPD_IEEE_Invalid_operation) != 0) {
         decimal_error_logging("value creation", data, precision, scale, -1);
-- 
2.43.0


From 6a2b7444189e6ee05dcf15c7ec68cd760a61b154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 07/15] fix: check the room for all the three words of a lob
 entry

write_blob() and write_clob() write a header and three 64-bit words, but required room for only two of them. With 17 to 24 bytes left they ran into the internal size check and threw an exception, instead of returning false so that the caller can switch to another buffer.
---
 src/jogasaki/serializer/value_output.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/serializer/value_output.cpp b/src/jogasaki/serializer/value_output.cpp
index b70c2c1..b1cf071 100644
--- a/src/jogasaki/serializer/value_output.cpp
+++ b/src/jogasaki/serializer/value_output.cpp
@@ -526,6 +526,7 @@ bool write_blob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
@@ -544,6 +545,7 @@ bool write_clob(
         buffer_view::iterator& position,
         buffer_view::const_iterator end) {
     if (buffer_remaining(position, end) < 1
+            + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)
             + sizeof(std::uint64_t)) {
         return false;
-- 
2.43.0


From c0ab9ceeb36d947d19506083fb6a10975b998388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 08/15] fix: avoid signed overflow on serializing decimal whose
 coefficient is -2^63

has_small_coefficient() accepts -2^63, whose magnitude is not representable in int64_t, so negating it after the conversion was undefined.
---
 src/jogasaki/serializer/value_output.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/serializer/value_output.cpp b/src/jogasaki/serializer/value_output.cpp
index b1cf071..f75ffbc 100644
--- a/src/jogasaki/serializer/value_output.cpp
+++ b/src/jogasaki/serializer/value_output.cpp
@@ -216,10 +216,12 @@ bool write_decimal(
         buffer_view::const_iterator end) {
     // small coefficient
     if (has_small_coefficient(value)) {
-        auto coefficient = static_cast<std::int64_t>(value.coefficient_low());
+        auto coefficient_low = value.coefficient_low();
         if (value.sign() < 0) {
-            coefficient = -coefficient;
+            // negate as unsigned because the coefficient can be -2^63
+            coefficient_low = ~coefficient_low + 1;
         }
+        auto coefficient = static_cast<std::int64_t>(coefficient_low);
 
         // just write as int if exponent is just 0
         if (value.exponent() == 0) {
-- 
2.43.0


From efd23dcf909274599242021fee222729e6f48a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 09/15] fix: accept short negative coefficients on
 deserializing decimal

The data format allows a decimal entry to carry a coefficient of any length of at least one byte. read_decimal() read the positive ones shorter than 8 bytes, but failed with an internal error on the negative ones.
---
 src/jogasaki/serializer/value_input.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/serializer/value_input.cpp b/src/jogasaki/serializer/value_input.cpp
index 304a995..ca24a30 100644
--- a/src/jogasaki/serializer/value_input.cpp
+++ b/src/jogasaki/serializer/value_input.cpp
@@ -323,9 +323,11 @@ takatori::decimal::triple read_decimal(buffer_view::const_iterator& position, bu
 
     if (negative) {
         // sign extension
-        if (coefficient.size() < sizeof(std::uint64_t) * 2) {
-            assert_with_exception(coefficient.size() >= sizeof(std::uint64_t), coefficient.size());
-            auto mask = std::numeric_limits<std::uint64_t>::max(); // 0xfff.....
+        auto mask = std::numeric_limits<std::uint64_t>::max(); // 0xfff.....
+        if (coefficient.size() < sizeof(std::uint64_t)) {
+            c_lo |= mask << (coefficient.size() * 8U);
+            c_hi = mask;
+        } else if (coefficient.size() < sizeof(std::uint64_t) * 2) {
             std::size_t rest = (coefficient.size() - sizeof(std::uint64_t)) * 8U;
             c_hi |= mask << rest;
         }
-- 
2.43.0


From 85d0ec8a4d3dcd856e32ea06f280a74e37a8c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:43 +0000
Subject: [PATCH 10/15] fix: hash NaNs regardless of their representation

---
 src/jogasaki/executor/hash.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jogasaki/executor/hash.h b/src/jogasaki/executor/hash.h
index 55631de..6a4ba27 100644
--- a/src/jogasaki/executor/hash.h
+++ b/src/jogasaki/executor/hash.h
@@ -15,8 +15,11 @@
  */
 #pragma once
 
+#include <cmath>
 #include <cstddef>
 #include <functional>
+#include <limits>
+#include <type_traits>
 
 #include <jogasaki/meta/record_meta.h>
 #include <jogasaki/accessor/const_record_ref.h>
@@ -76,6 +79,12 @@ private:
         hash_value operator()(accessor::const_record_ref a, std::size_t offset) {
             using rtype = runtime_t<K>;
             auto l = a.get_value<rtype>(offset);
+            if constexpr (std::is_floating_point_v<rtype>) {
+                if(std::isnan(l)) {
+                    // NaNs are equivalent regardless of their representation
+                    l = std::numeric_limits<rtype>::quiet_NaN();
+                }
+            }
             return std::hash<rtype>{}(l);
         }
     };
-- 
2.43.0


From 39a074b19a8e9d5bb97d56e9ebb50f880e5755a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 11/15] fix: dividing the smallest integer by -1 must not crash

---
 src/jogasaki/executor/expr/evaluator.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index d8eec51..9454aa4 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -18,6 +18,7 @@
 #include <cstdlib>
 #include <decimal.hh>
 #include <exception>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <utility>
@@ -326,6 +327,18 @@ divide(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if constexpr (std::is_integral_v<T>) {
+        if (r == -1 && l == std::numeric_limits<T>::min()) {
+            // the quotient is not representable and the division instruction would raise SIGFPE
+            auto& e = ctx.add_error(
+                {error_kind::arithmetic_error,
+                 "arithmetic overflow while performing division"}
+            );
+            e.new_argument() << l;
+            e.new_argument() << r;
+            return any{std::in_place_type<class error>, error_kind::arithmetic_error};
+        }
+    }
     return any{std::in_place_type<T>, l/r};
 }
 
@@ -351,6 +364,10 @@ remainder(T const& l, T const& r, evaluator_context& ctx) {
         e.new_argument() << r;
         return any{std::in_place_type<class error>, error_kind::arithmetic_error};
     }
+    if (r == -1) {
+        // the remainder is always zero, but the division instruction would raise SIGFPE if l is the minimum
+        return any{std::in_place_type<T>, static_cast<T>(0)};
+    }
     return any{std::in_place_type<T>, l%r};
 }
 
-- 
2.43.0


From 55785392a92c497a56f40538046b0a411a197013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 12/15] fix: keep the error of the selected CASE or COALESCE
 alternative

---
 src/jogasaki/executor/expr/evaluator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index 9454aa4..97873bf 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -984,6 +984,10 @@ static any convert_return_type_if_needed(
     any const& v,
     engine::memory_resource* resource
 ) {
+    if(v.error()) {
+        // errors are passed to the caller as they are
+        return v;
+    }
     auto& src_type = info.type_of(e);
     if(conv::to_require_conversion(src_type, dest_type)) {
         data::any converted{};
-- 
2.43.0


From 6830e1a037cc606ceff00a5b85e0ed60414ffa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:25 +0000
Subject: [PATCH 13/15] fix: wake readers of a record stream that is
 move-assigned

---
 src/jogasaki/udf/generic_record_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/udf/generic_record_impl.cpp b/src/jogasaki/udf/generic_record_impl.cpp
index dee1d8b..8c23a34 100644
--- a/src/jogasaki/udf/generic_record_impl.cpp
+++ b/src/jogasaki/udf/generic_record_impl.cpp
@@ -361,6 +361,7 @@ generic_record_stream_impl& generic_record_stream_impl::operator=(
         other.closed_ = true;
         other.eos_ = true;
     }
+    cv_.notify_all(); // readers waiting on this object may have records now
     other.cv_.notify_all();
     return *this;
 }
-- 
2.43.0


From a98c3745ee688c4d60de66251ed0dbc701e6a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:58 +0000
Subject: [PATCH 14/15] fix: LIKE wildcard _ must match exactly one character
 after backtracking

---
 src/jogasaki/executor/expr/evaluator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index 97873bf..ee94780 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -810,12 +810,12 @@ static bool starts_with(std::string_view str, std::string_view prefix) {
     std::size_t& backtrack_pattern_index) {
     if (input_index < input.size()) {
         std::size_t char_size = utils::get_byte(utils::detect_next_encoding(input, input_index));
-        if (input_index + char_size <= input.size()) {
+        // backtracking proceeds byte by byte: no character begins within another one
+        if (char_size != 0) {
             input_index += char_size;
             ++pattern_index;
             return true;
         }
-        return false;
     }
     if (backtrack_pattern_index != std::string::npos) {
         ++backtrack_input_index;
-- 
2.43.0


From bcd2f613d228945d39a5dc523c1aa890f8c7a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:58 +0000
Subject: [PATCH 15/15] fix: LIKE with an empty pattern is NULL for invalid
 input, as with any other pattern

---
 src/jogasaki/executor/expr/evaluator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/expr/evaluator.cpp b/src/jogasaki/executor/expr/evaluator.cpp
index ee94780..e505380 100644
--- a/src/jogasaki/executor/expr/evaluator.cpp
+++ b/src/jogasaki/executor/expr/evaluator.cpp
@@ -958,6 +958,7 @@ any engine::operator()(takatori::scalar::match const& match) {
         auto pattern_text = pattern_val.to<runtime_t<kind::character>>();
         auto input_text   = input_val.to<runtime_t<kind::character>>();
         if (pattern_text.empty()) {
+            if (!utils::is_valid_utf8(static_cast<std::string_view>(input_text))) { return {}; }
             if (input_text.empty()) { return any{std::in_place_type<bool>, true}; }
             return any{std::in_place_type<bool>, false};
         }
-- 
2.43.0

