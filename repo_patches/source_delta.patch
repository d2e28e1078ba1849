From 976857b9aeb194f70a665437414e550f9d77889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 01/20] fix: set_abi on an already loaded contract must replace
 its abi

The load reported success but kept the old abi: map::insert does nothing
when the key exists.
---
 src/abieos.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 5d46a1f..0510105 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -111,7 +111,7 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
             return set_error(context, std::move(error));
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
@@ -132,7 +132,7 @@ extern "C" abieos_bool abieos_set_abi_bin(abieos_context* context, uint64_t cont
         from_bin(def, stream);
         abieos::abi c;
         convert(def, c);
-        context->contracts.insert({name{contract}, std::move(c)});
+        context->contracts.insert_or_assign(name{contract}, std::move(c));
         return true;
     });
 }
-- 
2.43.0


From 7e3943281a0462729c8e243ba132dd82ef8e30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 02/20] fix: do not terminate when memory runs out while
 recording an error

handle_exceptions is noexcept and copied the message into a std::string
without guarding against bad_alloc.
---
 src/abieos.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 0510105..f1b98d0 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -29,6 +29,15 @@ bool set_error(abieos_context* context, std::string error) noexcept {
     return false;
 }
 
+// Used while handling an exception; must not throw
+void set_exception_error(abieos_context* context, const char* error) noexcept {
+    try {
+        set_error(context, error);
+    } catch (...) {
+        context->last_error = "out of memory";
+    }
+}
+
 template <typename T, typename F>
 auto handle_exceptions(abieos_context* context, T errval, F f) noexcept -> decltype(f()) {
     if (!context)
@@ -38,12 +47,12 @@ auto handle_exceptions(abieos_context* context, T errval, F f) noexcept -> declt
     } catch (std::exception& e) {
         if (!catch_all)
             throw;
-        set_error(context, e.what());
+        set_exception_error(context, e.what());
         return errval;
     } catch (...) {
         if (!catch_all)
             throw;
-        set_error(context, "unknown exception");
+        set_exception_error(context, "unknown exception");
         return errval;
     }
 }
-- 
2.43.0


From e082b86f6667bde5060ad7f2a6a40e5188ab22ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 03/20] fix: do not allocate for a corrupted length before
 checking the data

A string or vector length read from a few bytes of input caused a resize
of up to 2^32 elements before any of them was known to exist.
---
 include/eosio/from_bin.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 2326049..6eb998d 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -108,9 +108,10 @@ void from_bin(std::vector<T>& v, S& stream) {
    } else {
       uint32_t size;
       varuint32_from_bin(size, stream);
-      v.resize(size);
+      v.clear();
       for (size_t i = 0; i < size; ++i) {
-         from_bin(v[i], stream);
+         v.emplace_back();
+         from_bin(v.back(), stream);
       }
    }
 }
@@ -168,6 +169,7 @@ template <typename S>
 inline void from_bin(std::string& obj, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   stream.check_available(size);
    obj.resize(size);
    stream.read(obj.data(), obj.size());
 }
-- 
2.43.0


From 29484007eb486e4bf8de2f94413b943df2c1756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 04/20] fix: decoding a bool from a byte other than 0 or 1 was
 undefined behaviour

---
 include/eosio/from_bin.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index 6eb998d..b185f7d 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -159,6 +159,13 @@ void from_bin(input_stream& obj, S& stream) {
    }
 }
 
+template <typename S>
+void from_bin(bool& obj, S& stream) {
+   uint8_t b;
+   from_bin(b, stream);
+   obj = b != 0;
+}
+
 template <typename First, typename Second, typename S>
 void from_bin(std::pair<First, Second>& obj, S& stream) {
    from_bin(obj.first, stream);
-- 
2.43.0


From f4c04325583c677166fabd279e748930ae250f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 05/20] fix: bin_to_json lost the reason when the contract is
 not loaded

---
 src/abieos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index f1b98d0..8496340 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -234,7 +234,7 @@ extern "C" const char* abieos_bin_to_json(abieos_context* context, uint64_t cont
         auto contract_it = context->contracts.find(::abieos::name{contract});
         std::string error;
         if (contract_it == context->contracts.end()) {
-            (void)set_error(error, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
+            set_error(context, "contract \"" + eosio::name_to_string(contract) + "\" is not loaded");
             return nullptr;
         }
         auto t = contract_it->second.get_type(type);
-- 
2.43.0


From 4d334b203ba9bf426824a17a1105f0df3fef5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 06/20] fix: json_to_bin_reorderable ignored the caller's
 callback while parsing

---
 src/abieos.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/abieos.hpp b/src/abieos.hpp
index 1c25578..24cc41b 100644
--- a/src/abieos.hpp
+++ b/src/abieos.hpp
@@ -516,9 +516,13 @@ inline void json_to_jvalue(jvalue& value, std::string_view json, F&& f) {
     state.stack.push_back({&value});
     rapidjson::Reader reader;
     rapidjson::InsituStringStream ss(mutable_json.data());
-    eosio::check(reader.Parse<rapidjson::kParseValidateEncodingFlag | rapidjson::kParseIterativeFlag |
-        rapidjson::kParseNumbersAsStringsFlag>(ss, state),
-        eosio::convert_json_error(eosio::from_json_error::unspecific_syntax_error));
+    reader.IterativeParseInit();
+    while (!reader.IterativeParseComplete()) {
+        f();
+        eosio::check(reader.IterativeParseNext<rapidjson::kParseValidateEncodingFlag | rapidjson::kParseIterativeFlag |
+            rapidjson::kParseNumbersAsStringsFlag>(ss, state),
+            eosio::convert_json_error(eosio::from_json_error::unspecific_syntax_error));
+    }
 }
 
 ABIEOS_NODISCARD inline bool json_to_jobject(jvalue& value, json_to_jvalue_state& state, event_type event, bool start) {
-- 
2.43.0


From f162cceb4eea403fa43363180b997b5893381973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 07/20] fix: from_json rejected the subnormal floats which
 to_json produces

---
 include/eosio/from_json.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index 448f39d..a1e9a8f 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cmath>
 #include <cstdlib>
 #include "for_each_field.hpp"
 #include "check.hpp"
@@ -485,6 +486,8 @@ void from_json(float& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtof(s.c_str(), &end);
+   if (errno == ERANGE && std::fpclassify(result) == FP_SUBNORMAL)
+      errno = 0;
    check( !errno && end == s.c_str() + s.size(),
          convert_json_error(from_json_error::expected_number) );
 }
@@ -497,6 +500,8 @@ void from_json(double& result, S& stream) {
    errno = 0;
    char* end;
    result = std::strtod(s.c_str(), &end);
+   if (errno == ERANGE && std::fpclassify(result) == FP_SUBNORMAL)
+      errno = 0;
    check( !errno && end == s.c_str() + s.size(), convert_json_error(from_json_error::expected_number) );
 }
 
-- 
2.43.0


From cf32b6c014eaf1f5a88e09c0d2781354b8f65165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 08/20] fix: base58 accepted a NUL character as a digit

---
 src/crypto.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index df10ad6..106e9ad 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -27,7 +27,7 @@ constexpr auto create_base58_map() {
     std::array<int8_t, 256> base58_map{{0}};
     for (unsigned i = 0; i < base58_map.size(); ++i)
         base58_map[i] = -1;
-    for (unsigned i = 0; i < sizeof(base58_chars); ++i)
+    for (unsigned i = 0; i < sizeof(base58_chars) - 1; ++i)
         base58_map[base58_chars[i]] = i;
     return base58_map;
 }
-- 
2.43.0


From 210106b882c62d4a0055c0c08073b1fea401cd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 09/20] fix: to_json of large negative numbers overflowed its
 buffer

A negative number with 17 significant digits and an exponent of 23 is
written as a plain integer of 25 characters.
---
 include/eosio/fpconv.c    |  2 +-
 include/eosio/fpconv.h    | 10 +++++-----
 include/eosio/to_json.hpp |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/eosio/fpconv.c b/include/eosio/fpconv.c
index 54c6d6f..c3d9b5e 100644
--- a/include/eosio/fpconv.c
+++ b/include/eosio/fpconv.c
@@ -308,7 +308,7 @@ static int filter_special(double fp, char* dest)
     return 3;
 }
 
-int fpconv_dtoa(double d, char dest[24])
+int fpconv_dtoa(double d, char dest[25])
 {
     char digits[18];
 
diff --git a/include/eosio/fpconv.h b/include/eosio/fpconv.h
index 5c9dc78..39aced3 100644
--- a/include/eosio/fpconv.h
+++ b/include/eosio/fpconv.h
@@ -10,8 +10,8 @@
  *
  * Input:
  * fp -> the double to convert, dest -> destination buffer.
- * The generated string will never be longer than 24 characters.
- * Make sure to pass a pointer to at least 24 bytes of memory.
+ * The generated string will never be longer than 25 characters.
+ * Make sure to pass a pointer to at least 25 bytes of memory.
  * The emitted string will not be null terminated.
  *
  * Output:
@@ -21,7 +21,7 @@
  *
  * void print(double d)
  * {
- *      char buf[24 + 1] // plus null terminator
+ *      char buf[25 + 1] // plus null terminator
  *      int str_len = fpconv_dtoa(d, buf);
  *
  *      buf[str_len] = '\0';
@@ -31,9 +31,9 @@
  */
 
 #   ifdef __cplusplus
-extern "C" int fpconv_dtoa(double fp, char dest[24]);
+extern "C" int fpconv_dtoa(double fp, char dest[25]);
 #   else
-int fpconv_dtoa(double fp, char dest[24]);
+int fpconv_dtoa(double fp, char dest[25]);
 #   endif
 
 #endif
diff --git a/include/eosio/to_json.hpp b/include/eosio/to_json.hpp
index 3c62ef9..7eb626a 100644
--- a/include/eosio/to_json.hpp
+++ b/include/eosio/to_json.hpp
@@ -118,7 +118,7 @@ void fp_to_json(double value, S& stream) {
    } else if (std::isnan(value)) {
       stream.write("\"NaN\"", 5);
    } else {
-      small_buffer<24> b; // fpconv_dtoa generates at most 24 characters
+      small_buffer<25> b; // fpconv_dtoa generates at most 25 characters
       int              n = fpconv_dtoa(value, b.pos);
       check( n > 0, convert_stream_error(stream_error::float_error) );
       b.pos += n;
-- 
2.43.0


From 488c801f05f8b9702218c195194fb45a52056278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 10/20] fix: exporting an abi lost the alias names of variant
 alternatives

---
 src/abi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/abi.cpp b/src/abi.cpp
index 2c5d5b7..e74a580 100644
--- a/src/abi.cpp
+++ b/src/abi.cpp
@@ -257,8 +257,8 @@ void to_abi_def(abi_def& def, const std::string& name, const abi_type::struct_&
 
 void to_abi_def(abi_def& def, const std::string& name, const abi_type::variant& variant) {
    std::vector<std::string> types;
-   for(const auto& [name, type] : variant) {
-      types.push_back(type->name);
+   for(const abi_field& member : variant) {
+      types.push_back(member.name); // the name which appears in json; not that of the type behind an alias
    }
    def.variants.value.push_back({name, std::move(types)});
 }
-- 
2.43.0


From 6a952cf88e7e2d6ad9ec69a7f520f88e96364a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:00 +0000
Subject: [PATCH 11/20] fix: abieos_set_abi read past the end of a text cut
 within a character

The json parser may look at up to 3 bytes behind the end; json_to_bin
already provides them.
---
 src/abieos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/abieos.cpp b/src/abieos.cpp
index 8496340..d1b6434 100644
--- a/src/abieos.cpp
+++ b/src/abieos.cpp
@@ -114,6 +114,9 @@ extern "C" abieos_bool abieos_set_abi(abieos_context* context, uint64_t contract
         abi_def def{};
         std::string error;
         std::string abi_copy{abi};
+        abi_copy.push_back(0);
+        abi_copy.push_back(0);
+        abi_copy.push_back(0);
         eosio::json_token_stream stream(abi_copy.data());
         from_json(def, stream);
         if (!check_abi_version(def.version, error))
-- 
2.43.0


From 12406352358f0fbc5453dbb90fb96e83d8bba072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 12/20] fix: string_to_symbol wrapped a precision above 255
 around

---
 include/eosio/chain_conversions.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 42c3353..7d234ac 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -370,6 +370,8 @@ inline std::string symbol_code_to_string(uint64_t v) {
    uint8_t precision = 0;
    bool    found     = false;
    while (pos != end && *pos >= '0' && *pos <= '9') {
+      if (precision > (0xff - (*pos - '0')) / 10)
+         return false;
       precision = precision * 10 + (*pos - '0');
       found     = true;
       ++pos;
-- 
2.43.0


From 39f13bdbb5026de2c02ff2868829fb47424cfe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 13/20] fix: string_to_asset wrapped amounts and precisions out
 of range around

It also took a text without any digit for an amount.
---
 include/eosio/chain_conversions.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index 7d234ac..bed1a7a 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -391,25 +391,37 @@ inline std::string symbol_to_string(uint64_t v) {
 
 [[nodiscard]] inline bool string_to_asset(int64_t& amount, uint64_t& symbol, const char*& s, const char* end,
                                           bool expect_end) {
-   // todo: check overflow
    while (s != end && *s == ' ') //
       ++s;
    uint64_t uamount   = 0;
    uint8_t  precision = 0;
    bool     negative  = false;
+   bool     found     = false;
    if (s != end && *s == '-') {
       ++s;
       negative = true;
    }
-   while (s != end && *s >= '0' && *s <= '9') //
-      uamount = uamount * 10 + (*s++ - '0');
+   const uint64_t limit     = (uint64_t(1) << 63) - !negative;
+   auto           add_digit = [&](uint64_t digit) {
+      if (uamount > (limit - digit) / 10)
+         return false;
+      uamount = uamount * 10 + digit;
+      found   = true;
+      return true;
+   };
+   while (s != end && *s >= '0' && *s <= '9')
+      if (!add_digit(*s++ - '0'))
+         return false;
    if (s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') {
-         uamount = uamount * 10 + (*s++ - '0');
+         if (precision == 0xff || !add_digit(*s++ - '0'))
+            return false;
          ++precision;
       }
    }
+   if (!found)
+      return false;
    if (negative)
       uamount = -uamount;
    amount = uamount;
-- 
2.43.0


From 5f48ac5f114f1bc1fd67aac6988b9ebdbab6de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 14/20] fix: impossible dates and times were taken for other
 points in time

So were points in time outside of the range of the type.
---
 include/eosio/chain_conversions.hpp | 11 ++++++++++-
 include/eosio/time.hpp              |  3 +++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/eosio/chain_conversions.hpp b/include/eosio/chain_conversions.hpp
index bed1a7a..54e28c2 100644
--- a/include/eosio/chain_conversions.hpp
+++ b/include/eosio/chain_conversions.hpp
@@ -298,7 +298,16 @@ inline std::string microseconds_to_str(uint64_t microseconds) {
       return false;
    if (!parse_uint(sec, 2))
       return false;
-   result = sys_days(year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()).time_since_epoch().count() * 86400 + h * 3600 + min * 60 + sec;
+   if (h >= 24 || min >= 60 || sec >= 60)
+      return false;
+   const sys_days date{year_month_day{year_t{y}, month_t{m}, day_t{d}}.to_days()};
+   const year_month_day ymd{date};
+   if (ymd.year() != y || ymd.month() != m || ymd.day() != d)
+      return false; // there is no such day
+   const int64_t utc_seconds = int64_t(date.time_since_epoch().count()) * 86400 + h * 3600 + min * 60 + sec;
+   if (utc_seconds < 0 || utc_seconds > 0xffff'ffff)
+      return false;
+   result = utc_seconds;
    if (eat_fractional && s != end && *s == '.') {
       ++s;
       while (s != end && *s >= '0' && *s <= '9') ++s;
diff --git a/include/eosio/time.hpp b/include/eosio/time.hpp
index c021595..c87785a 100644
--- a/include/eosio/time.hpp
+++ b/include/eosio/time.hpp
@@ -253,6 +253,9 @@ template <typename S>
 void from_json(block_timestamp& obj, S& stream) {
    time_point tp;
    from_json(tp, stream);
+   const int64_t msec = tp.time_since_epoch().count() / 1000 - block_timestamp::block_timestamp_epoch;
+   check(msec >= 0 && msec / block_timestamp::block_interval_ms <= std::numeric_limits<uint32_t>::max(),
+         convert_json_error(from_json_error::expected_time_point));
    obj = block_timestamp(tp);
 }
 
-- 
2.43.0


From 1341f79b6fb8d745c5ccfc1969ce114b06e7d290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 15/20] fix: key and signature text with bytes after the key
 was accepted

---
 src/crypto.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index 106e9ad..23fdaf0 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -95,6 +95,15 @@ std::array<unsigned char, 20> digest_suffix_ripemd160(const Container&... data)
 }
 
 
+template <typename Key>
+Key key_from_bin(const std::vector<char>& bin) {
+    Key result;
+    input_stream stream{ bin };
+    from_bin(result, stream);
+    check(!stream.remaining(), convert_json_error(from_json_error::expected_key));
+    return result;
+}
+
 template <typename Key>
 Key string_to_key(std::string_view s, key_type type, std::string_view suffix) {
     std::vector<char> whole;
@@ -106,7 +115,7 @@ Key string_to_key(std::string_view s, key_type type, std::string_view suffix) {
     check(memcmp(ripe_digest.data(), whole.data() + whole.size() - 4, 4)==0,
         convert_json_error(from_json_error::expected_key));
     whole.erase(whole.end() - 4, whole.end());
-    return convert_from_bin<Key>(whole);
+    return key_from_bin<Key>(whole);
 }
 
 template <typename Key>
@@ -172,7 +181,7 @@ private_key eosio::private_key_from_string(std::string_view s) {
         check(whole.size() >= 5, convert_json_error(from_json_error::expected_private_key));
         whole[0] = key_type::k1;
         whole.erase(whole.end() - 4, whole.end());
-        return convert_from_bin<private_key>(whole);
+        return key_from_bin<private_key>(whole);
     }
 }
 
-- 
2.43.0


From 01a520d504e65dbf0de29b66f702c9dbe3a760cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:06 +0000
Subject: [PATCH 16/20] fix: legacy private key text with any version byte was
 accepted

---
 src/crypto.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto.cpp b/src/crypto.cpp
index 23fdaf0..09f736f 100644
--- a/src/crypto.cpp
+++ b/src/crypto.cpp
@@ -178,7 +178,7 @@ private_key eosio::private_key_from_string(std::string_view s) {
     } else {
         std::vector<char> whole;
         base58_to_binary(whole, s);
-        check(whole.size() >= 5, convert_json_error(from_json_error::expected_private_key));
+        check(whole.size() >= 5 && uint8_t(whole[0]) == 0x80, convert_json_error(from_json_error::expected_private_key));
         whole[0] = key_type::k1;
         whole.erase(whole.end() - 4, whole.end());
         return key_from_bin<private_key>(whole);
-- 
2.43.0


From 677c4d70fb6430131f7453d12a4db46f29262d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 17/20] fix: floating point numbers in json depended on the
 decimal point of the locale

---
 include/eosio/from_json.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/eosio/from_json.hpp b/include/eosio/from_json.hpp
index a1e9a8f..b6f2169 100644
--- a/include/eosio/from_json.hpp
+++ b/include/eosio/from_json.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cmath>
+#include <cstdio>
 #include <cstdlib>
 #include "for_each_field.hpp"
 #include "check.hpp"
@@ -478,11 +479,25 @@ void from_json(__int128& result, S& stream) {
 }
 #endif
 
+// strtof and strtod expect the decimal point of the program's locale, json always has a '.'
+inline void use_decimal_point_of_locale(std::string& s) {
+   char point[16];
+   std::snprintf(point, sizeof(point), "%.1f", 0.5); // unlike localeconv(), this may be used by several threads
+   std::string_view sv{point};
+   sv = sv.substr(1, sv.size() - 2);
+   if (sv == ".")
+      return;
+   check( s.find(sv) == std::string::npos, convert_json_error(from_json_error::expected_number) );
+   if (auto pos = s.find('.'); pos != std::string::npos)
+      s.replace(pos, 1, sv);
+}
+
 template <typename S>
 void from_json(float& result, S& stream) {
    auto sv = stream.get_string();
    check( !sv.empty(), convert_json_error(from_json_error::expected_number) );
    std::string s(sv); // strtof expects a null-terminated string
+   use_decimal_point_of_locale(s);
    errno = 0;
    char* end;
    result = std::strtof(s.c_str(), &end);
@@ -497,6 +512,7 @@ void from_json(double& result, S& stream) {
    auto sv = stream.get_string();
    check( !sv.empty(), convert_json_error(from_json_error::expected_number) );
    std::string s(sv);
+   use_decimal_point_of_locale(s);
    errno = 0;
    char* end;
    result = std::strtod(s.c_str(), &end);
-- 
2.43.0


From a3582a8eed552bbc92ff857eda32ef655d85e754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:49 +0000
Subject: [PATCH 18/20] fix: decoding a list, deque, set or map appended to
 what the object held

---
 include/eosio/from_bin.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/eosio/from_bin.hpp b/include/eosio/from_bin.hpp
index b185f7d..18c54bf 100644
--- a/include/eosio/from_bin.hpp
+++ b/include/eosio/from_bin.hpp
@@ -58,6 +58,7 @@ template <typename T, typename S>
 void from_bin_assoc(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       typename T::value_type elem;
       from_bin(elem, stream);
@@ -69,6 +70,7 @@ template <typename T, typename S>
 void from_bin_sequence(T& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       v.emplace_back();
       from_bin(v.back(), stream);
@@ -125,6 +127,7 @@ template <typename T, typename U, typename S>
 void from_bin(std::map<T, U>& v, S& stream) {
    uint32_t size;
    varuint32_from_bin(size, stream);
+   v.clear();
    for (size_t i = 0; i < size; ++i) {
       std::pair<T, U> elem;
       from_bin(elem, stream);
-- 
2.43.0


From 2b1eaaa6ec9e0e852e084e1b605e70da1de2132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:55 +0000
Subject: [PATCH 19/20] fix: a refused asset operation left the operand changed

---
 include/eosio/asset.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/eosio/asset.hpp b/include/eosio/asset.hpp
index 9281752..de7ee18 100644
--- a/include/eosio/asset.hpp
+++ b/include/eosio/asset.hpp
@@ -74,8 +74,8 @@ struct asset {
     * @param a - New amount for the asset
     */
    void set_amount(int64_t a) {
+      eosio::check(-max_amount <= a && a <= max_amount, "magnitude of asset amount must be less than 2^62");
       amount = a;
-      eosio::check(is_amount_within_range(), "magnitude of asset amount must be less than 2^62");
    }
 
    /// @cond OPERATORS
@@ -100,9 +100,10 @@ struct asset {
     */
    asset& operator-=(const asset& a) {
       eosio::check(a.symbol == symbol, "attempt to subtract asset with different symbol");
-      amount -= a.amount;
-      eosio::check(-max_amount <= amount, "subtraction underflow");
-      eosio::check(amount <= max_amount, "subtraction overflow");
+      int64_t result = amount - a.amount;
+      eosio::check(-max_amount <= result, "subtraction underflow");
+      eosio::check(result <= max_amount, "subtraction overflow");
+      amount = result;
       return *this;
    }
 
@@ -115,9 +116,10 @@ struct asset {
     */
    asset& operator+=(const asset& a) {
       eosio::check(a.symbol == symbol, "attempt to add asset with different symbol");
-      amount += a.amount;
-      eosio::check(-max_amount <= amount, "addition underflow");
-      eosio::check(amount <= max_amount, "addition overflow");
+      int64_t result = amount + a.amount;
+      eosio::check(-max_amount <= result, "addition underflow");
+      eosio::check(result <= max_amount, "addition overflow");
+      amount = result;
       return *this;
    }
 
-- 
2.43.0


From 8c991820d81b5417a9ce8e0c7fe953d885572a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:55 +0000
Subject: [PATCH 20/20] fix: symbol_code::is_valid accepted a code of eight
 letters

---
 include/eosio/symbol.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/eosio/symbol.hpp b/include/eosio/symbol.hpp
index e33dd3e..4f99d7f 100644
--- a/include/eosio/symbol.hpp
+++ b/include/eosio/symbol.hpp
@@ -86,7 +86,7 @@ class symbol_code {
             } while (i < 7);
          }
       }
-      return true;
+      return sym == 0; // an eighth letter
    }
 
    /**
-- 
2.43.0

