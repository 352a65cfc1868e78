From c47a6ccc81d1b9d30c174110b517ce5a694127cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 01/41] fix: reject a sign without digits instead of asserting

Parsing '-', '+' or '-x' aborted the process (or read garbage with NDEBUG).
---
 include/configor/json.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e41aaa0..0ec557f 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -488,6 +488,9 @@ public:
         {
             is_negative_ = (current_ == '-');
             read_next();
+
+            if (!is_digit(current_))
+                fail("invalid number, got", current_);
         }
 
         if (current_ == '0')
-- 
2.43.0


From fa3bb8cc04046e8a81f2a896a1d005abb060b5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 02/41] fix: compare whole codepoints when scanning literals
 and digits

The codepoint was narrowed to the source character type first, so U+0131 was
taken for the digit '1' and 't' U+0172 'ue' for the literal true.
---
 include/configor/json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 0ec557f..b7fe36a 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -326,7 +326,7 @@ public:
     {
         for (const auto ch : text)
         {
-            if (ch != std::char_traits<source_char_type>::to_char_type(current_))
+            if (static_cast<uint32_t>(ch) != current_)
             {
                 detail::fast_ostringstream ss;
                 ss << "unexpected character '" << static_cast<char>(current_) << "'";
@@ -627,9 +627,9 @@ public:
         return code;
     }
 
-    inline bool is_digit(source_char_type ch) const
+    inline bool is_digit(uint32_t ch) const
     {
-        return source_char_type('0') <= ch && ch <= source_char_type('9');
+        return '0' <= ch && ch <= '9';
     }
 
     inline void fail(const std::string& msg)
-- 
2.43.0


From 7dfd0233ca23787cf072e9155a3488f382c3b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 03/41] fix: reject integer literals that do not fit instead of
 wrapping around

9223372036854775808 was parsed as -9223372036854775808, and the integer part of
a float literal wrapped the same way (12345678901234567890.5).
---
 include/configor/json.hpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index b7fe36a..5c67495 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -24,6 +24,7 @@
 #include <algorithm>  // std::for_each
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
+#include <limits>     // std::numeric_limits
 
 namespace configor
 {
@@ -163,7 +164,7 @@ public:
 
     virtual void get_integer(typename value_type::integer_type& out) override
     {
-        out = is_negative_ ? -number_integer_ : number_integer_;
+        out = number_integer_;
     }
 
     virtual void get_float(typename value_type::float_type& out) override
@@ -483,6 +484,7 @@ public:
     {
         is_negative_    = false;
         number_integer_ = 0;
+        number_float_   = 0;
 
         if (current_ == '-' || current_ == '+')
         {
@@ -511,21 +513,32 @@ public:
     token_type scan_integer()
     {
         using integer_type = typename value_type::integer_type;
+        using float_type   = typename value_type::float_type;
 
         CONFIGOR_ASSERT(is_digit(current_));
 
-        number_integer_ = static_cast<integer_type>(current_ - '0');
-        while (true)
-        {
-            const auto ch = read_next();
-            if (ch == '.' || ch == 'e' || ch == 'E')
-                return scan_float();
+        constexpr auto max = (std::numeric_limits<integer_type>::max)();
+        constexpr auto min = (std::numeric_limits<integer_type>::min)();
 
-            if (is_digit(ch))
-                number_integer_ = number_integer_ * 10 + static_cast<integer_type>(ch - '0');
-            else
-                break;
+        bool overflow = false;
+        while (is_digit(current_))
+        {
+            const auto digit = static_cast<integer_type>(current_ - '0');
+            number_float_    = number_float_ * 10 + static_cast<float_type>(digit);
+            if (!overflow)
+            {
+                overflow = is_negative_ ? (number_integer_ < (min + digit) / 10) : (number_integer_ > (max - digit) / 10);
+                if (!overflow)
+                    number_integer_ = number_integer_ * 10 + (is_negative_ ? -digit : digit);
+            }
+            read_next();
         }
+
+        if (current_ == '.' || current_ == 'e' || current_ == 'E')
+            return scan_float();
+
+        if (overflow)
+            fail("integer out of range");
         return token_type::value_integer;
     }
 
@@ -533,8 +546,6 @@ public:
     {
         using float_type = typename value_type::float_type;
 
-        number_float_ = static_cast<float_type>(number_integer_);
-
         if (current_ == 'e' || current_ == 'E')
             return scan_exponent();
 
-- 
2.43.0


From 54af03d908f5240e1b786b2e867158d5d06d2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 04/41] fix: reject malformed and unrepresentable exponents

'1e+' and '1e+x' were accepted, 1e4294967296 wrapped to 1.0 and 1e400 became
infinity.
---
 include/configor/json.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 5c67495..8b5741c 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -22,6 +22,7 @@
 #include "configor.hpp"
 
 #include <algorithm>  // std::for_each
+#include <cmath>      // std::ceil, std::floor, std::isfinite
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
 #include <limits>     // std::numeric_limits
@@ -571,6 +572,13 @@ public:
             else
                 break;
         }
+        return check_float();
+    }
+
+    token_type check_float()
+    {
+        if (!std::isfinite(number_float_))
+            fail("float number out of range");
         return token_type::value_float;
     }
 
@@ -597,19 +605,24 @@ public:
             read_next();
         }
 
+        if (!is_digit(current_))
+            fail("invalid exponent number, got", current_);
+
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-            exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+            // saturate, the result is zero or out of range anyway
+            if (exponent < 100000000)
+                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
         }
 
-        float_type power = 1;
-        for (; exponent; exponent >>= 1, base *= base)
-            if (exponent & 1)
-                power *= base;
-
-        number_float_ *= power;
-        return token_type::value_float;
+        if (number_float_ != 0)
+        {
+            for (; exponent; exponent >>= 1, base *= base)
+                if (exponent & 1)
+                    number_float_ *= base;
+        }
+        return check_float();
     }
 
     uint32_t read_escaped_codepoint()
-- 
2.43.0


From 80fa1e40faab95938c73098f4a6fe183390b90f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 05/41] fix: always write four hex digits in a \u escape

The width was the size of the integer in bytes, so U+0001 was written as \u01,
which no JSON parser (this one included) reads back.
---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 8b5741c..63370a5 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -84,7 +84,7 @@ struct json_hex
     friend inline std::basic_ostream<_CharTy>& operator<<(std::basic_ostream<_CharTy>& os, const json_hex& i)
     {
         os << std::setfill(_CharTy('0')) << std::hex << std::uppercase;
-        os << '\\' << 'u' << std::setw(sizeof(i.i)) << i.i;
+        os << '\\' << 'u' << std::setw(4) << i.i;
         os << std::dec << std::nouppercase;
         return os;
     }
-- 
2.43.0


From a9f7ffec5f5681ca216148460a014ff372925f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 06/41] fix: dump floats that do not fit into int64_t

Casting them to int64_t is undefined: 1e20, infinity and 9.3e18 were all dumped
as -9223372036854775808.0. Non-finite numbers have no JSON form and raise a
serialization error.
---
 include/configor/json.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 63370a5..d8931d5 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -889,7 +889,13 @@ public:
 
     virtual void put_float(typename value_type::float_type f) override
     {
-        if (std::ceil(f) == std::floor(f))
+        using float_type = typename value_type::float_type;
+
+        if (!std::isfinite(f))
+            throw configor_serialization_error("a non-finite number cannot be represented");
+
+        const auto int64_limit = static_cast<float_type>(9223372036854775808.0);
+        if (std::ceil(f) == std::floor(f) && -int64_limit <= f && f < int64_limit)
         {
             // integer
             this->os_ << static_cast<int64_t>(f) << ".0";
-- 
2.43.0


From 2e64b68d6775cfb81f7a40494b3888d87de49230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 07/41] fix: dump a float that rounds to an integer as a float

100000.5 was dumped as 100000 (default precision), which is read back as an
integer.
---
 include/configor/json.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index d8931d5..f96fa7d 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -902,7 +902,18 @@ public:
         }
         else
         {
-            this->os_ << f;
+            fast_basic_ostringstream<target_char_type> ss;
+            ss.imbue(this->os_.getloc());
+            ss.flags(this->os_.flags());
+            ss.precision(this->os_.precision());
+            ss << f;
+
+            this->os_ << ss.str();
+            if (std::none_of(ss.str().begin(), ss.str().end(), [](target_char_type ch) { return ch == '.' || ch == 'e'; }))
+            {
+                // keep it a float number, even if it is rounded to an integer
+                this->os_ << ".0";
+            }
         }
     }
 
-- 
2.43.0


From 9adf444ebef3196fd8e6b66447a514beb015590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 08/41] fix: skip consecutive comments without recursion

Every comment added two stack frames, so a long run of comments overflowed the
stack.
---
 include/configor/json.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index f96fa7d..c0ae96c 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -264,12 +264,13 @@ public:
 
     void skip_spaces()
     {
-        while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
-            read_next();
-
-        // skip comments
-        if (current_ == '/')
+        while (true)
         {
+            while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
+                read_next();
+
+            if (current_ != '/')
+                break;
             skip_comments();
         }
     }
@@ -286,7 +287,6 @@ public:
                 if (current_ == '\n' || current_ == '\r')
                 {
                     // end of comment
-                    skip_spaces();
                     break;
                 }
 
@@ -316,7 +316,6 @@ public:
                     fail("unexpected eof while reading comment");
                 }
             }
-            skip_spaces();
         }
         else
         {
-- 
2.43.0


From 5742cb4b56125f43f2d6d9576c8c291a4b4d17e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 09/41] fix: end a block comment at '**/'

After a '*' the next character was consumed without being considered as the
start of '*/', so '/* **/' was read to the end of the input.
---
 include/configor/json.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index c0ae96c..787d6a7 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -299,17 +299,17 @@ public:
         else if (current_ == '*')
         {
             // multiple line comment
+            bool after_star = false;
             while (true)
             {
-                if (read_next() == '*')
+                read_next();
+                if (after_star && current_ == '/')
                 {
-                    if (read_next() == '/')
-                    {
-                        // end of comment
-                        read_next();
-                        break;
-                    }
+                    // end of comment
+                    read_next();
+                    break;
                 }
+                after_star = (current_ == '*');
 
                 if (this->is_.eof())
                 {
-- 
2.43.0


From 96e1b61c21e0cb69202a2e2b82855477e7713515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 10/41] fix: stop reading a comment at the end of input mark
 '\0'

An adapter that answers '\0' at its end (which the scanner takes for the end of
input) made the parser read a trailing comment forever.
---
 include/configor/json.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 787d6a7..5af44d2 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -290,8 +290,9 @@ public:
                     break;
                 }
 
-                if (this->is_.eof())
+                if (current_ == 0)
                 {
+                    // end of input
                     break;
                 }
             }
@@ -311,7 +312,7 @@ public:
                 }
                 after_star = (current_ == '*');
 
-                if (this->is_.eof())
+                if (current_ == 0)
                 {
                     fail("unexpected eof while reading comment");
                 }
-- 
2.43.0


From 0da1aa3d23a95cca2297eb4e9df3064c70847ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 11/41] fix: report an undecodable first character to the error
 handler

The first character was read before the error handler was in place, so the
record and ignore policies still threw.
---
 include/configor/json.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 5af44d2..3c643ab 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -156,11 +156,14 @@ public:
         std::for_each(options.begin(), options.end(), [&](const option& option) { option(*this); });
     }
 
-    virtual void parse(value_type& c) override
+    virtual void do_parse(value_type& c, token_type last_token, bool read_next = true) override
     {
-        // read first char
-        read_next();
-        basic_parser<value_type, source_char_type>::parse(c);
+        if (last_token == token_type::uninitialized)
+        {
+            // read first char
+            this->read_next();
+        }
+        basic_parser<value_type, source_char_type>::do_parse(c, last_token, read_next);
     }
 
     virtual void get_integer(typename value_type::integer_type& out) override
-- 
2.43.0


From f93ca1aa6a6b3c539df3aef041f46ba8040e1edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 12/41] fix: reject ill-formed UTF-8, UTF-16 and UTF-32

---
 include/configor/details/encoding.hpp | 89 +++++++++++++++++----------
 1 file changed, 56 insertions(+), 33 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 7ca64fa..80f2398 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -23,7 +23,7 @@
 #include <cstdint>      // uint32_t, uint8_t
 #include <istream>      // std::basic_istream
 #include <ostream>      // std::basic_ostream
-#include <type_traits>  // std::char_traits
+#include <type_traits>  // std::char_traits, std::make_unsigned
 
 namespace configor
 {
@@ -54,6 +54,19 @@ inline bool is_trail_surrogate(const uint32_t codepoint)
     return constants::trail_surrogate_begin <= codepoint && codepoint <= constants::trail_surrogate_end;
 }
 
+inline bool is_surrogate(const uint32_t codepoint)
+{
+    return is_lead_surrogate(codepoint) || is_trail_surrogate(codepoint);
+}
+
+// the value of a code unit that was read from a stream
+template <typename _CharTy>
+inline uint32_t to_code_unit(typename std::char_traits<_CharTy>::int_type i)
+{
+    using unsigned_type = typename std::make_unsigned<_CharTy>::type;
+    return static_cast<uint32_t>(static_cast<unsigned_type>(std::char_traits<_CharTy>::to_char_type(i)));
+}
+
 inline uint32_t decode_surrogates(uint32_t lead_surrogate, uint32_t trail_surrogate)
 {
     uint32_t codepoint = ((lead_surrogate - constants::lead_surrogate_begin) << constants::surrogate_bits);
@@ -115,7 +128,11 @@ public:
         // U+0080...U+07FF      110xxxxx 10xxxxxx
         // U+0800...U+FFFF      1110xxxx 10xxxxxx 10xxxxxx
         // U+10000...U+10FFFF   11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
-        if (codepoint < 0x80)
+        if (unicode::is_surrogate(codepoint))
+        {
+            os.setstate(std::ios_base::failbit);
+        }
+        else if (codepoint < 0x80)
         {
             // 0xxxxxxx
             os.put(static_cast<char_type>(codepoint));
@@ -169,38 +186,41 @@ public:
             0x00000000, 0x00003080, 0x000E2080, 0x03C82080, 0xFA082080, 0x82082080,
         };
 
-        // peek one byte and check eof
-        const auto first_byte = static_cast<uint8_t>(is.peek());
+        // the smallest codepoint that needs the number of extra bytes
+        static const std::array<std::uint32_t, 6> utf8_min_codepoints = {
+            0x00000000, 0x00000080, 0x00000800, 0x00010000, 0xFFFFFFFF, 0xFFFFFFFF,
+        };
+
+        // read first byte and check eof
+        const auto first_byte = unicode::to_code_unit<char_type>(is.get());
 
         if (is.eof())
             return false;
 
-        codepoint = 0;
+        codepoint = first_byte;
+        if (first_byte > 0xFF || (first_byte & 0xC0) == 0x80)
+        {
+            // not a lead byte
+            is.setstate(std::ios_base::failbit);
+            return true;
+        }
 
-        // read bytes
+        // read continuation bytes
         const auto extra_bytes_to_read = utf8_extra_bytes[first_byte];
-        switch (extra_bytes_to_read)
+        for (auto i = extra_bytes_to_read; i > 0; --i)
         {
-        case 5:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 4:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 3:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 2:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 1:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 0:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
+            const auto byte = unicode::to_code_unit<char_type>(is.peek());
+            if (!is.good() || byte > 0xFF || (byte & 0xC0) != 0x80)
+            {
+                is.setstate(std::ios_base::failbit);
+                return true;
+            }
+            is.get();
+            codepoint = (codepoint << 6) + byte;
         }
         codepoint -= utf8_offsets[extra_bytes_to_read];
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || codepoint < utf8_min_codepoints[extra_bytes_to_read]
+            || unicode::is_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
@@ -221,7 +241,11 @@ public:
 
     static void encode(ostream_type& os, uint32_t codepoint)
     {
-        if (codepoint <= 0xFFFF)
+        if (unicode::is_surrogate(codepoint))
+        {
+            os.setstate(std::ios_base::failbit);
+        }
+        else if (codepoint <= 0xFFFF)
         {
             os.put(traits_type::to_char_type(static_cast<typename traits_type::int_type>(codepoint)));
         }
@@ -240,7 +264,7 @@ public:
 
     static bool decode(istream_type& is, uint32_t& codepoint)
     {
-        codepoint = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+        codepoint = unicode::to_code_unit<char_type>(is.get());
 
         if (is.eof())
             return false;
@@ -248,9 +272,9 @@ public:
         if (unicode::is_lead_surrogate(codepoint))
         {
             uint32_t lead_surrogate  = codepoint;
-            uint32_t trail_surrogate = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+            uint32_t trail_surrogate = unicode::to_code_unit<char_type>(is.get());
 
-            if (unicode::is_trail_surrogate(trail_surrogate))
+            if (is.good() && unicode::is_trail_surrogate(trail_surrogate))
             {
                 codepoint = unicode::decode_surrogates(lead_surrogate, trail_surrogate);
             }
@@ -259,8 +283,7 @@ public:
                 is.setstate(std::ios_base::failbit);
             }
         }
-
-        if (codepoint > 0x10FFFF)
+        else if (codepoint > 0xFFFF || unicode::is_trail_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
@@ -281,7 +304,7 @@ public:
 
     static void encode(ostream_type& os, uint32_t codepoint)
     {
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_surrogate(codepoint))
         {
             os.setstate(std::ios_base::failbit);
         }
@@ -295,7 +318,7 @@ public:
         if (is.eof())
             return false;
 
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From 5bf0aaf9a5bb6020817da196b9b52752420c53ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:31 +0000
Subject: [PATCH 13/41] fix: do not lose NUL or the peeked character in input
 stream buffers

---
 include/configor/details/stream.hpp | 35 ++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index a99761e..9bf784a 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -156,42 +156,49 @@ private:
         explicit streambuf(basic_iadapter<char_type>& adapter)
             : adapter_(adapter)
             , last_char_(0)
+            , peeked_(false)
         {
         }
 
     protected:
         virtual int_type underflow() override
         {
-            if (last_char_ != 0)
+            if (peeked_)
                 return last_char_;
             last_char_ = traits_type::to_char_type(adapter_.read());
+            peeked_    = true;
             return last_char_;
         }
 
         virtual int_type uflow() override
         {
             int_type c = underflow();
-            last_char_ = 0;
+            peeked_    = false;
             return c;
         }
 
         virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
         {
-            if (last_char_ != 0)
+            if (num <= 0)
+                return 0;
+
+            std::streamsize rest = num;
+            if (peeked_)
             {
                 // read last char
-                s[0]       = traits_type::to_char_type(last_char_);
-                last_char_ = 0;
+                s[0]    = traits_type::to_char_type(last_char_);
+                peeked_ = false;
                 ++s;
-                --num;
+                --rest;
             }
-            adapter_.read(s, static_cast<size_t>(num));
+            adapter_.read(s, static_cast<size_t>(rest));
             return num;
         }
 
     private:
         basic_iadapter<char_type>& adapter_;
         int_type                   last_char_;
+        bool                       peeked_;
     };
 
     streambuf buf_;
@@ -348,22 +355,24 @@ public:
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
         , last_char_(0)
+        , peeked_(false)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (peeked_)
             return last_char_;
         last_char_ = std::fgetc(file_);
+        peeked_    = true;
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
         int_type c = underflow();
-        last_char_ = 0;
+        peeked_    = false;
         return c;
     }
 
@@ -377,6 +386,7 @@ protected:
 private:
     std::FILE* file_;
     int_type   last_char_;
+    bool       peeked_;
 };
 
 template <>
@@ -391,22 +401,24 @@ public:
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
         , last_char_(0)
+        , peeked_(false)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
+        if (peeked_)
             return last_char_;
         last_char_ = std::fgetwc(file_);
+        peeked_    = true;
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
         int_type c = underflow();
-        last_char_ = 0;
+        peeked_    = false;
         return c;
     }
 
@@ -420,6 +432,7 @@ protected:
 private:
     std::FILE* file_;
     int_type   last_char_;
+    bool       peeked_;
 };
 
 //
-- 
2.43.0


From 8e199130f4f7fb77949d3393b186db902f1ff78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:38 +0000
Subject: [PATCH 14/41] fix: report a read error of a FILE instead of taking it
 for the end

---
 include/configor/details/stream.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 9bf784a..89984dc 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -21,7 +21,7 @@
 #pragma once
 #include <algorithm>    // std::none_of
 #include <cmath>        // std::ceil, std::floor
-#include <cstdio>       // std::FILE, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
+#include <cstdio>       // std::FILE, std::ferror, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
 #include <iomanip>      // std::fill, std::setw
 #include <ios>          // std::basic_ios, std::streamsize, std::hex, std::dec, std::uppercase, std::nouppercase
 #include <istream>      // std::basic_istream
@@ -366,6 +366,8 @@ protected:
             return last_char_;
         last_char_ = std::fgetc(file_);
         peeked_    = true;
+        if (last_char_ == traits_type::eof() && std::ferror(file_))
+            throw std::ios_base::failure("reading file failed");
         return last_char_;
     }
 
@@ -412,6 +414,8 @@ protected:
             return last_char_;
         last_char_ = std::fgetwc(file_);
         peeked_    = true;
+        if (last_char_ == traits_type::eof() && std::ferror(file_))
+            throw std::ios_base::failure("reading file failed");
         return last_char_;
     }
 
-- 
2.43.0


From 693d47fb1beaf95e05b92df74dc85047bc84edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 15/41] fix: report a failed write to the output stream

---
 include/configor/details/serializer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 6eba96f..7cbe9cd 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -60,6 +60,8 @@ public:
         {
             do_dump(c);
             next(token_type::end_of_input);
+            if (!os_.good())
+                throw configor_serialization_error("writing to the output stream failed");
         }
         catch (...)
         {
-- 
2.43.0


From cc7aaf7ae93dc65299a0d8e6b4c1b6513f0433f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 16/41] fix: report a string whose last escape could not be
 stored

---
 include/configor/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 3c643ab..02fb3e0 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -365,6 +365,10 @@ public:
             case '\"':
             {
                 // end of string
+                if (!oss.good())
+                {
+                    fail("writing string failed");
+                }
                 // skip last `\"`
                 read_next();
                 return;
-- 
2.43.0


From 445e61b6e2404d45c76701b1899b21b0bf562866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:56 +0000
Subject: [PATCH 17/41] fix: replace the contents of a map when converting to
 it

---
 include/configor/details/conversion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index e3bcba9..218b6db 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -449,6 +449,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
@@ -474,6 +475,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::unordered_map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
-- 
2.43.0


From 1d48d50b21c9fc56b9ceaeed37e5a688ad27bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:31 +0000
Subject: [PATCH 18/41] fix: do not leak or free twice when building a value
 throws

---
 include/configor/details/value.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 97c9bbe..11ed6b2 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -156,8 +156,7 @@ public:
               typename std::enable_if<!is_value<_UTy>::value && detail::has_to_value<basic_value, _UTy>::value,
                                       int>::type = 0>
     basic_value(_CompatibleTy&& value)
-        : type_{ value_constant::null }
-        , data_{}
+        : basic_value(nullptr)
     {
         binder_type<_UTy>::to_value(*this, std::forward<_CompatibleTy>(value));
     }
@@ -1024,8 +1023,9 @@ public:
     static void reset(value_type& v, _Args&&... args)
     {
         destroy(v);
-        v.type(_Ty);
+        v.type(value_constant::null);
         construct<_Ty>(v, std::forward<_Args>(args)...);
+        v.type(_Ty);
     }
 
     template <value_constant::type _Ty, typename... _Args>
@@ -1103,7 +1103,15 @@ private:
         static allocator_type<_Ty> allocator;
 
         auto ptr = allocator_traits::allocate(allocator, 1);
-        allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        try
+        {
+            allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        }
+        catch (...)
+        {
+            allocator_traits::deallocate(allocator, ptr, 1);
+            throw;
+        }
         return ptr;
     }
 
-- 
2.43.0


From 1bad4ff3a501746636b0ffc36186bfffa88872fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:38 +0000
Subject: [PATCH 19/41] fix: check the index in erase()

---
 include/configor/details/value.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 11ed6b2..e2c205c 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -359,6 +359,10 @@ public:
         {
             throw configor_invalid_key("cannot use erase() with non-array value");
         }
+        if (index >= data().vector->size())
+        {
+            throw std::out_of_range("erase() index out of range");
+        }
         data().vector->erase(data().vector->begin() + static_cast<difference_type>(index));
     }
 
-- 
2.43.0


From da92b06c2861302f8fce3d847f78ea1742769133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 20/41] fix: report a required field that cannot be converted

---
 include/configor/details/conversion.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index 218b6db..8b71102 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -786,7 +786,9 @@ public:
                            _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50)
 
 #define __CONFIGOR_TO_CONF_REQUIRED(field, name) c[name].operator=(v.field);
-#define __CONFIGOR_FROM_CONF_REQUIRED(field, name) c.at(name).get(v.field);
+#define __CONFIGOR_FROM_CONF_REQUIRED(field, name) \
+    if (!c.at(name).get(v.field))                  \
+        throw ::configor::configor_type_error("cannot convert the required field '" #field "'");
 
 #define __CONFIGOR_TO_CONF_OPTIONAL(field, name) \
     if (v.field != decltype(v.field){})          \
@@ -796,7 +798,7 @@ public:
 #define __CONFIGOR_FROM_CONF_OPTIONAL(field, name) \
     if (c.count(name))                             \
     {                                              \
-        __CONFIGOR_FROM_CONF_REQUIRED(field, name) \
+        c.at(name).get(v.field);                   \
     }
 
 // REQUIRED/OPTIONAL
-- 
2.43.0


From d69be2ddf41616f914b0a5cb4bc7a8a4ef125c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 21/41] fix: keep a copy of the list in json::object and
 json::array

---
 include/configor/details/value.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index e2c205c..04e2cad 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -28,6 +28,7 @@
 #include <sstream>      // std::stringstream
 #include <type_traits>  // std::enable_if, std::is_same, std::is_integral, std::is_floating_point
 #include <utility>      // std::swap, std::forward, std::declval
+#include <vector>       // std::vector
 
 namespace configor
 {
@@ -1154,7 +1155,7 @@ public:
         }
 
     private:
-        std::initializer_list<pair_type> list_;
+        std::vector<pair_type> list_;
     };
 
     struct array
@@ -1173,7 +1174,7 @@ public:
         }
 
     private:
-        std::initializer_list<value_type> list_;
+        std::vector<value_type> list_;
     };
 };
 }  // namespace detail
-- 
2.43.0


From 99adbfca75eacc60c7aef36a3f6d142b88230460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 22/41] fix: report a float that could not be formatted

---
 include/configor/json.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 02fb3e0..fea93c4 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -914,6 +914,8 @@ public:
             ss.flags(this->os_.flags());
             ss.precision(this->os_.precision());
             ss << f;
+            if (!ss.good())
+                throw configor_serialization_error("formatting a float number failed");
 
             this->os_ << ss.str();
             if (std::none_of(ss.str().begin(), ss.str().end(), [](target_char_type ch) { return ch == '.' || ch == 'e'; }))
-- 
2.43.0


From 010059d076535376b09261ec8a3e457cc71974c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 23/41] fix: reject an object member without a value

---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 74555fa..9b11ca4 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -182,7 +182,7 @@ protected:
 
                 token = scan();
                 if (token != token_type::name_separator)
-                    break;
+                    fail(token, token_type::name_separator);
 
                 _ValTy object;
                 do_parse(object, token);
-- 
2.43.0


From 285f19168b35afcfd3b2031983e7cd3920d2d238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 24/41] fix: scale a float in steps, so that a large exponent
 does not lose it

---
 include/configor/json.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index fea93c4..f42d480 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -601,14 +601,14 @@ public:
         if (!invalid)
             fail("invalid exponent number, got", current_);
 
-        float_type base = 10;
+        float_type radix = 10;
         if (current_ == '+')
         {
             read_next();
         }
         else if (current_ == '-')
         {
-            base = static_cast<float_type>(0.1);
+            radix = static_cast<float_type>(0.1);
             read_next();
         }
 
@@ -623,10 +623,14 @@ public:
                 exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
         }
 
-        if (number_float_ != 0)
+        // scale in steps, a power of the whole exponent may not be representable
+        constexpr uint32_t max_step = static_cast<uint32_t>(std::numeric_limits<float_type>::max_exponent10 / 2);
+        while (exponent && number_float_ != 0 && std::isfinite(number_float_))
         {
-            for (; exponent; exponent >>= 1, base *= base)
-                if (exponent & 1)
+            uint32_t step = (std::min)(exponent, max_step);
+            exponent -= step;
+            for (float_type base = radix; step; step >>= 1, base *= base)
+                if (step & 1)
                     number_float_ *= base;
         }
         return check_float();
-- 
2.43.0


From 36f0151ce71520ebb68fe501ba81d9b7ec6dfd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:31 +0000
Subject: [PATCH 25/41] fix: count the indentation depth without overflow

---
 include/configor/details/serializer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 7cbe9cd..f22e3e7 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -276,7 +276,7 @@ public:
     inline void operator++()
     {
         ++depth_;
-        reverse(static_cast<size_t>(depth_ * step_));
+        reverse(depth_ * step_);
     }
 
     inline void operator--()
@@ -318,7 +318,7 @@ private:
 
 private:
     uint8_t     step_;
-    uint16_t    depth_;
+    size_t      depth_;
     char_type   indent_char_;
     string_type indent_string_;
 };
-- 
2.43.0


From c30c4bb3abcdbb8a2696c998d61b97631be98255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 26/41] fix: compare integers and floats exactly

---
 include/configor/details/value.hpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 04e2cad..617da40 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -22,7 +22,7 @@
 #include "iterator.hpp"
 
 #include <algorithm>    // std::for_each, std::all_of
-#include <cmath>        // std::fabs
+#include <cmath>        // std::fabs, std::ldexp
 #include <limits>       // std::numeric_limits
 #include <memory>       // std::allocator_traits
 #include <sstream>      // std::stringstream
@@ -848,11 +848,11 @@ public:
         }
         else if (lhs.type() == value_constant::integer && rhs.type() == value_constant::floating)
         {
-            return static_cast<float_type>(lhs.data().integer) == rhs.data().floating;
+            return compare_number(lhs.data().integer, rhs.data().floating) == 0;
         }
         else if (lhs.type() == value_constant::floating && rhs.type() == value_constant::integer)
         {
-            return lhs.data().floating == static_cast<float_type>(rhs.data().integer);
+            return compare_number(rhs.data().integer, lhs.data().floating) == 0;
         }
         return false;
     }
@@ -926,11 +926,11 @@ public:
         }
         else if (lhs_type == value_constant::integer && rhs_type == value_constant::floating)
         {
-            return (static_cast<float_type>(lhs.data().integer) < rhs.data().floating);
+            return compare_number(lhs.data().integer, rhs.data().floating) == -1;
         }
         else if (lhs_type == value_constant::floating && rhs_type == value_constant::integer)
         {
-            return (lhs.data().floating < static_cast<float_type>(rhs.data().integer));
+            return compare_number(rhs.data().integer, lhs.data().floating) == 1;
         }
 
         return false;
@@ -1005,6 +1005,24 @@ public:
         return basic_value(lhs) >= rhs;
     }
 
+private:
+    // compare without rounding the integer: -1 (less), 0 (equal), 1 (greater) or 2 (not a number)
+    static int compare_number(integer_type i, float_type f)
+    {
+        if (f != f)
+            return 2;
+        if (f >= std::ldexp(static_cast<float_type>(1), std::numeric_limits<integer_type>::digits))
+            return -1;
+        if (f < static_cast<float_type>((std::numeric_limits<integer_type>::min)()))
+            return 1;
+
+        const auto whole = static_cast<integer_type>(f);
+        if (i != whole)
+            return i < whole ? -1 : 1;
+        const auto rest = f - static_cast<float_type>(whole);
+        return rest > 0 ? -1 : (rest < 0 ? 1 : 0);
+    }
+
 private:
     value_constant::type type_;
     data_type            data_;
-- 
2.43.0


From 5ba7068c7257c64764a0ba76155235a1dcc151e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:05 +0000
Subject: [PATCH 27/41] fix: deliver bytes above 127 from an adapter as
 characters

---
 include/configor/details/stream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 89984dc..592962c 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -165,7 +165,10 @@ private:
         {
             if (peeked_)
                 return last_char_;
-            last_char_ = traits_type::to_char_type(adapter_.read());
+            const char_type ch = adapter_.read();
+            // an adapter reports its end by returning eof as a character
+            last_char_ = ch == traits_type::to_char_type(traits_type::eof()) ? traits_type::eof()
+                                                                             : traits_type::to_int_type(ch);
             peeked_    = true;
             return last_char_;
         }
-- 
2.43.0


From bff0beb327108c2d21320e26eddd89735b4f379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 28/41] fix: count only the characters an adapter supplied in a
 block read

---
 include/configor/details/stream.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 592962c..8e0d7da 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -126,7 +126,11 @@ struct basic_iadapter
         if (num)
         {
             for (std::size_t i = 0; i < num; ++i)
+            {
                 s[i] = this->read();
+                if (s[i] == char_traits::to_char_type(char_traits::eof()))
+                    break;
+            }
         }
     }
 };
@@ -188,14 +192,21 @@ private:
             std::streamsize rest = num;
             if (peeked_)
             {
+                if (traits_type::eq_int_type(last_char_, traits_type::eof()))
+                    return 0;
                 // read last char
                 s[0]    = traits_type::to_char_type(last_char_);
                 peeked_ = false;
                 ++s;
                 --rest;
             }
+            if (rest == 0)
+                return num;
             adapter_.read(s, static_cast<size_t>(rest));
-            return num;
+            // count up to the eof that ends what the adapter supplied, if it did end
+            const char_type  end  = traits_type::to_char_type(traits_type::eof());
+            const char_type* last = traits_type::find(s, static_cast<size_t>(rest), end);
+            return last ? num - rest + (last - s) : num;
         }
 
     private:
-- 
2.43.0


From 075e0a2a58efab7276d2d00953d29c21745aeeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 29/41] fix: let running out of memory escape from
 get(variable)

---
 include/configor/details/value.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 617da40..1825779 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -25,6 +25,7 @@
 #include <cmath>        // std::fabs, std::ldexp
 #include <limits>       // std::numeric_limits
 #include <memory>       // std::allocator_traits
+#include <new>          // std::bad_alloc
 #include <sstream>      // std::stringstream
 #include <type_traits>  // std::enable_if, std::is_same, std::is_integral, std::is_floating_point
 #include <utility>      // std::swap, std::forward, std::declval
@@ -666,6 +667,10 @@ public:
             do_get<_Ty>(value, detail::priority<3>{});
             return true;
         }
+        catch (const std::bad_alloc&)
+        {
+            throw;
+        }
         catch (...)
         {
         }
-- 
2.43.0


From d595ef5b6f8f1f8e0c95a8b47278c8e9d99d1262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 30/41] fix: parse booleans into the configured boolean type

---
 include/configor/details/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 9b11ca4..c504353 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -106,11 +106,11 @@ protected:
         switch (token)
         {
         case token_type::literal_true:
-            c = true;
+            c = static_cast<typename value_type::boolean_type>(true);
             break;
 
         case token_type::literal_false:
-            c = false;
+            c = static_cast<typename value_type::boolean_type>(false);
             break;
 
         case token_type::literal_null:
-- 
2.43.0


From 35242bca38e6785412799294137a5e04ca2d68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 31/41] fix: parse and dump strings with a custom allocator

---
 include/configor/details/stream.hpp | 8 ++++----
 include/configor/json.hpp           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 8e0d7da..8848637 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -228,14 +228,14 @@ namespace detail
 // ostreambuf
 //
 
-template <typename _CharTy>
+template <typename _CharTy, typename _StrTy = std::basic_string<_CharTy>>
 class fast_string_ostreambuf : public std::basic_streambuf<_CharTy>
 {
 public:
     using char_type   = _CharTy;
     using traits_type = typename std::basic_streambuf<char_type>::traits_type;
     using int_type    = typename std::basic_streambuf<char_type>::int_type;
-    using string_type = std::basic_string<char_type>;
+    using string_type = _StrTy;
 
     explicit fast_string_ostreambuf(string_type& str)
         : str_(str)
@@ -266,14 +266,14 @@ private:
 // istreambuf
 //
 
-template <typename _CharTy>
+template <typename _CharTy, typename _StrTy = std::basic_string<_CharTy>>
 class fast_string_istreambuf : public std::basic_streambuf<_CharTy>
 {
 public:
     using char_type   = _CharTy;
     using traits_type = typename std::basic_streambuf<char_type>::traits_type;
     using int_type    = typename std::basic_streambuf<char_type>::int_type;
-    using string_type = std::basic_string<char_type>;
+    using string_type = _StrTy;
 
     explicit fast_string_istreambuf(const string_type& str)
         : str_(str)
diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index f42d480..aa84471 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -350,8 +350,8 @@ public:
     {
         CONFIGOR_ASSERT(current_ == '\"');
 
-        detail::fast_string_ostreambuf<target_char_type> buf{ out };
-        std::basic_ostream<target_char_type>             oss{ &buf };
+        detail::fast_string_ostreambuf<target_char_type, typename value_type::string_type> buf{ out };
+        std::basic_ostream<target_char_type> oss{ &buf };
         while (true)
         {
             read_next();
@@ -934,8 +934,8 @@ public:
     {
         output('\"');
 
-        fast_string_istreambuf<source_char_type> buf{ s };
-        std::basic_istream<source_char_type>     iss{ &buf };
+        fast_string_istreambuf<source_char_type, typename value_type::string_type> buf{ s };
+        std::basic_istream<source_char_type> iss{ &buf };
 
         uint32_t codepoint = 0;
         while (this->source_decoder_(iss, codepoint))
-- 
2.43.0


From ad2c08250665756f52e93730106c6c2d2c804997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 32/41] fix: dump integers of the size of a character as
 numbers

---
 include/configor/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index aa84471..42c05da 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -895,7 +895,8 @@ public:
 
     virtual void put_integer(typename value_type::integer_type i) override
     {
-        this->os_ << i;
+        // promote, or an integer of the size of a character would be written as one
+        this->os_ << +i;
     }
 
     virtual void put_float(typename value_type::float_type f) override
-- 
2.43.0


From 6dbc09f2a4ba362b4530f8054f17487dd232a7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 33/41] fix: refuse negative integers with an unsigned integer
 type

---
 include/configor/json.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 42c05da..d474387 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -535,7 +535,9 @@ public:
             number_float_    = number_float_ * 10 + static_cast<float_type>(digit);
             if (!overflow)
             {
-                overflow = is_negative_ ? (number_integer_ < (min + digit) / 10) : (number_integer_ > (max - digit) / 10);
+                // a negative number is out of the range of an unsigned type, unless it is zero
+                overflow = is_negative_ ? (number_integer_ < (min + digit) / 10 || (min == 0 && digit != 0))
+                                        : (number_integer_ > (max - digit) / 10);
                 if (!overflow)
                     number_integer_ = number_integer_ * 10 + (is_negative_ ? -digit : digit);
             }
-- 
2.43.0


From 0b899c1ddb74f83c3a4fb30a0b2fa097b30cbcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 34/41] fix: leave the locale of the caller's stream buffer
 alone

---
 include/configor/details/parser.hpp     | 3 ++-
 include/configor/details/serializer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index c504353..22f79de 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -43,13 +43,14 @@ public:
     using target_char_type = typename value_type::char_type;
 
     basic_parser(std::basic_istream<source_char_type>& is)
-        : is_(is.rdbuf())
+        : is_(nullptr)
         , err_handler_(nullptr)
         , source_decoder_(nullptr)
         , target_encoder_(nullptr)
     {
         is_.unsetf(std::ios_base::skipws);
         is_.imbue(std::locale(std::locale::classic(), is.getloc(), std::locale::collate | std::locale::ctype));
+        is_.rdbuf(is.rdbuf());  // after imbue, which would change the locale of the buffer as well
     }
 
     virtual void parse(value_type& c)
diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index f22e3e7..435081b 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -45,13 +45,14 @@ public:
     using target_char_type = _TargetCharTy;
 
     explicit basic_serializer(std::basic_ostream<target_char_type>& os)
-        : os_(os.rdbuf())
+        : os_(nullptr)
         , err_handler_(nullptr)
         , source_decoder_(nullptr)
         , target_encoder_(nullptr)
     {
         os_.setf(os.flags(), std::ios_base::floatfield);
         os_.imbue(std::locale(std::locale::classic(), os.getloc(), std::locale::collate | std::locale::ctype));
+        os_.rdbuf(os.rdbuf());  // after imbue, which would change the locale of the buffer as well
     }
 
     virtual void dump(const value_type& c)
-- 
2.43.0


From 527e99ea4db0b62781ea3160f776214e47f53b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:11 +0000
Subject: [PATCH 35/41] fix: block reads from strings, C strings and FILE
 sources advance and count what they give

A user-defined encoding may decode with istream::read(). The string
sources copied from the start without advancing, and the FILE sources
used fgets/fgetws, which stop at a newline, end what they give with a
NUL and ignore the character peeked before.
---
 include/configor/details/stream.hpp | 38 ++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 8848637..4f5832e 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -21,7 +21,7 @@
 #pragma once
 #include <algorithm>    // std::none_of
 #include <cmath>        // std::ceil, std::floor
-#include <cstdio>       // std::FILE, std::ferror, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
+#include <cstdio>       // std::FILE, std::ferror, std::fgetc, std::fgetwc, std::snprintf
 #include <iomanip>      // std::fill, std::setw
 #include <ios>          // std::basic_ios, std::streamsize, std::hex, std::dec, std::uppercase, std::nouppercase
 #include <istream>      // std::basic_istream
@@ -298,7 +298,10 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
+        if (num <= 0 || index_ >= str_.size())
+            return 0;
         const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
+        index_ += copied;
         return static_cast<std::streamsize>(copied);
     }
 
@@ -340,11 +343,12 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (index_ + static_cast<size_t>(num) >= size_)
-            num = static_cast<std::streamsize>(size_ - index_);
-        if (num == 0)
+        if (num <= 0 || index_ >= size_)
             return 0;
-        traits_type::copy(s, buffer_, static_cast<size_t>(num));
+        if (static_cast<size_t>(num) > size_ - index_)
+            num = static_cast<std::streamsize>(size_ - index_);
+        traits_type::copy(s, buffer_ + index_, static_cast<size_t>(num));
+        index_ += static_cast<size_t>(num);
         return num;
     }
 
@@ -394,9 +398,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgets(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize count = 0;
+        while (count < num)
+        {
+            const int_type c = uflow();
+            if (c == traits_type::eof())
+                break;
+            s[count++] = traits_type::to_char_type(c);
+        }
+        return count;
     }
 
 private:
@@ -442,9 +452,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgetws(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize count = 0;
+        while (count < num)
+        {
+            const int_type c = uflow();
+            if (c == traits_type::eof())
+                break;
+            s[count++] = traits_type::to_char_type(c);
+        }
+        return count;
     }
 
 private:
-- 
2.43.0


From 37af854f69d523bf22630a8c7ff54d465607455d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:31 +0000
Subject: [PATCH 36/41] fix: indexing null or an empty array with the largest
 index is an error, and a failed indexing leaves null as it was

The count of elements to add wrapped to zero, and the element read did
not exist. A null value stayed an empty array when the index was refused.
---
 include/configor/details/value.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 1825779..c9d5615 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -721,7 +721,9 @@ public:
     {
         if (is_null())
         {
-            *this = value_constant::array;
+            basic_value array{ value_constant::array };
+            array[index];
+            this->swap(array);
         }
 
         if (!is_array())
@@ -731,6 +733,11 @@ public:
 
         if (index >= data().vector->size())
         {
+            // no array has that many elements, and one more than that cannot be counted
+            if (index == (std::numeric_limits<size_type>::max)())
+            {
+                throw std::out_of_range("operator[] index out of range");
+            }
             data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());
         }
         return (*data().vector)[index];
-- 
2.43.0


From 66fc91f84f25123e7677cf81e56b0797cfe3e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:04 +0000
Subject: [PATCH 37/41] fix: json::array lists can be made into values whose
 array type has no reserve()

assign() alone is enough, and a deque has no reserve().
---
 include/configor/details/value.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index c9d5615..688b373 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -1198,7 +1198,6 @@ public:
         operator value_type() const
         {
             value_type v{ value_constant::array };
-            v.data().vector->reserve(list_.size());
             v.data().vector->assign(list_.begin(), list_.end());
             return v;
         }
-- 
2.43.0


From c91faa8294a03636262f200703b53d8683b8e8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:59 +0000
Subject: [PATCH 38/41] fix: a decoder that extracts with >> reads the blanks
 of a string when dumping, as it does when parsing

---
 include/configor/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index d474387..92851da 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -939,6 +939,7 @@ public:
 
         fast_string_istreambuf<source_char_type, typename value_type::string_type> buf{ s };
         std::basic_istream<source_char_type> iss{ &buf };
+        iss.unsetf(std::ios_base::skipws);  // blanks are characters of the string for any decoder
 
         uint32_t codepoint = 0;
         while (this->source_decoder_(iss, codepoint))
-- 
2.43.0


From 55028efb7f499f46f04b0410afe7a0836944aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:37 +0000
Subject: [PATCH 39/41] fix: let a value be made of a const or temporary custom
 array or object

The conversions from the configured array and object types took a
reference to non-const, so they were never found usable, and a value
could not be made from an object type other than std::map or
std::unordered_map, nor from an array with its own allocator.
---
 include/configor/details/conversion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index 8b71102..8516cf8 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -97,14 +97,14 @@ void to_value(_ValTy& c, const _Ty& v)
 
 template <typename _ValTy, typename _Ty,
           typename std::enable_if<std::is_same<_Ty, typename _ValTy::array_type>::value, int>::type = 0>
-void to_value(_ValTy& c, _Ty& v)
+void to_value(_ValTy& c, const _Ty& v)
 {
     value_constructor<_ValTy>::template reset<value_constant::array>(c, v);
 }
 
 template <typename _ValTy, typename _Ty,
           typename std::enable_if<std::is_same<_Ty, typename _ValTy::object_type>::value, int>::type = 0>
-void to_value(_ValTy& c, _Ty& v)
+void to_value(_ValTy& c, const _Ty& v)
 {
     value_constructor<_ValTy>::template reset<value_constant::object>(c, v);
 }
-- 
2.43.0


From 91fc19f4d17db43449a07a05445383644bd5a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:16 +0000
Subject: [PATCH 40/41] fix: append a null value to itself as an element

push_back and emplace_back on a null value turned it into an array before
the argument was read, so that v.push_back(v) gave [[]] and not [null].
---
 include/configor/details/value.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 688b373..0169381 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -439,7 +439,11 @@ public:
         }
         if (is_null())
         {
-            *this = value_constant::array;
+            // append before becoming an array, what is appended may be this value
+            basic_value array{ value_constant::array };
+            array.data().vector->emplace_back(std::forward<_Ty>(v)...);
+            this->swap(array);
+            return;
         }
         data().vector->emplace_back(std::forward<_Ty>(v)...);
     }
-- 
2.43.0


From d1ef389125d5da2df2bec30b5ed9bf9817847e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:16 +0000
Subject: [PATCH 41/41] fix: parse a text held by the target value itself

parse(v, text) cleared the value while it was still reading the text, a
use after free when the text was v's own string or a part of v.
---
 include/configor/details/parser.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 22f79de..c92d232 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -265,9 +265,7 @@ public:
     static void parse(value_type& c, const typename _Args::template string_type<_SourceCharTy>& str,
                       std::initializer_list<parser_option<_SourceCharTy>> options = {})
     {
-        detail::fast_string_istreambuf<_SourceCharTy> buf{ str };
-        std::basic_istream<_SourceCharTy>             is{ &buf };
-        parse(c, is, options);
+        c = parse<_SourceCharTy>(str, options);  // not in place, the text may belong to the value
     }
 
     template <typename _SourceCharTy>
@@ -284,9 +282,7 @@ public:
     static void parse(value_type& c, const _SourceCharTy* str,
                       std::initializer_list<parser_option<_SourceCharTy>> options = {})
     {
-        detail::fast_buffer_istreambuf<_SourceCharTy> buf{ str };
-        std::basic_istream<_SourceCharTy>             is{ &buf };
-        parse(c, is, options);
+        c = parse<_SourceCharTy>(str, options);  // not in place, the text may belong to the value
     }
 
     template <typename _SourceCharTy>
-- 
2.43.0

