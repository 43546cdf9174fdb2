From f8f234ede7a370efe7f0c277714360a15e749fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:31 +0000
Subject: [PATCH 01/76] fix: base64_decode read outside its table for bytes >=
 0x80

---
 src/algorithm.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 00ea0b6..15c5904 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -60,12 +60,12 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
         char base64code2 = 0;   // initialized to 0 to suppress warnings
         char base64code3;
 
-        base64code0 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code0 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code0==nop)            // non base64 character
             return false;
         if(!(++i<input_length)) // we need at least two input bytes for first byte output
             return false;
-        base64code1 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code1 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code1==nop)            // non base64 character
             return false;
 
@@ -77,7 +77,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code1 & 0x0f)==0);
                 return true;
             }
-            base64code2 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code2 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code2==nop)            // non base64 character
                 return false;
 
@@ -90,7 +90,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code2 & 0x03)==0);
                 return true;
             }
-            base64code3 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code3 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code3==nop)            // non base64 character
                 return false;
 
-- 
2.43.0


From b4295db2ca1540c87e3cb5304104c9a429aeb51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:31 +0000
Subject: [PATCH 02/76] fix: base64_decode accepted non-base64 symbols after
 the padding

---
 src/algorithm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 15c5904..83104cd 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -75,7 +75,8 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
             char c = input_ptr[i];
             if(c =='=') { // padding , end of input
                 BOOST_ASSERT( (base64code1 & 0x0f)==0);
-                return true;
+                // nothing but more padding may follow
+                return input.find_first_not_of('=', i) == std::string::npos;
             }
             base64code2 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code2==nop)            // non base64 character
@@ -88,7 +89,8 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
             char c = input_ptr[i];
             if(c =='=') { // padding , end of input
                 BOOST_ASSERT( (base64code2 & 0x03)==0);
-                return true;
+                // nothing but more padding may follow
+                return input.find_first_not_of('=', i) == std::string::npos;
             }
             base64code3 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code3==nop)            // non base64 character
-- 
2.43.0


From 0538d3145acf5b534a128700de14e8b9aa18ec98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:31 +0000
Subject: [PATCH 03/76] fix: url_decode treated % followed by non-hex
 characters as an escape

---
 src/algorithm.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 83104cd..8e9c151 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -7,6 +7,7 @@
 // See http://www.boost.org/LICENSE_1_0.txt
 //
 
+#include <cctype>
 #include <cmath>
 #include <cstdlib>
 #include <cstdio>
@@ -167,7 +168,11 @@ std::string algorithm::url_decode(const std::string& str)
             break;
         case '%':
             // decode hexadecimal value
-            if (pos + 2 < str.size()) {
+            // (strtol alone would also accept signs, whitespace and a single digit)
+            if (pos + 2 < str.size()
+                && isxdigit(static_cast<unsigned char>(str[pos+1]))
+                && isxdigit(static_cast<unsigned char>(str[pos+2])))
+            {
                 decode_buf[0] = str[++pos];
                 decode_buf[1] = str[++pos];
                 decode_buf[2] = '\0';
-- 
2.43.0


From 0d11d1ceb6d3692c098ba9f4e6892ec7feb3e15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:31 +0000
Subject: [PATCH 04/76] fix: xml_encode passed overlong, surrogate and
 out-of-range UTF-8 through

---
 src/algorithm.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 8e9c151..bcce7f2 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -284,8 +284,12 @@ std::string algorithm::xml_encode(const std::string& str)
             }
         } else if (*ptr >= 0xE0 && *ptr <= 0xEF) {
             // three-byte sequence
+            // (excludes overlong forms, UTF-16 surrogates and U+FFFE/U+FFFF)
             if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
-                && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF) {
+                && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF
+                && !(*ptr == 0xE0 && *(ptr+1) < 0xA0)
+                && !(*ptr == 0xED && *(ptr+1) > 0x9F)
+                && !(*ptr == 0xEF && *(ptr+1) == 0xBF && *(ptr+2) > 0xBD)) {
                 result += *ptr;
                 result += *(++ptr);
                 result += *(++ptr);
@@ -294,10 +298,12 @@ std::string algorithm::xml_encode(const std::string& str)
                 result += UTF8_REPLACEMENT_CHAR;
             }
         } else if (*ptr >= 0xF0 && *ptr <= 0xF4) {
-            // four-byte sequence
+            // four-byte sequence (excludes overlong forms and values above U+10FFFF)
             if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
                 && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF
-                && *(ptr+3) >= 0x80 && *(ptr+3) <= 0xBF) {
+                && *(ptr+3) >= 0x80 && *(ptr+3) <= 0xBF
+                && !(*ptr == 0xF0 && *(ptr+1) < 0x90)
+                && !(*ptr == 0xF4 && *(ptr+1) > 0x8F)) {
                 result += *ptr;
                 result += *(++ptr);
                 result += *(++ptr);
-- 
2.43.0


From 1c0ca6009dfc7c5c47815f3da185ed724bd69404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:20 +0000
Subject: [PATCH 05/76] fix: float byte codecs mangled subnormal numbers

---
 src/algorithm.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index bcce7f2..78f79f9 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -348,7 +348,9 @@ void algorithm::float_from_bytes(long double& value, const unsigned char *ptr, s
         --num_fraction_bits;
     }
     
-    // calculate final value
+    // calculate final value (subnormal numbers use the smallest normal exponent)
+    if (exponent == 0)
+        exponent = 1;
     exponent -= (boost::int16_t)(::pow((long double)2, (int)(num_exp_bits - 1)) - 1);
     value = value_sign * significand * ::pow((long double)2, exponent);
 }
@@ -383,6 +385,9 @@ void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num
         }
     }
     
+    // smallest exponent of a normal number
+    const boost::int32_t min_exponent = 2 - (boost::int32_t)(::pow((long double)2, (int)(num_exp_bits - 1)));
+
     // serialize fractional value < 1.0
     bool got_exponent = false;
     boost::uint16_t num_bits = 0;
@@ -400,6 +405,10 @@ void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num
             if (value >= 1.0) {
                 value -= 1.0;
                 got_exponent = true;
+            } else if (exponent == min_exponent) {
+                // subnormal number: zero exponent bits and no implicit leading one
+                --exponent;
+                got_exponent = true;
             }
         }
     }
-- 
2.43.0


From 490e28476216ca177b22af10cc40f1deaca4deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:20 +0000
Subject: [PATCH 06/76] fix: float_to_bytes never returned for infinity and the
 float codecs mangled NaN

---
 src/algorithm.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 78f79f9..0ef088e 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -12,6 +12,7 @@
 #include <cstdlib>
 #include <cstdio>
 #include <cstring>
+#include <limits>
 #include <pion/algorithm.hpp>
 #include <boost/assert.hpp>
 
@@ -348,6 +349,13 @@ void algorithm::float_from_bytes(long double& value, const unsigned char *ptr, s
         --num_fraction_bits;
     }
     
+    // an exponent of all ones represents infinity (no fraction bits) or NaN
+    if (exponent == (boost::int16_t)(::pow((long double)2, (int)num_exp_bits) - 1)) {
+        value = value_sign * (significand == 1.0 ? std::numeric_limits<long double>::infinity()
+                                                 : std::numeric_limits<long double>::quiet_NaN());
+        return;
+    }
+
     // calculate final value (subnormal numbers use the smallest normal exponent)
     if (exponent == 0)
         exponent = 1;
@@ -367,6 +375,17 @@ void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num
         value *= -1;
     }
     
+    // infinity and NaN cannot be broken down: serialize all ones for the exponent
+    // (and set the first fraction bit for NaN)
+    if (value != value || value > (std::numeric_limits<long double>::max)()) {
+        unsigned char special_mask = 0x80;
+        for (size_t n = 0; n < num_exp_bits + (value != value ? 1 : 0); ++n) {
+            SHIFT_BITMASK(ptr, special_mask);
+            *ptr |= special_mask;
+        }
+        return;
+    }
+
     // break down numbers >= 1.0 by incrementing the exponent & dividing by 2
     boost::int16_t exponent = 0;
     while (value >= 1) {
-- 
2.43.0


From 94ca6a797b4ecacdabd8d1a92d584a4bf74b6abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:08 +0000
Subject: [PATCH 07/76] fix: quadruple precision values outside the range of
 double decoded as 0 or infinity

---
 src/algorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 0ef088e..c246dd2 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -360,7 +360,7 @@ void algorithm::float_from_bytes(long double& value, const unsigned char *ptr, s
     if (exponent == 0)
         exponent = 1;
     exponent -= (boost::int16_t)(::pow((long double)2, (int)(num_exp_bits - 1)) - 1);
-    value = value_sign * significand * ::pow((long double)2, exponent);
+    value = value_sign * std::ldexp(significand, exponent);
 }
 
 void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num_exp_bits, size_t num_fraction_bits)
-- 
2.43.0


From 2e59e0266797a876b9e30c76898df38439962215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:15 +0000
Subject: [PATCH 08/76] fix: chunked message larger than the maximum content
 length never completed

---
 src/http_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 9a796b5..367d0f4 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1445,8 +1445,10 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
                     m_payload_handler(m_read_ptr, len);
                     m_bytes_read_in_current_chunk += len;
                     if (len > 1) m_read_ptr += (len - 1);
-                } else if (chunks.size() < m_max_content_length) {
-                    chunks.push_back(*m_read_ptr);
+                } else {
+                    // content beyond the maximum allowed is read, but not stored
+                    if (chunks.size() < m_max_content_length)
+                        chunks.push_back(*m_read_ptr);
                     m_bytes_read_in_current_chunk++;
                 }
             }
-- 
2.43.0


From ffc6c8c3a6f620d3de6e6f26d682e6e4a0c12036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:45 +0000
Subject: [PATCH 09/76] fix: header values without a leading space could not
 start with a special character

---
 src/http_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 367d0f4..6228533 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -638,7 +638,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             } else if (*m_read_ptr == '\n') {
                 http_msg.add_header(m_header_name, m_header_value);
                 m_headers_parse_state = PARSE_EXPECTING_CR;
-            } else if (!is_char(*m_read_ptr) || is_control(*m_read_ptr) || is_special(*m_read_ptr)) {
+            } else if (*m_read_ptr != '\t' && is_control(*m_read_ptr)) {
                 set_error(ec, ERROR_HEADER_CHAR);
                 return false;
             } else {
-- 
2.43.0


From 8a1e45dc8acac5fdc823795b8bc67b963c3ef63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 10/76] fix: chunk footers were left unread when a payload
 handler is used

---
 src/http_parser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 6228533..219e122 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -89,9 +89,10 @@ boost::tribool parser::parse(http::message& http_msg,
                 rc = parse_chunks(http_msg.get_chunk_cache(), ec);
                 total_bytes_parsed += m_bytes_last_read;
                 // check if we have finished parsing all chunks
-                if (rc == true && !m_payload_handler) {
-                    http_msg.concatenate_chunks();
-                    
+                if (rc == true) {
+                    if (!m_payload_handler)
+                        http_msg.concatenate_chunks();
+
                     // Handle footers if present
                     rc = ((m_message_parse_state == PARSE_FOOTERS) ?
                           boost::indeterminate : (boost::tribool)true);
-- 
2.43.0


From c14323221e6a07087e0b6d56af2bf603a89edcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 11/76] fix: Content-Length accepted signs and a value that
 overflows the buffer size

---
 include/pion/http/message.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 0df5977..f81df27 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -12,6 +12,7 @@
 
 #include <iosfwd>
 #include <vector>
+#include <limits>
 #include <cstring>
 #include <boost/cstdint.hpp>
 #include <boost/asio.hpp>
@@ -321,7 +322,14 @@ public:
         } else {
             std::string trimmed_length(i->second);
             boost::algorithm::trim(trimmed_length);
-            m_content_length = boost::lexical_cast<size_t>(trimmed_length);
+            // lexical_cast() accepts signs, and wraps negative numbers around
+            if (trimmed_length.find_first_not_of("0123456789") != std::string::npos)
+                throw boost::bad_lexical_cast();
+            const size_t new_length = boost::lexical_cast<size_t>(trimmed_length);
+            // the content buffer needs one more byte for its null terminator
+            if (new_length == (std::numeric_limits<size_t>::max)())
+                throw boost::bad_lexical_cast();
+            m_content_length = new_length;
         }
     }
 
-- 
2.43.0


From 32da3aebd29adb2ff50a85b5260fd35e4fc1f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 12/76] fix: request line ending in a space instead of a
 version was rejected

---
 src/http_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 219e122..55824b6 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -365,8 +365,9 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             } else if (*m_read_ptr != 'H') {
                 set_error(ec, ERROR_VERSION_CHAR);
                 return false;
+            } else {
+                m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             }
-            m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             break;
 
         case PARSE_HTTP_VERSION_T_1:
-- 
2.43.0


From 30e9a03abec1d5d6ebcecb9f360571ef1fccad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 13/76] fix: HTTP version numbers and status codes above 65535
 wrapped around

---
 src/http_parser.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 55824b6..8fa15d5 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -421,6 +421,11 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             if (*m_read_ptr == '.') {
                 m_headers_parse_state = PARSE_HTTP_VERSION_MINOR_START;
             } else if (is_digit(*m_read_ptr)) {
+                if (http_msg.get_version_major() > (0xFFFF - (*m_read_ptr - '0')) / 10) {
+                    // does not fit into 16 bits
+                    set_error(ec, ERROR_VERSION_CHAR);
+                    return false;
+                }
                 http_msg.set_version_major( (http_msg.get_version_major() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -461,6 +466,11 @@ boost::tribool parser::parse_headers(http::message& http_msg,
                 }
                 m_headers_parse_state = PARSE_EXPECTING_CR;
             } else if (is_digit(*m_read_ptr)) {
+                if (http_msg.get_version_minor() > (0xFFFF - (*m_read_ptr - '0')) / 10) {
+                    // does not fit into 16 bits
+                    set_error(ec, ERROR_VERSION_CHAR);
+                    return false;
+                }
                 http_msg.set_version_minor( (http_msg.get_version_minor() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -485,6 +495,11 @@ boost::tribool parser::parse_headers(http::message& http_msg,
                 m_status_message.erase();
                 m_headers_parse_state = PARSE_STATUS_MESSAGE;
             } else if (is_digit(*m_read_ptr)) {
+                if (m_status_code > (0xFFFF - (*m_read_ptr - '0')) / 10) {
+                    // does not fit into 16 bits
+                    set_error(ec, ERROR_STATUS_CHAR);
+                    return false;
+                }
                 m_status_code = ( (m_status_code * 10) + (*m_read_ptr - '0') );
             } else if (*m_read_ptr == '\r') {
                 // recover from status message not sent
-- 
2.43.0


From 8ccf4674d01aad24ad257344f8b7e6926b502f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 14/76] fix: multipart field without content used a negative
 length

---
 src/http_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 8fa15d5..ef786ba 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1225,7 +1225,7 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 if (next_ptr) {
                     // don't include CRLF before next boundary
                     const char *temp_ptr = next_ptr - 2;
-                    if (temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
+                    if (temp_ptr >= ptr && temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
                         field_end_ptr = temp_ptr;
                     else field_end_ptr = next_ptr;
                 }
-- 
2.43.0


From abb5840a4dedc315a52f865d1913cb357bf82e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 15/76] fix: ignored multipart header was prepended to the name
 of the next header

---
 src/http_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index ef786ba..eb95f96 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1153,6 +1153,7 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                         parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LAST_LF : MP_PARSE_FIELD_DATA);
                     } else {
                         // premature CR or LF -> just ignore and start parsing next header
+                        header_name.clear();
                         parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LF : MP_PARSE_HEADER_NAME);
                     }
                 } else if (*ptr == ':') {
@@ -1167,9 +1168,11 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 // expecting a space before header value
                 if (*ptr == '\r') {
                     // premature CR -> just ignore and start parsing next header
+                    header_name.clear();
                     parse_state = MP_PARSE_HEADER_LF;
                 } else if (*ptr == '\n') {
                     // premature LF -> just ignore and start parsing next header
+                    header_name.clear();
                     parse_state = MP_PARSE_HEADER_NAME;
                 } else if (*ptr != ' ') {
                     // not a space -> assume it's a value char
-- 
2.43.0


From e71e85469f5d0410046e6702730ffa0507c166ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 16/76] fix: multipart filename parameter was used as field
 name when it comes first

---
 src/http_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index eb95f96..e547bda 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1192,6 +1192,10 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                     } else if (boost::algorithm::iequals(header_name, types::HEADER_CONTENT_DISPOSITION)) {
                         // get current field from content-disposition header
                         std::size_t name_pos = header_value.find("name=\"");
+                        // do not mistake another parameter (i.e. filename) for the field's name
+                        while (name_pos != std::string::npos && name_pos > 0
+                               && header_value[name_pos-1] != ' ' && header_value[name_pos-1] != ';')
+                            name_pos = header_value.find("name=\"", name_pos + 1);
                         if (name_pos != std::string::npos) {
                             for (name_pos += 6; name_pos < header_value.size() && header_value[name_pos] != '\"'; ++name_pos) {
                                 field_name += header_value[name_pos];
-- 
2.43.0


From 888aa99c823539f332d9b4da9bbb06eeb24245cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 17/76] fix: changing the resource of a request left a stale
 first line behind

---
 include/pion/http/request.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/request.hpp b/include/pion/http/request.hpp
index 65b67cd..df0e106 100644
--- a/include/pion/http/request.hpp
+++ b/include/pion/http/request.hpp
@@ -96,7 +96,10 @@ public:
     }
 
     /// changes the resource or uri-stem to be delivered (called as the result of a redirect)
-    inline void change_resource(const std::string& str) { m_resource = str; }
+    inline void change_resource(const std::string& str) {
+        m_resource = str;
+        clear_first_line();
+    }
 
     /// sets the uri-query or query string requested
     inline void set_query_string(const std::string& str) {
-- 
2.43.0


From e39cbff3f7b958f3276fad47d0e5a73185c926c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 18/76] fix: assigning a message to itself destroyed its
 content

---
 include/pion/http/message.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index f81df27..1765080 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -526,6 +526,8 @@ protected:
 
         /// assignment operator
         content_buffer_t& operator=(const content_buffer_t& buf) {
+            if (&buf == this)
+                return *this;
             if (buf.size()) {
                 resize(buf.size());
                 memcpy(get(), buf.get(), buf.size());
-- 
2.43.0


From f4503b84c38d72bb131456ce4c480c987bd6c032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:58 +0000
Subject: [PATCH 19/76] fix: the close connection option was only recognized in
 lower case

---
 include/pion/http/message.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 1765080..46bf074 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -19,6 +19,7 @@
 #include <boost/scoped_array.hpp>
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string/trim.hpp>
+#include <boost/algorithm/string/predicate.hpp>
 #include <boost/regex.hpp>
 #include <pion/config.hpp>
 #include <pion/http/types.hpp>
@@ -387,7 +388,7 @@ public:
 
     /// returns true if the HTTP connection may be kept alive
     inline bool check_keep_alive(void) const {
-        return (get_header(HEADER_CONNECTION) != "close"
+        return (! boost::algorithm::iequals(get_header(HEADER_CONNECTION), "close")
                 && (get_version_major() > 1
                     || (get_version_major() >= 1 && get_version_minor() >= 1)) );
     }
-- 
2.43.0


From 30b9bfbf41047cb407f098fc99c15ca37bac1a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:57 +0000
Subject: [PATCH 20/76] fix: parse_uri wrapped port numbers that are negative
 or above 65535

---
 src/http_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index e547bda..3fc134b 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -891,7 +891,11 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     // parse the port, if it's not empty
     if(port_pos != std::string::npos) {
         try {
-            port = boost::lexical_cast<int>(t.substr(port_pos+1));
+            const std::string port_str(t.substr(port_pos+1));
+            const unsigned int port_num = boost::lexical_cast<unsigned int>(port_str);
+            if (port_num > 0xFFFF || ! is_digit(port_str[0]))
+                return false;
+            port = static_cast<boost::uint16_t>(port_num);
         } catch (boost::bad_lexical_cast &) {
             return false;
         }
-- 
2.43.0


From f41d0e1de17550ca3a28f5098c7c764b96f30d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:57 +0000
Subject: [PATCH 21/76] fix: parse_uri left the previous query string in place
 if there is no path

---
 src/http_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 3fc134b..fee7a9b 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -873,6 +873,7 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     if (server_port_end == std::string::npos) {
         // no path -> use just /
         path = "/";
+        query.clear();
         server_port_end = uri.size();
     }
     
-- 
2.43.0


From 3c1b785fcc6bc7590eac4003a4ab4ad71c69210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:57 +0000
Subject: [PATCH 22/76] fix: parse_uri mistook :// within the path or query
 string for the end of the protocol

---
 src/http_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index fee7a9b..1f33684 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -860,7 +860,8 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     size_t proto_end = uri.find("://");
     size_t proto_len = 0;
     
-    if(proto_end != std::string::npos) {
+    // "://" within the path or query string does not end a protocol
+    if(proto_end != std::string::npos && uri.find_first_of("/?") > proto_end) {
         proto = uri.substr(0, proto_end);
         proto_len = proto_end + 3; // add ://
     } else {
-- 
2.43.0


From 5aa9e9ae6451d5e62eea37c4885b40734ce81673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:57 +0000
Subject: [PATCH 23/76] fix: a malformed password hash was accepted or left the
 user with corrupt credentials

---
 include/pion/user.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pion/user.hpp b/include/pion/user.hpp
index 761b4de..8156ef2 100644
--- a/include/pion/user.hpp
+++ b/include/pion/user.hpp
@@ -112,6 +112,10 @@ public:
 #ifdef PION_HAVE_SSL
     /// sets encrypted password credentials for given user
     virtual void set_password_hash(const std::string& password_hash) {
+        // only hexadecimal digits can be converted
+        if (password_hash.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+            BOOST_THROW_EXCEPTION( error::bad_password_hash() );
+
         // update password string representation
         if (password_hash.size() == SHA256_DIGEST_LENGTH * 2) {
             m_password_hash_type = SHA_256;
-- 
2.43.0


From aae6c949c73be3963c5e308e7aedab7576b0d4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:58 +0000
Subject: [PATCH 24/76] fix: the SPDY parser read past the end of short
 packets, frames and header blocks

---
 include/pion/spdy/decompressor.hpp |  5 +++
 include/pion/spdy/parser.hpp       |  9 +++++
 src/spdy_decompressor.cpp          |  4 +-
 src/spdy_parser.cpp                | 64 +++++++++++++++++++++++++++---
 4 files changed, 76 insertions(+), 6 deletions(-)

diff --git a/include/pion/spdy/decompressor.hpp b/include/pion/spdy/decompressor.hpp
index eb88a6d..9e78b11 100644
--- a/include/pion/spdy/decompressor.hpp
+++ b/include/pion/spdy/decompressor.hpp
@@ -52,6 +52,8 @@ public:
                      const spdy_control_frame_info& frame,
                      boost::uint32_t header_block_length);
 
+    /// returns the length of the data last uncompressed
+    inline boost::uint32_t get_uncompressed_length(void) const { return m_uncompressed_length; }
     
 protected:
 
@@ -77,6 +79,9 @@ private:
     /// dictionary identifier
     boost::uint32_t                     m_dictionary_id;
     
+    /// length of the data last uncompressed
+    boost::uint32_t                     m_uncompressed_length;
+    
     /// Used for decompressing spdy headers
     boost::uint8_t                      m_uncompressed_header[MAX_UNCOMPRESSED_DATA_BUF_SIZE];
 
diff --git a/include/pion/spdy/parser.hpp b/include/pion/spdy/parser.hpp
index ce38e67..929c2ae 100644
--- a/include/pion/spdy/parser.hpp
+++ b/include/pion/spdy/parser.hpp
@@ -51,6 +51,12 @@ public:
         ERROR_MISSING_HEADER_DATA
     };
     
+    /// data size constants
+    enum data_size_t {
+        /// number of bytes that precede the payload of every frame
+        SPDY_FRAME_HEADER_SIZE = 8
+    };
+    
     /// class-specific error category
     class error_category_t
         : public boost::system::error_category
@@ -236,6 +242,9 @@ private:
     /// SPDY has interleaved frames and this will point to start of the the last chunk data
     const char *                        m_last_data_chunk_ptr;
     
+    /// points to the end of the current frame, or of the packet if that comes first
+    const char *                        m_frame_end_ptr;
+    
     /// primary logging interface used by this class
     mutable logger                      m_logger;
     
diff --git a/src/spdy_decompressor.cpp b/src/spdy_decompressor.cpp
index d1b4152..eb21775 100644
--- a/src/spdy_decompressor.cpp
+++ b/src/spdy_decompressor.cpp
@@ -40,7 +40,8 @@ const char decompressor::SPDY_ZLIB_DICTIONARY[] =
 // decompressor member functions
 
 decompressor::decompressor()
-    : m_request_zstream(NULL), m_response_zstream(NULL)
+    : m_request_zstream(NULL), m_response_zstream(NULL),
+    m_dictionary_id(0), m_uncompressed_length(0)
 {
     m_request_zstream = (z_streamp)malloc(sizeof(z_stream));
     BOOST_ASSERT(m_request_zstream);
@@ -125,6 +126,7 @@ char* decompressor::decompress(const char *compressed_data_ptr,
         // No need to call SetError()
         return NULL;
     }
+    m_uncompressed_length = uncomp_length;
     return reinterpret_cast<char*>(m_uncompressed_header);
 }
 
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 172c83c..40582fb 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -51,6 +51,7 @@ parser::parser()
     m_uncompressed_ptr(NULL),
     m_current_data_chunk_ptr(NULL),
     m_last_data_chunk_ptr(NULL),
+    m_frame_end_ptr(NULL),
     m_logger(PION_GET_LOGGER("pion.spdy.parser"))
 {}
 
@@ -150,6 +151,13 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     // Verify that this is a spdy frame
     
     BOOST_ASSERT(m_read_ptr);
+
+    if (length_packet == 0) {
+        // There is nothing to parse yet
+        ec.clear();
+        return boost::indeterminate;
+    }
+
     boost::uint8_t first_byte = (boost::uint8_t)*m_read_ptr;
     if (first_byte != 0x80 && first_byte != 0x0) {
         // This is not a SPDY frame, throw an error
@@ -164,6 +172,18 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     
     ec.clear();
 
+    if (length_packet < SPDY_FRAME_HEADER_SIZE) {
+        // The header of the frame is not complete yet
+        if (first_byte == 0x80 && length_packet >= 4
+            && algorithm::to_uint16(m_read_ptr + 2) >= SPDY_INVALID)
+        {
+            PION_LOG_ERROR(m_logger, "Invalid SPDY Frame");
+            set_error(ec, ERROR_INVALID_SPDY_FRAME);
+            return false;
+        }
+        return boost::indeterminate;
+    }
+
     // Populate the frame
     bool populate_frame_result = populate_frame(ec, frame, length_packet, stream_id, http_info);
     
@@ -172,10 +192,11 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
         return false;
     }
     
-    BOOST_ASSERT(stream_id != 0);
-    
     control_bit = (boost::uint8_t)frame.control_bit;
     
+    // The part of the frame's payload that is available within the packet
+    m_frame_end_ptr = m_read_ptr + (length_packet < frame.length ? length_packet : frame.length);
+    
     // There is a possibility that there are more than one SPDY frames in one TCP frame
     if(length_packet > frame.length){
         m_current_data_chunk_ptr = m_read_ptr + frame.length;
@@ -337,7 +358,7 @@ bool parser::populate_frame(boost::system::error_code& ec,
     
     http_info.data_size = frame.length;
     
-    if(control_bit){
+    if(control_bit && length_packet >= 4){
         four_bytes = algorithm::to_uint32(m_read_ptr);
         stream_id = four_bytes & 0x7FFFFFFF;
     }
@@ -353,6 +374,14 @@ void parser::parse_header_payload(boost::system::error_code &ec,
 {
     boost::uint32_t stream_id = 0;
     boost::uint32_t header_block_length = frame.length;
+    const boost::uint32_t fixed_length = (frame.type == SPDY_SYN_STREAM) ? 10 : 6;
+    
+    // The whole header block has to be available
+    if (frame.length < fixed_length || boost::uint32_t(m_frame_end_ptr - m_read_ptr) < frame.length) {
+        PION_LOG_ERROR(m_logger, "Incomplete SPDY header block");
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
     
     // Get the 31 bit stream id
     
@@ -417,9 +446,15 @@ void parser::parse_header_payload(boost::system::error_code &ec,
     // and it is 32 bit in SPDYv3
     
     // TBD : Add support for SPDYv3
+    boost::uint32_t bytes_left = decompressor->get_uncompressed_length();
+    if (bytes_left < 2) {
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
     boost::uint16_t num_name_val_pairs = algorithm::to_uint16(m_uncompressed_ptr);
     
     m_uncompressed_ptr += 2;
+    bytes_left -= 2;
     
     std::string content_type = "";
     std::string content_encoding = "";
@@ -428,16 +463,28 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         
         // Get the length of the name
+        if (bytes_left < 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         boost::uint16_t length_name = algorithm::to_uint16(m_uncompressed_ptr);
         std::string name = "";
         
         m_uncompressed_ptr += 2;
+        bytes_left -= 2;
+        
+        // The name is followed by the length of the value
+        if (bytes_left < length_name + 2U) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         
         {
             for(boost::uint16_t count = 0; count < length_name; ++count){
                 name.push_back(*(m_uncompressed_ptr+count));
             }
             m_uncompressed_ptr += length_name;
+            bytes_left -= length_name;
         }
         
         // Get the length of the value
@@ -445,12 +492,19 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         std::string value = "";
         
         m_uncompressed_ptr += 2;
+        bytes_left -= 2;
+        
+        if (bytes_left < length_value) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         
         {
             for(boost::uint16_t count = 0; count < length_value; ++count){
                 value.push_back(*(m_uncompressed_ptr+count));
             }
             m_uncompressed_ptr += length_value;
+            bytes_left -= length_value;
         }
         
         // Save these headers
@@ -476,7 +530,7 @@ void parser::parse_spdy_rst_stream(boost::system::error_code& /* ec */,
     
     // First complete the check for size and flag
     // The flag for RST frame should be 0, The length should be 8
-    if(frame.flags != 0 || frame.length != 8 ){
+    if(frame.flags != 0 || frame.length != 8 || m_frame_end_ptr - m_read_ptr < 8){
         return;
     }
 
@@ -500,7 +554,7 @@ void parser::parse_spdy_ping_frame(boost::system::error_code& /* ec */,
 {
     // First complete the check for size 
     // The length should be 4 always
-    if(frame.length != 4){
+    if(frame.length != 4 || m_frame_end_ptr - m_read_ptr < 4){
         return;
     }
   
-- 
2.43.0


From 68c956f82c863f96ec7d96f0f8e330d15263cdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:58 +0000
Subject: [PATCH 25/76] fix: a SPDY GOAWAY frame took its status code from the
 bytes that follow it

---
 src/spdy_parser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 40582fb..c29afc6 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -580,8 +580,10 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
                                      const spdy_control_frame_info& frame)
 {
     // First complete the check for size
-    // The length should be 4 always
-    if(frame.length != 4){
+    // The length is 4 (stream id only) or 8 (stream id and status code)
+    if((frame.length != 4 && frame.length != 8)
+       || boost::uint32_t(m_frame_end_ptr - m_read_ptr) < frame.length)
+    {
         return;
     }
     
@@ -590,6 +592,11 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
     // Ignore the 31 bit stream id
     m_read_ptr += 4;
     
+    if(frame.length == 4){
+        // There is no status code
+        return;
+    }
+    
     // Get the status code
     
     status_code = algorithm::to_uint32(m_read_ptr);
-- 
2.43.0


From 366bc7bc498487fc6f7f7d21a295e69eb1f8476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:38 +0000
Subject: [PATCH 26/76] fix: a scheduler user that registers during shutdown
 was left with a stopped scheduler

---
 src/scheduler.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ee35f84..1127dff 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -87,9 +87,17 @@ void scheduler::keep_running(boost::asio::io_service& my_service,
 
 void scheduler::add_active_user(void)
 {
-    if (!m_is_running) startup();
-    boost::mutex::scoped_lock scheduler_lock(m_mutex);
-    ++m_active_users;
+    // register first, so that shutdown() cannot stop the scheduler in between
+    {
+        boost::mutex::scoped_lock scheduler_lock(m_mutex);
+        ++m_active_users;
+    }
+    try {
+        if (!m_is_running) startup();
+    } catch (...) {
+        remove_active_user();
+        throw;
+    }
 }
 
 void scheduler::remove_active_user(void)
-- 
2.43.0


From c49934a72a6f8774a496a20057d5e4959b2b3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:38 +0000
Subject: [PATCH 27/76] fix: one_to_one_scheduler deadlocked if work posted
 more work during shutdown

---
 include/pion/scheduler.hpp | 12 ++++++++++--
 src/scheduler.cpp          |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index bc2369b..cdf5f88 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -298,7 +298,8 @@ public:
     
     /// returns an async I/O service used to schedule work
     virtual boost::asio::io_service& get_io_service(void) {
-        boost::mutex::scoped_lock scheduler_lock(m_mutex);
+        // note: shutdown() holds m_mutex while it waits for threads that may need a service
+        boost::mutex::scoped_lock service_lock(m_service_mutex);
         while (m_service_pool.size() < m_num_threads) {
             boost::shared_ptr<service_pair_type>  service_ptr(new service_pair_type());
             m_service_pool.push_back(service_ptr);
@@ -329,13 +330,17 @@ protected:
     
     /// stops all services used to schedule work
     virtual void stop_services(void) {
+        boost::mutex::scoped_lock service_lock(m_service_mutex);
         for (service_pool_type::iterator i = m_service_pool.begin(); i != m_service_pool.end(); ++i) {
             (*i)->first.stop();
         }
     }
         
     /// finishes all services used to schedule work
-    virtual void finish_services(void) { m_service_pool.clear(); }
+    virtual void finish_services(void) {
+        boost::mutex::scoped_lock service_lock(m_service_mutex);
+        m_service_pool.clear();
+    }
     
 
     /// typedef for a pair object where first is an IO service and second is a deadline timer
@@ -349,6 +354,9 @@ protected:
     typedef std::vector<boost::shared_ptr<service_pair_type> >        service_pool_type;
 
     
+    /// mutex used to protect the pool of IO services
+    boost::mutex        m_service_mutex;
+
     /// pool of IO services used to schedule work
     service_pool_type   m_service_pool;
 
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 1127dff..afe21dd 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -162,6 +162,8 @@ void one_to_one_scheduler::startup(void)
         PION_LOG_INFO(m_logger, "Starting thread scheduler");
         m_is_running = true;
         
+        boost::mutex::scoped_lock service_lock(m_service_mutex);
+
         // make sure there are enough services initialized
         while (m_service_pool.size() < m_num_threads) {
             boost::shared_ptr<service_pair_type>  service_ptr(new service_pair_type());
-- 
2.43.0


From 0a3385a26a64149e318f1a95cef9b15daf4c5721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:38 +0000
Subject: [PATCH 28/76] fix: single_service_scheduler kept cancelling its own
 timer after a restart

---
 include/pion/scheduler.hpp | 11 +++++++++++
 src/scheduler.cpp          | 12 +++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index cdf5f88..782b0e7 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -144,6 +144,17 @@ protected:
     static boost::system_time get_wakeup_time(boost::uint32_t sleep_sec,
         boost::uint32_t sleep_nsec);
 
+    /**
+     * called when the timer used to keep the io_service running has expired
+     *
+     * @param timer_error set if the timer was cancelled
+     * @param my_service IO service used to re-schedule keep_running()
+     * @param my_timer deadline timer used to keep the IO service active while running
+     */
+    void handle_keep_running(const boost::system::error_code& timer_error,
+                             boost::asio::io_service& my_service,
+                             boost::asio::deadline_timer& my_timer);
+
     /// stops all services used to schedule work
     virtual void stop_services(void) {}
     
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index afe21dd..564ae23 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -80,11 +80,21 @@ void scheduler::keep_running(boost::asio::io_service& my_service,
     if (m_is_running) {
         // schedule this again to make sure the service doesn't complete
         my_timer.expires_from_now(boost::posix_time::seconds(KEEP_RUNNING_TIMER_SECONDS));
-        my_timer.async_wait(boost::bind(&scheduler::keep_running, this,
+        my_timer.async_wait(boost::bind(&scheduler::handle_keep_running, this,
+                                        boost::asio::placeholders::error,
                                         boost::ref(my_service), boost::ref(my_timer)));
     }
 }
 
+void scheduler::handle_keep_running(const boost::system::error_code& timer_error,
+                                    boost::asio::io_service& my_service,
+                                    boost::asio::deadline_timer& my_timer)
+{
+    // a wait that was cancelled has already been replaced by another one
+    if (! timer_error)
+        keep_running(my_service, my_timer);
+}
+
 void scheduler::add_active_user(void)
 {
     // register first, so that shutdown() cannot stop the scheduler in between
-- 
2.43.0


From df227db7554c6566366fbb1cce54fe66da633bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 29/76] fix: opening a loaded plug-in with a handle that is in
 use deadlocked

---
 src/plugin.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index ab18041..3b080ba 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -85,17 +85,23 @@ void plugin::reset_plugin_directories(void)
 void plugin::open(const std::string& plugin_name)
 {
     // check first if name matches an existing plugin name
+    data_type *existing_data = NULL;
     {
         config_type& cfg = get_plugin_config();
         boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
         map_type::iterator itr = cfg.m_plugin_map.find(plugin_name);
         if (itr != cfg.m_plugin_map.end()) {
-            release_data();  // make sure we're not already pointing to something
-            m_plugin_data = itr->second;
-            ++ m_plugin_data->m_references;
-            return;
+            existing_data = itr->second;
+            ++ existing_data->m_references;
         }
     }
+    if (existing_data != NULL) {
+        // make sure we're not already pointing to something
+        // (note that this locks the mutex as well)
+        release_data();
+        m_plugin_data = existing_data;
+        return;
+    }
     
     // nope, look for shared library file
     std::string plugin_file;
-- 
2.43.0


From 8a48caf68926bf361cae18771c734d2b52feb60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 30/76] fix: assigning a plug-in handle to itself closed it

---
 src/plugin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index 3b080ba..e38c9f5 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -173,6 +173,8 @@ void plugin::release_data(void)
 
 void plugin::grab_data(const plugin& p)
 {
+    if (this == &p)
+        return;
     release_data();  // make sure we're not already pointing to something
     config_type& cfg = get_plugin_config();
     boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
-- 
2.43.0


From 4c0e4a3dcb44444023793661e255df454e31ec43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 31/76] fix: plugin_instance_ptr destroyed its instance again
 after reset

---
 include/pion/plugin.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pion/plugin.hpp b/include/pion/plugin.hpp
index 8efd424..82105f8 100644
--- a/include/pion/plugin.hpp
+++ b/include/pion/plugin.hpp
@@ -366,7 +366,9 @@ public:
     /// reset the instance pointer
     inline void reset(void) { 
         if (m_instance_ptr) {
-            m_plugin_ptr.destroy(m_instance_ptr);
+            InterfaceClassType *instance_ptr = m_instance_ptr;
+            m_instance_ptr = NULL;
+            m_plugin_ptr.destroy(instance_ptr);
         }
     }
     
-- 
2.43.0


From a2646135dcd23894f94a9223143ebf5a71cbf468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:27 +0000
Subject: [PATCH 32/76] fix: loading the same plug-in identifier from two
 threads leaked an object

---
 include/pion/plugin_manager.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 80ee545..eda50c4 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -240,7 +240,7 @@ inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id
                                                      const std::string& plugin_type)
 {
     // search for the plug-in file using the configured paths
-    if (m_plugin_map.find(plugin_id) != m_plugin_map.end())
+    if (get(plugin_id) != NULL)
         BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
     
     // open up the plug-in's shared object library
@@ -252,8 +252,14 @@ inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id
     
     // add the new plug-in object to our map
     boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
-    m_plugin_map.insert(std::make_pair(plugin_id,
-                                       std::make_pair(plugin_object_ptr, plugin_ptr)));
+    if (! m_plugin_map.insert(std::make_pair(plugin_id,
+                                             std::make_pair(plugin_object_ptr, plugin_ptr))).second)
+    {
+        // another thread has added the same identifier in the meantime
+        plugins_lock.unlock();
+        plugin_ptr.destroy(plugin_object_ptr);
+        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    }
 
     return plugin_object_ptr;
 }
-- 
2.43.0


From dbebb6434701b13b50286a68bf86d55d2461ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:07 +0000
Subject: [PATCH 33/76] fix: plugin_manager::find missed a matching identifier
 that sorts before others

---
 include/pion/plugin_manager.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index eda50c4..3b0517d 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -314,19 +314,10 @@ inline PluginType *plugin_manager<PluginType>::find(const std::string& resource)
     while (i != m_plugin_map.begin()) {
         --i;
         
-        // keep checking while the first part of the strings match
-        if (resource.compare(0, i->first.size(), i->first) != 0) {
-            // the first part no longer matches
-            if (i != m_plugin_map.begin()) {
-                // continue to next plug-in in list if its size is < this one
-                typename pion::plugin_manager<PluginType>::map_type::iterator j=i;
-                --j;
-                if (j->first.size() < i->first.size())
-                    continue;
-            }
-            // otherwise we've reached the end; stop looking for a match
-            break;
-        }
+        // skip identifiers that are not the first part of the resource
+        // (a shorter one that matches may still precede them)
+        if (resource.compare(0, i->first.size(), i->first) != 0)
+            continue;
         
         // only if the resource matches the plug-in's identifier
         // or if resource is followed first with a '/' character
-- 
2.43.0


From e25a53d2abac845a0a93efe108a89c218b61b3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:07 +0000
Subject: [PATCH 34/76] fix: redirects were looked up without holding the lock
 that guards them

---
 src/http_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index ccfac53..661111e 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -67,10 +67,12 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
     std::string resource_requested(strip_trailing_slash(http_request_ptr->get_resource()));
 
     // apply any redirection
+    boost::mutex::scoped_lock resource_lock(m_resource_mutex);
     redirect_map_t::const_iterator it = m_redirects.find(resource_requested);
     unsigned int num_redirects = 0;
     while (it != m_redirects.end()) {
         if (++num_redirects > MAX_REDIRECTS) {
+            resource_lock.unlock();
             PION_LOG_ERROR(m_logger, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource: " << http_request_ptr->get_original_resource());
             m_server_error_handler(http_request_ptr, tcp_conn, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource");
             return;
@@ -79,6 +81,7 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
         http_request_ptr->change_resource(resource_requested);
         it = m_redirects.find(resource_requested);
     }
+    resource_lock.unlock();
 
     // if authentication activated, check current request
     if (m_auth_ptr) {
-- 
2.43.0


From 2126a843144efdb8b541542d5fc2484b88abd888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:07 +0000
Subject: [PATCH 35/76] fix: reading a response into a message forgot that the
 request method was HEAD

---
 include/pion/http/message.hpp  | 3 +++
 include/pion/http/response.hpp | 8 ++++++++
 src/http_message.cpp           | 4 ++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 46bf074..1b1b15e 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -164,6 +164,9 @@ public:
         m_has_data_after_missing = false;
     }
 
+    /// clears the message before a new one is read into it
+    virtual void clear_for_read(void) { clear(); }
+
     /// should return true if the content length can be implied without headers
     virtual bool is_content_length_implied(void) const = 0;
 
diff --git a/include/pion/http/response.hpp b/include/pion/http/response.hpp
index f1d0bcf..ca080bb 100644
--- a/include/pion/http/response.hpp
+++ b/include/pion/http/response.hpp
@@ -77,6 +77,14 @@ public:
         m_request_method.clear();
     }
 
+    /// clears the response before a new one is read into it; keeps the
+    /// request method, since response parsing is influenced by it
+    virtual void clear_for_read(void) {
+        const std::string request_method(m_request_method);
+        clear();
+        m_request_method = request_method;
+    }
+
     /// the content length may be implied for certain types of responses
     virtual bool is_content_length_implied(void) const {
         return (m_request_method == REQUEST_METHOD_HEAD             // HEAD responses have no content
diff --git a/src/http_message.cpp b/src/http_message.cpp
index eabf212..dbcf13e 100644
--- a/src/http_message.cpp
+++ b/src/http_message.cpp
@@ -52,7 +52,7 @@ std::size_t message::receive(tcp::connection& tcp_conn,
     std::size_t last_bytes_read = 0;
 
     // make sure that we start out with an empty message
-    clear();
+    clear_for_read();
 
     if (tcp_conn.get_pipelined()) {
         // there are pipelined messages available in the connection's read buffer
@@ -186,7 +186,7 @@ std::size_t message::read(std::istream& in,
                           parser& http_parser)
 {
     // make sure that we start out with an empty message & clear error_code
-    clear();
+    clear_for_read();
     ec.clear();
     
     // parse data from file one byte at a time
-- 
2.43.0


From 6b0af18d600e4299c5c0b322608801b9f7413d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:19 +0000
Subject: [PATCH 36/76] fix: cookies were repeated each time the same message
 was sent

---
 include/pion/http/message.hpp  | 20 ++++++++++++++++++++
 include/pion/http/request.hpp  |  2 +-
 include/pion/http/response.hpp |  2 +-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 1b1b15e..da7449f 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -413,6 +413,7 @@ public:
         write_buffers.push_back(boost::asio::buffer(get_first_line()));
         write_buffers.push_back(boost::asio::buffer(STRING_CRLF));
         // append cookie headers (if any)
+        m_cookie_headers.clear();
         append_cookie_headers();
         // append HTTP headers
         append_headers(write_buffers);
@@ -607,6 +608,13 @@ protected:
             write_buffers.push_back(boost::asio::buffer(i->second));
             write_buffers.push_back(boost::asio::buffer(STRING_CRLF));
         }
+        // add headers for cookies
+        for (cookie_headers_t::const_iterator i = m_cookie_headers.begin(); i != m_cookie_headers.end(); ++i) {
+            write_buffers.push_back(boost::asio::buffer(i->first));
+            write_buffers.push_back(boost::asio::buffer(HEADER_NAME_VALUE_DELIMITER));
+            write_buffers.push_back(boost::asio::buffer(i->second));
+            write_buffers.push_back(boost::asio::buffer(STRING_CRLF));
+        }
         // add an extra CRLF to end HTTP headers
         write_buffers.push_back(boost::asio::buffer(STRING_CRLF));
     }
@@ -614,6 +622,12 @@ protected:
     /// appends HTTP headers for any cookies defined by the http::message
     virtual void append_cookie_headers(void) {}
 
+    /// adds a header for a cookie to the message being sent, without changing
+    /// the message's own headers (the message may be sent more than once)
+    inline void append_cookie_header(const std::string& name, const std::string& value) {
+        m_cookie_headers.push_back(std::make_pair(name, value));
+    }
+
     /**
      * Returns the first value in a dictionary if key is found; or an empty
      * string if no values are found
@@ -697,6 +711,9 @@ protected:
 
 private:
 
+    /// data type for the headers (name and value) generated for cookies
+    typedef std::vector<std::pair<std::string, std::string> >  cookie_headers_t;
+
     /// Regex used to check for the "chunked" transfer encoding header
     static const boost::regex       REGEX_ICASE_CHUNKED;
 
@@ -736,6 +753,9 @@ private:
     /// HTTP cookie parameters parsed from the headers
     ihash_multimap                  m_cookie_params;
 
+    /// headers for the cookies of the message being sent
+    cookie_headers_t                m_cookie_headers;
+
     /// message data integrity status
     data_status_t                   m_status;
 
diff --git a/include/pion/http/request.hpp b/include/pion/http/request.hpp
index df0e106..a91b067 100644
--- a/include/pion/http/request.hpp
+++ b/include/pion/http/request.hpp
@@ -189,7 +189,7 @@ protected:
             cookie_header = i->first;
             cookie_header += COOKIE_NAME_VALUE_DELIMITER;
             cookie_header += i->second;
-            add_header(HEADER_COOKIE, cookie_header);
+            append_cookie_header(HEADER_COOKIE, cookie_header);
         }
     }
 
diff --git a/include/pion/http/response.hpp b/include/pion/http/response.hpp
index ca080bb..f034ef7 100644
--- a/include/pion/http/response.hpp
+++ b/include/pion/http/response.hpp
@@ -223,7 +223,7 @@ protected:
     /// appends HTTP headers for any cookies defined by the http::message
     virtual void append_cookie_headers(void) {
         for (ihash_multimap::const_iterator i = get_cookies().begin(); i != get_cookies().end(); ++i) {
-            set_cookie(i->first, i->second);
+            append_cookie_header(HEADER_SET_COOKIE, make_set_cookie_header(i->first, i->second, "/"));
         }
     }
 
-- 
2.43.0


From 9760e4b27df1f355bc38ccae704f13014a4f5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:50 +0000
Subject: [PATCH 37/76] fix: a message received with chunked encoding was
 passed on with the wrong framing

---
 include/pion/http/message.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index da7449f..33ff5db 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -588,9 +588,12 @@ protected:
     {
         change_header(HEADER_CONNECTION, (keep_alive ? "Keep-Alive" : "close") );
         if (using_chunks) {
+            delete_header(HEADER_CONTENT_LENGTH);
             if (get_chunks_supported())
                 change_header(HEADER_TRANSFER_ENCODING, "chunked");
         } else if (! m_do_not_send_content_length) {
+            // the content is not chunked, even if it was when it was received
+            delete_header(HEADER_TRANSFER_ENCODING);
             change_header(HEADER_CONTENT_LENGTH, boost::lexical_cast<std::string>(get_content_length()));
         }
     }
-- 
2.43.0


From 1ca93fae6204d1aad3ecf1fa6bc1e4d246b8f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:46 +0000
Subject: [PATCH 38/76] fix: missing content was not counted or left
 uninitialized bytes in the content buffer

---
 src/http_parser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 1f33684..606822b 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -197,15 +197,14 @@ boost::tribool parser::parse_missing_data(http::message& http_msg,
                 if (m_payload_handler) {
                     for (std::size_t n = 0; n < len; ++n)
                         m_payload_handler(&MISSING_DATA_CHAR, 1);
-                } else if ( (m_bytes_content_read+len) <= m_max_content_length) {
-                    // use dummy content for missing data
-                    for (std::size_t n = 0; n < len; ++n)
-                        http_msg.get_content()[m_bytes_content_read++] = MISSING_DATA_CHAR;
                 } else {
-                    m_bytes_content_read += len;
+                    // use dummy content for missing data
+                    for (std::size_t n = 0; n < len && (m_bytes_content_read+n) < m_max_content_length; ++n)
+                        http_msg.get_content()[m_bytes_content_read+n] = MISSING_DATA_CHAR;
                 }
 
                 m_bytes_content_remaining -= len;
+                m_bytes_content_read += len;
                 m_bytes_total_read += len;
                 m_bytes_last_read = len;
 
-- 
2.43.0


From 1c9b57ae91cbd59a64e66180a635750c36ff316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:17 +0000
Subject: [PATCH 39/76] fix: service configuration: do not ignore a last line
 without line end

---
 src/http_plugin_server.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index be729b0..9c9df02 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -76,7 +76,14 @@ void plugin_server::load_service_config(const std::string& config_name)
     std::string option_value_string;
     int c = config_stream.get();    // read the first character
     
-    while (config_stream) {
+    bool end_of_file = false;
+    while (! end_of_file) {
+        if (! config_stream) {
+            // the end of the file also ends the last line
+            end_of_file = true;
+            c = '\n';
+        }
+
         switch(parse_state) {
         case PARSE_NEWLINE:
             // parsing command portion (or beginning of line)
-- 
2.43.0


From a890ca252cbcf1c09460eece869b4dea4f2e6890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:08 +0000
Subject: [PATCH 40/76] fix: do not send message content that is not in memory
 or not allowed

---
 include/pion/http/message.hpp | 7 +++++++
 src/http_message.cpp          | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 33ff5db..7ea8be6 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -214,6 +214,13 @@ public:
     /// returns a const pointer to the payload content, or empty string if there is none
     inline const char *get_content(void) const { return m_content_buf.get(); }
 
+    /// returns true if there is payload content in memory that may be sent
+    inline bool has_content_to_send(void) const {
+        return get_content_length() > 0
+            && m_content_buf.size() >= get_content_length()
+            && ! is_content_length_implied();
+    }
+
     /// returns a reference to the chunk cache
     inline chunk_cache_t& get_chunk_cache(void) { return m_chunk_cache; }
 
diff --git a/src/http_message.cpp b/src/http_message.cpp
index dbcf13e..0d500f7 100644
--- a/src/http_message.cpp
+++ b/src/http_message.cpp
@@ -38,7 +38,7 @@ std::size_t message::send(tcp::connection& tcp_conn,
     prepare_buffers_for_send(write_buffers, tcp_conn.get_keep_alive(), false);
 
     // append payload content to write buffers (if there is any)
-    if (!headers_only && get_content_length() > 0 && get_content() != NULL)
+    if (!headers_only && has_content_to_send())
         write_buffers.push_back(boost::asio::buffer(get_content(), get_content_length()));
 
     // send the message and return the result
@@ -162,7 +162,7 @@ std::size_t message::write(std::ostream& out,
     prepare_buffers_for_send(write_buffers, true, false);
 
     // append payload content to write buffers (if there is any)
-    if (!headers_only && get_content_length() > 0 && get_content() != NULL)
+    if (!headers_only && has_content_to_send())
         write_buffers.push_back(boost::asio::buffer(get_content(), get_content_length()));
 
     // write message to the output stream
-- 
2.43.0


From 7179a47af4f0e556fac0eab0b0e084dd2a58340d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:08 +0000
Subject: [PATCH 41/76] fix: writers send the content of a message also if its
 first byte is zero

---
 include/pion/http/request_writer.hpp  | 4 +---
 include/pion/http/response_writer.hpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index a8a06e1..0c0e7f1 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -100,9 +100,7 @@ protected:
         set_logger(PION_GET_LOGGER("pion.http.request_writer"));
         // check if we should initialize the payload content using
         // the request's content buffer
-        if (m_http_request->get_content_length() > 0
-            && m_http_request->get_content() != NULL
-            && m_http_request->get_content()[0] != '\0')
+        if (m_http_request->has_content_to_send())
         {
             write_no_copy(m_http_request->get_content(),
                         m_http_request->get_content_length());
diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index d24af9d..b321c68 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -93,9 +93,7 @@ protected:
         supports_chunked_messages(m_http_response->get_chunks_supported());
         // check if we should initialize the payload content using
         // the response's content buffer
-        if (m_http_response->get_content_length() > 0
-            && m_http_response->get_content() != NULL
-            && m_http_response->get_content()[0] != '\0')
+        if (m_http_response->has_content_to_send())
         {
             write_no_copy(m_http_response->get_content(), m_http_response->get_content_length());
         }
-- 
2.43.0


From f4b9b846045fb74e8574db44d443818cc4b86c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:52 +0000
Subject: [PATCH 42/76] fix: response_writer: do not send content where HTTP
 forbids it (HEAD, 1xx, 204, 205, 304)

---
 include/pion/http/response_writer.hpp | 7 +++++++
 include/pion/http/writer.hpp          | 3 +++
 src/http_writer.cpp                   | 6 ++++--
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index b321c68..48bdbe4 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -124,11 +124,18 @@ protected:
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) {
         if (get_content_length() > 0)
             m_http_response->set_content_length(get_content_length());
+        if (m_http_response->get_status_code() == 205)
+            m_http_response->set_content_length(0); // reset content has no content
         m_http_response->prepare_buffers_for_send(write_buffers,
                                                get_connection()->get_keep_alive(),
                                                sending_chunked_message());
     }   
 
+    /// returns false if the response must not have any payload content
+    virtual bool is_content_allowed(void) const {
+        return ! m_http_response->is_content_length_implied();
+    }
+
     /// returns a function bound to http::writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) {
         return boost::bind(&response_writer::handle_write, shared_from_this(),
diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index e245ff3..f1eed3e 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -73,6 +73,9 @@ protected:
      */
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) = 0;
                                       
+    /// returns false if the message must not have any payload content
+    virtual bool is_content_allowed(void) const { return true; }
+
     /// returns a function bound to writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) = 0;
     
diff --git a/src/http_writer.cpp b/src/http_writer.cpp
index 690b033..7a06718 100644
--- a/src/http_writer.cpp
+++ b/src/http_writer.cpp
@@ -35,7 +35,7 @@ void writer::prepare_write_buffers(http::message::write_buffers_t& write_buffers
     // and content separately, which would not be as efficient
     
     // don't send anything if there is no data in content buffers
-    if (m_content_length > 0) {
+    if (m_content_length > 0 && is_content_allowed()) {
         if (supports_chunked_messages() && sending_chunked_message()) {
             // prepare the next chunk of data to send
             // write chunk length in hex
@@ -62,7 +62,9 @@ void writer::prepare_write_buffers(http::message::write_buffers_t& write_buffers
     }
     
     // prepare a zero-byte (final) chunk
-    if (send_final_chunk && supports_chunked_messages() && sending_chunked_message()) {
+    if (send_final_chunk && supports_chunked_messages() && sending_chunked_message()
+        && is_content_allowed())
+    {
         // add chunk length as a string at the back of the text cache
         m_text_cache.push_back("0");
         // append length of chunk to write_buffers
-- 
2.43.0


From ccd6b9cb6c2fd85f988ca038742e51d8cc1451aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:52 +0000
Subject: [PATCH 43/76] fix: writers announce chunked content exactly if they
 send it in chunks

---
 include/pion/http/request_writer.hpp  | 2 ++
 include/pion/http/response_writer.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index 0c0e7f1..e44fce2 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -116,6 +116,8 @@ protected:
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) {
         if (get_content_length() > 0)
             m_http_request->set_content_length(get_content_length());
+        // the header has to match the way in which the content is sent
+        m_http_request->set_chunks_supported(supports_chunked_messages());
         m_http_request->prepare_buffers_for_send(write_buffers,
                                               get_connection()->get_keep_alive(),
                                               sending_chunked_message());
diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index 48bdbe4..df5bf13 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -126,6 +126,8 @@ protected:
             m_http_response->set_content_length(get_content_length());
         if (m_http_response->get_status_code() == 205)
             m_http_response->set_content_length(0); // reset content has no content
+        // the header has to match the way in which the content is sent
+        m_http_response->set_chunks_supported(supports_chunked_messages());
         m_http_response->prepare_buffers_for_send(write_buffers,
                                                get_connection()->get_keep_alive(),
                                                sending_chunked_message());
-- 
2.43.0


From bcf2566c364d6e31bbc2edb4a25dbd48ad062129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:52 +0000
Subject: [PATCH 44/76] fix: send_final_chunk() alone closes the connection if
 chunks are not supported

---
 include/pion/http/writer.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index f1eed3e..df26ea2 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -196,12 +196,7 @@ public:
      */
     template <typename SendHandler>
     inline void send_chunk(SendHandler send_handler) {
-        m_sending_chunks = true;
-        if (!supports_chunked_messages()) {
-            // sending data in chunks, but the client does not support chunking;
-            // make sure that the connection will be closed when we are all done
-            m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
-        }
+        start_sending_chunks();
         // send more data
         send_more_data(false, send_handler);
     }
@@ -219,7 +214,7 @@ public:
      */ 
     template <typename SendHandler>
     inline void send_final_chunk(SendHandler send_handler) {
-        m_sending_chunks = true;
+        start_sending_chunks();
         send_more_data(true, send_handler);
     }
     
@@ -231,7 +226,7 @@ public:
      * reference to the writer object.
      */ 
     inline void send_final_chunk(void) {
-        m_sending_chunks = true;
+        start_sending_chunks();
         send_more_data(true, bind_to_write_handler());
     }
     
@@ -260,6 +255,16 @@ public:
     
 private:
 
+    /// prepares for sending data in chunks
+    inline void start_sending_chunks(void) {
+        m_sending_chunks = true;
+        if (!supports_chunked_messages()) {
+            // sending data in chunks, but the client does not support chunking;
+            // make sure that the connection will be closed when we are all done
+            m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
+        }
+    }
+
     /**
      * sends all of the buffered data to the client
      *
-- 
2.43.0


From b9b2acffd55885bbe689721c3825611ef11a483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:52 +0000
Subject: [PATCH 45/76] fix: writer::clear() releases the copied binary content

---
 include/pion/http/writer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index df26ea2..0e7a427 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -315,10 +315,12 @@ private:
     /// used to cache binary data included within the payload content
     class binary_cache_t : public std::vector<std::pair<const char *, size_t> > {
     public:
-        ~binary_cache_t() {
+        ~binary_cache_t() { clear(); }
+        inline void clear(void) {
             for (iterator i=begin(); i!=end(); ++i) {
                 delete[] i->first;
             }
+            std::vector<std::pair<const char *, size_t> >::clear();
         }
         inline boost::asio::const_buffer add(const void *ptr, const size_t size) {
             char *data_ptr = new char[size];
-- 
2.43.0


From a3cbd0e072da91dfb0ebf74ea96f1cbe53e2b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:17 +0000
Subject: [PATCH 46/76] fix: response_writer: 205 responses have the length
 zero

---
 include/pion/http/response_writer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index df5bf13..5e5e2c4 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -130,7 +130,8 @@ protected:
         m_http_response->set_chunks_supported(supports_chunked_messages());
         m_http_response->prepare_buffers_for_send(write_buffers,
                                                get_connection()->get_keep_alive(),
-                                               sending_chunked_message());
+                                               sending_chunked_message()
+                                               && m_http_response->get_status_code() != 205);
     }   
 
     /// returns false if the response must not have any payload content
-- 
2.43.0


From b2f71672bb2e6ae22f4752d5b92501d4f2182656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:17 +0000
Subject: [PATCH 47/76] fix: parser: responses that cannot have content end
 after their headers, also if they name a transfer encoding

---
 include/pion/http/message.hpp  | 3 +++
 include/pion/http/response.hpp | 9 ++++++++-
 src/http_parser.cpp            | 2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 7ea8be6..535632f 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -170,6 +170,9 @@ public:
     /// should return true if the content length can be implied without headers
     virtual bool is_content_length_implied(void) const = 0;
 
+    /// should return true if the message ends after its headers, whatever they say
+    virtual bool is_content_forbidden(void) const { return false; }
+
     /// returns true if the message is valid
     inline bool is_valid(void) const { return m_is_valid; }
 
diff --git a/include/pion/http/response.hpp b/include/pion/http/response.hpp
index f034ef7..0b09961 100644
--- a/include/pion/http/response.hpp
+++ b/include/pion/http/response.hpp
@@ -87,9 +87,16 @@ public:
 
     /// the content length may be implied for certain types of responses
     virtual bool is_content_length_implied(void) const {
+        return (is_content_forbidden()
+                || m_status_code == 205                             // reset content responses
+                );
+    }
+
+    /// returns true if the response ends after its headers, whatever they say
+    virtual bool is_content_forbidden(void) const {
         return (m_request_method == REQUEST_METHOD_HEAD             // HEAD responses have no content
                 || (m_status_code >= 100 && m_status_code <= 199)       // 1xx responses have no content
-                || m_status_code == 204 || m_status_code == 205     // no content & reset content responses
+                || m_status_code == 204                             // no content responses
                 || m_status_code == 304                             // not modified responses have no content
                 );
     }
diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 606822b..08046d1 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -775,7 +775,7 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
     http_msg.update_transfer_encoding_using_header();
     update_message_with_header_data(http_msg);
 
-    if (http_msg.is_chunked()) {
+    if (http_msg.is_chunked() && ! http_msg.is_content_forbidden()) {
 
         // content is encoded using chunks
         m_message_parse_state = PARSE_CHUNKS;
-- 
2.43.0


From b9ff7c5c169b97e96ce5f222eacd53b4b704f6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:30 +0000
Subject: [PATCH 48/76] fix: basic_auth: do not accept credentials of users
 that were removed or changed

---
 include/pion/http/basic_auth.hpp | 15 +----------
 src/http_basic_auth.cpp          | 43 +++-----------------------------
 2 files changed, 5 insertions(+), 53 deletions(-)

diff --git a/include/pion/http/basic_auth.hpp b/include/pion/http/basic_auth.hpp
index 9eacecd..5968f96 100644
--- a/include/pion/http/basic_auth.hpp
+++ b/include/pion/http/basic_auth.hpp
@@ -84,21 +84,8 @@ protected:
     
 private:
     
-    /// number of seconds after which entires in the user cache will be expired
-    static const unsigned int   CACHE_EXPIRATION;
-
-
     /// authentication realm ( "PION" by default)
-    std::string                 m_realm; 
-
-    /// time of the last cache clean up
-    boost::posix_time::ptime    m_cache_cleanup_time;
-        
-    /// cache of users that are currently active
-    user_cache_type             m_user_cache;
-    
-    /// mutex used to protect access to the user cache
-    mutable boost::mutex        m_cache_mutex;
+    std::string                 m_realm;
 };
 
     
diff --git a/src/http_basic_auth.cpp b/src/http_basic_auth.cpp
index cb26648..bf7f3f7 100644
--- a/src/http_basic_auth.cpp
+++ b/src/http_basic_auth.cpp
@@ -18,16 +18,10 @@ namespace pion {    // begin namespace pion
 namespace http {    // begin namespace http
     
     
-// static members of basic_auth
-
-const unsigned int  basic_auth::CACHE_EXPIRATION = 300;  // 5 minutes
-
-
 // basic_auth member functions
 
 basic_auth::basic_auth(user_manager_ptr userManager, const std::string& realm)
-    : http::auth(userManager), m_realm(realm),
-    m_cache_cleanup_time(boost::posix_time::second_clock::universal_time())
+    : http::auth(userManager), m_realm(realm)
 {
     set_logger(PION_GET_LOGGER("pion.http.basic_auth"));
 }
@@ -37,49 +31,20 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
     if (!need_authentication(http_request_ptr)) {
         return true; // this request does not require authentication
     }
-    
-    boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
-    if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
-        // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
-        user_cache_type::iterator i;
-        user_cache_type::iterator next=m_user_cache.begin();
-        while (next!=m_user_cache.end()) {
-            i=next;
-            ++next;
-            if (time_now > i->second.first + boost::posix_time::seconds(CACHE_EXPIRATION)) {
-                // ok - this is an old record.. expire it now
-                m_user_cache.erase(i);
-            }
-        }
-        m_cache_cleanup_time = time_now;
-    }
-    
+
     // if we are here, we need to check if access authorized...
     std::string authorization = http_request_ptr->get_header(http::types::HEADER_AUTHORIZATION);
     if (!authorization.empty()) {
         std::string credentials;
         if (parse_authorization(authorization, credentials)) {
-            // to do - use fast cache to match with active credentials
-            boost::mutex::scoped_lock cache_lock(m_cache_mutex);
-            user_cache_type::iterator user_cache_ptr=m_user_cache.find(credentials);
-            if (user_cache_ptr!=m_user_cache.end()) {
-                // we found the credentials in our cache...
-                // we can approve authorization now!
-                http_request_ptr->set_user(user_cache_ptr->second.second);
-                user_cache_ptr->second.first = time_now;
-                return true;
-            }
-    
             std::string username;
             std::string password;
     
             if (parse_credentials(credentials, username, password)) {
-                // match username/password
+                // match username/password (always ask the user manager, because the
+                // user may have been removed or changed since an earlier request)
                 user_ptr user=m_user_manager->get_user(username, password);
                 if (user) {
-                    // add user to the cache
-                    m_user_cache.insert(std::make_pair(credentials, std::make_pair(time_now, user)));
                     // add user credentials to the request object
                     http_request_ptr->set_user(user);
                     return true;
-- 
2.43.0


From 405b1961ed0987bcdda585ddfe0bc14ef175225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:30 +0000
Subject: [PATCH 49/76] fix: cookie_auth: session identifiers must not follow
 from the start time of the server

---
 src/http_cookie_auth.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 06f3b38..d1f0037 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -13,6 +13,7 @@
 #include <pion/http/response_writer.hpp>
 #include <pion/http/server.hpp>
 #include <ctime>
+#include <fstream>
 
 
 namespace pion {    // begin namespace pion
@@ -45,6 +46,14 @@ cookie_auth::cookie_auth(user_manager_ptr userManager,
     // it will be a long time before we lose any entropy here, even if time_t is a 64-bit int.)
     m_random_gen.seed(static_cast<boost::mt19937::result_type>(::time(NULL)));
 
+    // The start time of the server is no secret, so use entropy of the system where it is available.
+    boost::uint32_t seed[boost::mt19937::state_size];
+    std::ifstream random_stream("/dev/urandom", std::ios::in | std::ios::binary);
+    if (random_stream.read(reinterpret_cast<char*>(seed), sizeof(seed))) {
+        boost::uint32_t *seed_ptr = seed;
+        m_random_gen.seed(seed_ptr, seed + boost::mt19937::state_size);
+    }
+
     // generate some random numbers to increase entropy of the rng
     for (unsigned int n = 0; n < 100; ++n)
         m_random_die();
-- 
2.43.0


From 8953a8757a3ddee758fcb3763febdc3a86bbd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:44 +0000
Subject: [PATCH 50/76] fix: cookie_auth: sessions end when they expire or when
 their user is removed

---
 src/http_cookie_auth.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index d1f0037..eac4dbc 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -85,12 +85,19 @@ bool cookie_auth::handle_request(const http::request_ptr& http_request_ptr, cons
         boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator user_cache_itr=m_user_cache.find(auth_cookie);
         if (user_cache_itr != m_user_cache.end()) {
-            // we find those credential in our cache...
-            // we can approve authorization now!
-            http_request_ptr->set_user(user_cache_itr->second.second);
-            // and update cache timeout
-            user_cache_itr->second.first = time_now;
-            return true;
+            // make sure that the session has not expired & that the user was not removed
+            const user_ptr user(user_cache_itr->second.second);
+            if (time_now <= user_cache_itr->second.first + boost::posix_time::seconds(CACHE_EXPIRATION)
+                && m_user_manager->get_user(user->get_username()) == user)
+            {
+                // we find those credential in our cache...
+                // we can approve authorization now!
+                http_request_ptr->set_user(user);
+                // and update cache timeout
+                user_cache_itr->second.first = time_now;
+                return true;
+            }
+            m_user_cache.erase(user_cache_itr);
         }
     }
 
-- 
2.43.0


From 6ac2f727e3a53945605fdff067f15ebeb4e429c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:45 +0000
Subject: [PATCH 51/76] fix: tcp::server: do not hold the lock while handling a
 kept-alive connection

A pipelined request is handled from within finish_connection; when its handler
finished the connection itself, the server dead-locked on its own mutex.
---
 src/tcp_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 483b629..4bf570c 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -250,6 +250,9 @@ void server::finish_connection(const tcp::connection_ptr& tcp_conn)
     if (m_is_listening && tcp_conn->get_keep_alive()) {
         
         // keep the connection alive
+        // (the lock must not be held, because this may call a request handler
+        // that finishes the connection, if there are pipelined requests)
+        server_lock.unlock();
         handle_connection(tcp_conn);
 
     } else {
-- 
2.43.0


From 840186eda912ef3f211936f67422b0b7a08fa49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:45 +0000
Subject: [PATCH 52/76] fix: http::writer: close a connection after a write
 error

The error was passed to the finished handler only, which usually just calls
connection::finish(): pipelined requests of a client that had gone were still
handled, and writing to the broken socket again could wait for ever, so that
the connection never ended and server::stop(true) did not return.
---
 include/pion/http/writer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index 0e7a427..bbeab2a 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -81,6 +81,8 @@ protected:
     
     /// called after we have finished sending the HTTP message
     inline void finished_writing(const boost::system::error_code& ec) {
+        // a connection that cannot be written to must not be kept alive
+        if (ec) m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
         if (m_finished) m_finished(ec);
     }
     
-- 
2.43.0


From dd31b73fb2fbfa3955a57d3cb8a1d50c35fd3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:48 +0000
Subject: [PATCH 53/76] fix: FileService: compare path components to decide
 what is within the directory

The containment check compared strings, so that siblings of the directory whose
name starts with the name of the directory were served and writable
(../www-secret/x for directory www), while every request was refused if the
directory was configured with a trailing slash or as ".", and the configured
file was refused unless it was within the directory.
---
 services/FileService.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 342bc87..2ac2dc6 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -55,6 +55,9 @@ void FileService::set_option(const std::string& name, const std::string& value)
     if (name == "directory") {
         m_directory = value;
         m_directory.normalize();
+        // the normalized form of a path with a trailing slash ends with "/."
+        if (*--m_directory.end() == "." && ! m_directory.branch_path().empty())
+            m_directory = m_directory.branch_path();
         plugin::check_cygwin_path(m_directory, value);
         // make sure that the directory exists
         if (! boost::filesystem::exists(m_directory) || ! boost::filesystem::is_directory(m_directory)) {
@@ -114,6 +117,23 @@ void FileService::set_option(const std::string& name, const std::string& value)
     }
 }
 
+/// returns true if a normalized path names something within a normalized directory
+static bool is_within_directory(const boost::filesystem::path& file_path,
+                                const boost::filesystem::path& directory)
+{
+    boost::filesystem::path::iterator file_itr = file_path.begin();
+    for (boost::filesystem::path::iterator dir_itr = directory.begin();
+         dir_itr != directory.end(); ++dir_itr)
+    {
+        if (*dir_itr == ".")
+            continue;
+        if (file_itr == file_path.end() || *file_itr != *dir_itr)
+            return false;
+        ++file_itr;
+    }
+    return file_itr == file_path.end() || *file_itr != "..";
+}
+
 void FileService::operator()(const http::request_ptr& http_request_ptr, const tcp::connection_ptr& tcp_conn)
 {
     // get the relative resource path for the request
@@ -148,14 +168,9 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
     }
 
     // make sure that the requested file is within the configured directory
+    // (the file option may name any file)
     file_path.normalize();
-# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
-    std::string file_string = file_path.string();
-    if (file_string.find(m_directory.string()) != 0) {
-#else
-    std::string file_string = file_path.file_string();
-    if (file_string.find(m_directory.directory_string()) != 0) {
-#endif
+    if (! relative_path.empty() && ! is_within_directory(file_path, m_directory)) {
         PION_LOG_WARN(m_logger, "Request for file outside of directory ("
                       << get_resource() << "): " << relative_path);
         static const std::string FORBIDDEN_HTML_START =
-- 
2.43.0


From 9dcf56f2906fde7fc3a448cb7808b3a462b0d1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 54/76] fix: FileService: HEAD announces the length of the file

The response always said "Content-Length: 0".
---
 services/FileService.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 2ac2dc6..41bf165 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -423,6 +423,10 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                     // set "OK" response (not really necessary since this is the default)
                     writer->get_response().set_status_code(http::types::RESPONSE_CODE_OK);
                     writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_OK);
+                    // announce the length of the content that is not sent
+                    writer->get_response().set_do_not_send_content_length();
+                    writer->get_response().change_header(http::types::HEADER_CONTENT_LENGTH,
+                        boost::lexical_cast<std::string>(response_file.getFileSize()));
                     break;
             }
 
-- 
2.43.0


From 11bfbea26b18533a1e4d6a00bd8c0d4c345fd54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 55/76] fix: FileService: do not serve uninitialized memory
 after a file could not be read

A cache entry whose file could not be read kept its new, uninitialized buffer
and the new modification time, and the next request was answered from it.
---
 services/FileService.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 41bf165..06af055 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -785,15 +785,18 @@ void DiskFile::update(void)
 
 void DiskFile::read(void)
 {
-    // re-allocate storage buffer for the file's content
-    m_file_content.reset(new char[m_file_size]);
+    // allocate a new storage buffer for the file's content
+    boost::shared_array<char> file_content(new char[m_file_size]);
 
     // open the file for reading
     boost::filesystem::ifstream file_stream;
     file_stream.open(m_file_path, std::ios::in | std::ios::binary);
 
     // read the file into memory
-    if (!file_stream.is_open() || !file_stream.read(m_file_content.get(), m_file_size)) {
+    if (!file_stream.is_open() || !file_stream.read(file_content.get(), m_file_size)) {
+        // do not keep outdated content; try again next time
+        m_file_content.reset();
+        m_last_modified = 0;
 # if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
         const std::string file_name = m_file_path.string();
 #else
@@ -801,6 +804,7 @@ void DiskFile::read(void)
 #endif
         BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(file_name) );
     }
+    m_file_content = file_content;
 }
 
 bool DiskFile::checkUpdated(void)
-- 
2.43.0


From d1f573addd4631bfa7e30e2a2bc5d77fcfa2dc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 56/76] fix: FileService: the cache follows changes made
 through the service

A file of unchanged size written within the same second was served with its
old content, and a removed file was answered with a server error instead of
being not found.
---
 services/FileService.cpp | 23 ++++++++++++++++++++++-
 services/FileService.hpp |  7 +++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 06af055..e7a6c85 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -268,7 +268,15 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 PION_LOG_DEBUG(m_logger, "Found cache entry for request ("
                                << get_resource() << "): " << relative_path);
 
-                if (m_cache_setting == 0) {
+                if ((m_cache_setting != 2 || cache_itr->second.getLastModified() == 0)
+                    && ! boost::filesystem::exists(cache_itr->second.getFilePath()))
+                {
+                    // the file has been removed; read it again if it comes back
+                    cache_itr->second = DiskFile(cache_itr->second.getFilePath(), NULL, 0, 0,
+                                                 cache_itr->second.getMimeType());
+                    response_type = RESPONSE_NOT_FOUND;
+
+                } else if (m_cache_setting == 0) {
                     // cache is disabled
 
                     // copy & re-use file_path and mime_type
@@ -508,6 +516,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 boost::filesystem::ofstream file_stream(file_path, mode);
                 file_stream.write(http_request_ptr->get_content(), http_request_ptr->get_content_length());
                 file_stream.close();
+                resetCacheEntries(file_path);
                 if (!boost::filesystem::exists(file_path)) {
                     static const std::string PUT_FAILED_HTML_START =
                         "<html><head>\n"
@@ -531,6 +540,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 } else {
                     try {
                         boost::filesystem::remove(file_path);
+                        resetCacheEntries(file_path);
                         writer->get_response().set_status_code(http::types::RESPONSE_CODE_NO_CONTENT);
                         writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_NO_CONTENT);
                         writer->send();
@@ -641,6 +651,17 @@ void FileService::stop(void)
     m_cache_map.clear();
 }
 
+void FileService::resetCacheEntries(const boost::filesystem::path& file_path)
+{
+    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
+    for (CacheMap::iterator itr = m_cache_map.begin(); itr != m_cache_map.end(); ++itr) {
+        boost::filesystem::path entry_path(itr->second.getFilePath());
+        entry_path.normalize();
+        if (entry_path == file_path)
+            itr->second = DiskFile(itr->second.getFilePath(), NULL, 0, 0, itr->second.getMimeType());
+    }
+}
+
 void FileService::scanDirectory(const boost::filesystem::path& dir_path)
 {
 # if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
diff --git a/services/FileService.hpp b/services/FileService.hpp
index a93dbfa..aaa760e 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -278,6 +278,13 @@ protected:
     /// data type for map of file extensions to MIME types
     typedef PION_HASH_MAP<std::string, std::string, PION_HASH_STRING >  MIMETypeMap;
 
+    /**
+     * makes sure that a file which has changed is read again when it is requested
+     *
+     * @param file_path the (normalized) path of the file
+     */
+    void resetCacheEntries(const boost::filesystem::path& file_path);
+
     /**
      * adds all files within a directory to the cache
      *
-- 
2.43.0


From e167cfd0cbe3036ae682baf9e22f5ebb767a4e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 57/76] fix: FileService: finish the connection if a file
 cannot be read

The request was never answered and the connection stayed open.
---
 services/FileService.cpp | 16 ++++++++++++++++
 services/FileService.hpp |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index e7a6c85..ba5044d 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -919,6 +919,7 @@ void DiskFileSender::send(void)
                 PION_LOG_ERROR(m_logger, "Unable to open file: "
                                << m_disk_file.getFilePath().file_string());
 #endif
+                handle_read_error();
                 return;
             }
         }
@@ -949,6 +950,7 @@ void DiskFileSender::send(void)
                                << m_disk_file.getFilePath().file_string());
 #endif
             }
+            handle_read_error();
             return;
         }
     }
@@ -980,6 +982,20 @@ void DiskFileSender::send(void)
     }
 }
 
+void DiskFileSender::handle_read_error(void)
+{
+    if (m_bytes_sent == 0) {
+        // nothing has been sent yet
+        m_writer->get_response().set_status_code(http::types::RESPONSE_CODE_SERVER_ERROR);
+        m_writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_SERVER_ERROR);
+        m_writer->send();
+    } else {
+        // the response cannot be completed -> close the connection
+        m_writer->get_connection()->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
+        m_writer->get_connection()->finish();
+    }
+}
+
 void DiskFileSender::handle_write(const boost::system::error_code& write_error,
                                  std::size_t /* bytes_written */)
 {
diff --git a/services/FileService.hpp b/services/FileService.hpp
index aaa760e..1b41e6f 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -183,6 +183,9 @@ protected:
                    const pion::tcp::connection_ptr& tcp_conn,
                    unsigned long max_chunk_size);
 
+    /// ends the response if the file cannot be read
+    void handle_read_error(void);
+
     /**
      * handler called after a send operation has completed
      *
-- 
2.43.0


From 07d788037f9f69beaef486bc2e830c59e5c7026f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:16 +0000
Subject: [PATCH 58/76] fix: FileService: report failure to write a file

PUT and POST to a file that cannot be written were reported as successful.
---
 services/FileService.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index ba5044d..33211b2 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -517,7 +517,9 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 file_stream.write(http_request_ptr->get_content(), http_request_ptr->get_content_length());
                 file_stream.close();
                 resetCacheEntries(file_path);
-                if (!boost::filesystem::exists(file_path)) {
+                if (!file_stream) {
+                    writer->clear();
+                    writer->get_response().delete_header(http::types::HEADER_LOCATION);
                     static const std::string PUT_FAILED_HTML_START =
                         "<html><head>\n"
                         "<title>500 Server Error</title>\n"
-- 
2.43.0


From 9e776153aa37b46b5146e7b84510a475eadc5f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:22 +0000
Subject: [PATCH 59/76] fix: FileService: files can be created in the current
 directory

With "." as the directory, the directory of a new file was not found.
---
 services/FileService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 33211b2..5f24883 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -477,7 +477,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 } else {
                     // The file doesn't exist yet, so it will be created below, unless the
                     // directory of the requested file also doesn't exist.
-                    if (!boost::filesystem::exists(file_path.branch_path())) {
+                    if (!file_path.branch_path().empty() && !boost::filesystem::exists(file_path.branch_path())) {
                         static const std::string NOT_FOUND_HTML_START =
                             "<html><head>\n"
                             "<title>404 Not Found</title>\n"
-- 
2.43.0


From 8f4db5c2a2d575b059a37a985ac8907c63517fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:46 +0000
Subject: [PATCH 60/76] fix: tcp::stream_buffer: a failed flush leaves no write
 position outside the buffer

When sending a full write buffer failed, the character that did not fit
stayed beyond the end of the put area; every further put wrote one byte
further, past the end of the buffer. After a partial send, data already
sent was kept instead of the data that was not.
---
 include/pion/tcp/stream.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 606600d..11a9ab1 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -124,6 +124,9 @@ protected:
                                                 boost::asio::placeholders::bytes_transferred));
             m_async_done.wait(async_lock);
             bytes_sent = m_bytes_transferred;
+            // keep only data that was not sent, at the beginning of the buffer
+            if (bytes_sent > 0 && bytes_sent < bytes_to_send)
+                memmove(pbase(), pbase()+bytes_sent, bytes_to_send-bytes_sent);
             pbump(-bytes_sent);
             if (m_async_error)
                 bytes_sent = traits_type::eof();
@@ -188,8 +191,13 @@ protected:
             pbump(1);
         }
         // flush data in the write buffer by sending it to the TCP connection
-        return ((flush_output() == traits_type::eof())
-                ? traits_type::eof() : traits_type::not_eof(c));
+        if (flush_output() == traits_type::eof()) {
+            // the extra char must remain available -> take the character back
+            if (! traits_type::eq_int_type(c, traits_type::eof()) && pptr() > epptr())
+                pbump(-1);
+            return traits_type::eof();
+        }
+        return traits_type::not_eof(c);
     }
 
     /**
-- 
2.43.0


From 897ba6084ce74da0c7a5969ec757211778d83bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:46 +0000
Subject: [PATCH 61/76] fix: tcp::stream_buffer: no operation is repeated on a
 connection that has failed

After an error or the end of the stream, asio waits for an event that never
comes, so writing again (which the destructor does when data is left in the
buffer) or reading again blocked forever.
---
 include/pion/tcp/stream.hpp | 39 ++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 11a9ab1..c01ee2b 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -54,7 +54,8 @@ public:
      * @param conn_ptr pointer to the TCP connection to use for reading & writing
      */
     explicit stream_buffer(const tcp::connection_ptr& conn_ptr)
-        : m_conn_ptr(conn_ptr), m_bytes_transferred(0), m_read_buf(m_conn_ptr->get_read_buffer().c_array())
+        : m_conn_ptr(conn_ptr), m_bytes_transferred(0),
+        m_write_failed(false), m_read_failed(false), m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
     }
@@ -68,6 +69,7 @@ public:
     explicit stream_buffer(boost::asio::io_service& io_service,
                              const bool ssl_flag = false)
         : m_conn_ptr(new connection(io_service, ssl_flag)),
+        m_write_failed(false), m_read_failed(false),
         m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
@@ -82,6 +84,7 @@ public:
     stream_buffer(boost::asio::io_service& io_service,
                     connection::ssl_context_type& ssl_context)
         : m_conn_ptr(new connection(io_service, ssl_context)),
+        m_write_failed(false), m_read_failed(false),
         m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
@@ -96,6 +99,9 @@ public:
     /// returns a const reference to the current TCP connection
     const connection& get_connection(void) const { return *m_conn_ptr; }
     
+    /// forgets that the connection failed; called after it has been established again
+    void connected(void) { m_write_failed = m_read_failed = false; }
+    
     
 protected:
 
@@ -116,6 +122,8 @@ protected:
         const std::streamsize bytes_to_send = std::streamsize(pptr() - pbase());
         int_type bytes_sent = 0;
         if (bytes_to_send > 0) {
+            if (m_write_failed)
+                return traits_type::eof();
             boost::mutex::scoped_lock async_lock(m_async_mutex);
             m_bytes_transferred = 0;
             m_conn_ptr->async_write(boost::asio::buffer(pbase(), bytes_to_send),
@@ -128,8 +136,10 @@ protected:
             if (bytes_sent > 0 && bytes_sent < bytes_to_send)
                 memmove(pbase(), pbase()+bytes_sent, bytes_to_send-bytes_sent);
             pbump(-bytes_sent);
-            if (m_async_error)
+            if (m_async_error) {
+                m_write_failed = connection_failed();
                 bytes_sent = traits_type::eof();
+            }
         }
         return bytes_sent;
     }
@@ -144,6 +154,10 @@ protected:
         if (gptr() < egptr())
             return traits_type::to_int_type(*gptr());
         
+        // nothing more will be received after an error or the end of the stream
+        if (m_read_failed)
+            return traits_type::eof();
+        
         // calculate the number of bytes we will allow to be put back
         std::streamsize put_back_num = std::streamsize(gptr() - eback());
         if (put_back_num > PUT_BACK_MAX)
@@ -164,8 +178,10 @@ protected:
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
         m_async_done.wait(async_lock);
-        if (m_async_error)
+        if (m_async_error) {
+            m_read_failed = connection_failed();
             return traits_type::eof();
+        }
         
         // reset buffer pointers now that data is available
         setg(m_read_buf+(PUT_BACK_MAX-put_back_num),            //< beginning of putback bytes
@@ -238,6 +254,8 @@ protected:
                                                     boost::asio::placeholders::bytes_transferred));
                 m_async_done.wait(async_lock);
                 bytes_sent = bytes_available + m_bytes_transferred;
+                if (m_async_error)
+                    m_write_failed = connection_failed();
             } else {
                 // the buffer is larger than the remaining data
                 // put remaining data to the beginning of the output buffer
@@ -291,6 +309,12 @@ protected:
     
 private:
     
+    /// returns true if the last asynchronous operation failed for good: no further
+    /// operation is started then, because asio may never report that it failed again
+    inline bool connection_failed(void) const {
+        return m_async_error != boost::asio::error::operation_aborted;
+    }
+
     /// function called after an asynchronous operation has completed
     inline void operation_finished(const boost::system::error_code& error_code,
                                   std::size_t bytes_transferred)
@@ -317,6 +341,12 @@ private:
     /// the number of bytes transferred by the last asynchronous operation
     std::size_t                 m_bytes_transferred;
     
+    /// true if writing to the connection has failed
+    bool                        m_write_failed;
+    
+    /// true if reading from the connection has failed or its end was reached
+    bool                        m_read_failed;
+    
     /// pointer to the start of the TCP connection's read buffer
     char_type *                 m_read_buf;
              
@@ -393,6 +423,7 @@ public:
     {
         boost::system::error_code ec = m_tcp_buf.get_connection().accept(tcp_acceptor);
         if (! ec && get_ssl_flag()) ec = m_tcp_buf.get_connection().handshake_server();
+        if (! ec) m_tcp_buf.connected();
         return ec;
     }
 
@@ -408,6 +439,7 @@ public:
     {
         boost::system::error_code ec = m_tcp_buf.get_connection().connect(tcp_endpoint);
         if (! ec && get_ssl_flag()) ec = m_tcp_buf.get_connection().handshake_client();
+        if (! ec) m_tcp_buf.connected();
         return ec;
     }
     
@@ -426,6 +458,7 @@ public:
         boost::asio::ip::tcp::endpoint tcp_endpoint(remote_addr, remote_port);
         boost::system::error_code ec = m_tcp_buf.get_connection().connect(tcp_endpoint);
         if (! ec && get_ssl_flag()) ec = m_tcp_buf.get_connection().handshake_client();
+        if (! ec) m_tcp_buf.connected();
         return ec;
     }
 
-- 
2.43.0


From 223e07edfda4fbd2fa707899627588f62cb879fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 62/76] fix: http::server: escape the message on the forbidden
 page

As on the other error pages: it may contain parts of the request.
---
 src/http_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index 661111e..8e1a5c8 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -272,7 +272,7 @@ void server::handle_forbidden_request(const http::request_ptr& http_request_ptr,
     writer->write_no_copy(FORBIDDEN_HTML_START);
     writer << algorithm::xml_encode(http_request_ptr->get_resource());
     writer->write_no_copy(FORBIDDEN_HTML_MIDDLE);
-    writer << error_msg;
+    writer << algorithm::xml_encode(error_msg);
     writer->write_no_copy(FORBIDDEN_HTML_FINISH);
     writer->send();
 }
-- 
2.43.0


From bf59252bba3dae6b9ce76acee6c2d934cf243f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 63/76] fix: FileService: escape the error message on the page
 for a failed DELETE

It contains the file name, which is part of the request.
---
 services/FileService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 5f24883..5fc0d3d 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -561,7 +561,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                         writer->write_no_copy(DELETE_FAILED_HTML_START);
                         writer << algorithm::xml_encode(http_request_ptr->get_resource())
                             << ".</p><p>"
-                            << boost::diagnostic_information(e);
+                            << algorithm::xml_encode(boost::diagnostic_information(e));
                         writer->write_no_copy(DELETE_FAILED_HTML_FINISH);
                         writer->send();
                     }
-- 
2.43.0


From 74e6c9551b4af61589a0f4a9a833d8fbf8599ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 64/76] fix: http::message: header values cannot add headers to
 a message

Line breaks in a header value were sent as they are, so that the url query
of a login, which is copied to the Location header, or a cookie could add
headers and content to the response.
---
 include/pion/http/message.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 535632f..caf483c 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -615,14 +615,16 @@ protected:
      */
     inline void append_headers(write_buffers_t& write_buffers) {
         // add HTTP headers
-        for (ihash_multimap::const_iterator i = m_headers.begin(); i != m_headers.end(); ++i) {
+        for (ihash_multimap::iterator i = m_headers.begin(); i != m_headers.end(); ++i) {
+            remove_line_breaks(i->second);
             write_buffers.push_back(boost::asio::buffer(i->first));
             write_buffers.push_back(boost::asio::buffer(HEADER_NAME_VALUE_DELIMITER));
             write_buffers.push_back(boost::asio::buffer(i->second));
             write_buffers.push_back(boost::asio::buffer(STRING_CRLF));
         }
         // add headers for cookies
-        for (cookie_headers_t::const_iterator i = m_cookie_headers.begin(); i != m_cookie_headers.end(); ++i) {
+        for (cookie_headers_t::iterator i = m_cookie_headers.begin(); i != m_cookie_headers.end(); ++i) {
+            remove_line_breaks(i->second);
             write_buffers.push_back(boost::asio::buffer(i->first));
             write_buffers.push_back(boost::asio::buffer(HEADER_NAME_VALUE_DELIMITER));
             write_buffers.push_back(boost::asio::buffer(i->second));
@@ -632,6 +634,16 @@ protected:
         write_buffers.push_back(boost::asio::buffer(STRING_CRLF));
     }
 
+    /// replaces line breaks with spaces; a header value that contains one (from
+    /// a decoded query, for example) would otherwise be sent as several headers
+    static inline void remove_line_breaks(std::string& value) {
+        for (std::string::size_type pos = value.find_first_of("\r\n");
+             pos != std::string::npos; pos = value.find_first_of("\r\n", pos+1))
+        {
+            value[pos] = ' ';
+        }
+    }
+
     /// appends HTTP headers for any cookies defined by the http::message
     virtual void append_cookie_headers(void) {}
 
-- 
2.43.0


From 2ac9320ea0d5d6b0ca9e69980646c681c682b18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:18 +0000
Subject: [PATCH 65/76] fix: CookieService: escape what is taken from the
 request

---
 services/CookieService.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/services/CookieService.cpp b/services/CookieService.cpp
index 7f8327a..1d6e186 100644
--- a/services/CookieService.cpp
+++ b/services/CookieService.cpp
@@ -43,7 +43,8 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             } else {
                 writer->get_response().set_cookie(cookie_name, cookie_value);
                 writer << "\n<p>[Added cookie "
-                    << cookie_name << '=' << cookie_value << "]</p>\n\n";
+                    << algorithm::xml_encode(cookie_name) << '='
+                    << algorithm::xml_encode(cookie_value) << "]</p>\n\n";
             }
         } else if (http_request_ptr->get_query("action") == "delete") {
             const std::string cookie_name(http_request_ptr->get_query("cookie_name"));
@@ -51,7 +52,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
                 writer << "\n<p>[Error: You must specify a name to delete a cookie]</p>\n\n";
             } else {
                 writer->get_response().delete_cookie(cookie_name);
-                writer << "\n<p>[Deleted cookie " << cookie_name << "]</p>\n\n";
+                writer << "\n<p>[Deleted cookie " << algorithm::xml_encode(cookie_name) << "]</p>\n\n";
             }
         } else {
             writer << "\n<p>[Error: Unrecognized action]</p>\n\n";
@@ -67,7 +68,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
              header_iterator != http_request_ptr->get_headers().end()
              && header_iterator != header_pair.second; ++header_iterator)
         {
-            writer << "<li>Cookie: " << header_iterator->second << "\n";
+            writer << "<li>Cookie: " << algorithm::xml_encode(header_iterator->second) << "\n";
         }
         writer << "</ul>\n\n";
     } else {
@@ -81,9 +82,10 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
         for (ihash_multimap::const_iterator i = cookie_params.begin();
              i != cookie_params.end(); ++i)
         {
-            writer << "<li>" << i->first << ": " << i->second
-                << " <a href=\"" << http_request_ptr->get_resource()
-                << "?action=delete&cookie_name=" << i->first
+            writer << "<li>" << algorithm::xml_encode(i->first) << ": "
+                << algorithm::xml_encode(i->second)
+                << " <a href=\"" << algorithm::xml_encode(http_request_ptr->get_resource())
+                << "?action=delete&cookie_name=" << algorithm::url_encode(i->first)
                 << "\">[Delete]</a>\n";
         }
         writer << "</ul>\n\n";
@@ -93,7 +95,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
 
     // display form to add a cookie
     writer << "\n<h2>Add Cookie</h2>\n"
-        "<p><form action=\"" << http_request_ptr->get_resource() << "\" method=\"POST\">\n"
+        "<p><form action=\"" << algorithm::xml_encode(http_request_ptr->get_resource()) << "\" method=\"POST\">\n"
         "Name: <input type=\"text\" name=\"cookie_name\"><br />\n"
         "Value: <input type=\"text\" name=\"cookie_value\"><br />\n"
         "<input type=\"submit\" name=\"action\" value=\"Add Cookie\"></p>\n"
-- 
2.43.0


From 611d89dd9c1a8f4bec48fd2e544db1b656f5139b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 66/76] fix: tcp::server: a server that could not be started
 can be started again

The acceptor stayed open when bind() or listen() failed, so that start()
failed for ever, even if the port had become free.
---
 src/tcp_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 4bf570c..abebd70 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -96,6 +96,9 @@ void server::start(void)
             m_tcp_acceptor.listen();
         } catch (std::exception& e) {
             PION_LOG_ERROR(m_logger, "Unable to bind to port " << get_port() << ": " << e.what());
+            // make sure that the server can be started again
+            boost::system::error_code ec;
+            m_tcp_acceptor.close(ec);
             throw;
         }
 
-- 
2.43.0


From 0ec23d0b0680120177549cc6510154451e834f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:45 +0000
Subject: [PATCH 67/76] fix: tcp::server::stop() does not close sockets that
 other threads are using

Closing a connection while a worker thread starts an operation on it crashes
inside asio. The connections are shut down instead: their operations fail
and the threads that use them finish them. A connection that was being
accepted when stop() was called is terminated as well; stop() waited for it.
---
 include/pion/tcp/connection.hpp |  8 ++++++++
 src/tcp_server.cpp              | 12 ++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/pion/tcp/connection.hpp b/include/pion/tcp/connection.hpp
index b4f70a8..33068e7 100644
--- a/include/pion/tcp/connection.hpp
+++ b/include/pion/tcp/connection.hpp
@@ -168,6 +168,14 @@ public:
         }
     }
 
+    /// ends communication in both directions, without closing the socket: pending
+    /// and further operations fail.  Other than close(), this may be used while
+    /// other threads start operations on the connection
+    inline void shutdown(void) {
+        boost::system::error_code ec;
+        m_ssl_socket.next_layer().shutdown(boost::asio::ip::tcp::socket::shutdown_both, ec);
+    }
+
     /// cancels any asynchronous operations pending on the socket.
     /// there is no good way to do this on windows until vista or later (0x0600)
     /// see http://www.boost.org/doc/libs/1_53_0/doc/html/boost_asio/reference/basic_stream_socket/cancel/overload2.html
diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index abebd70..167df80 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -126,14 +126,14 @@ void server::stop(bool wait_until_finished)
         // this terminates any connections waiting to be accepted
         m_tcp_acceptor.close();
         
-        if (! wait_until_finished) {
-            // this terminates any other open connections
-            std::for_each(m_conn_pool.begin(), m_conn_pool.end(),
-                          boost::bind(&connection::close, _1));
-        }
-    
         // wait for all pending connections to complete
         while (! m_conn_pool.empty()) {
+            if (! wait_until_finished) {
+                // this terminates any other open connections, including those that
+                // were being accepted (they may be in use by other threads -> do not close)
+                std::for_each(m_conn_pool.begin(), m_conn_pool.end(),
+                              boost::bind(&connection::shutdown, _1));
+            }
             // try to prun connections that didn't finish cleanly
             if (prune_connections() == 0)
                 break;  // if no more left, then we can stop waiting
-- 
2.43.0


From d87cdc41761c7b7db56b485dd4f665c12d1e5346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:45 +0000
Subject: [PATCH 68/76] fix: process: signal handlers do not lock mutexes

A signal that interrupted a thread inside wait_for_shutdown() or shutdown()
(or another signal's handler) locked the mutex that this thread was holding,
and the process hung instead of shutting down. The handler sets a flag now,
which wait_for_shutdown() checks.
---
 src/process.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/process.cpp b/src/process.cpp
index 7b976e1..1d442d6 100644
--- a/src/process.cpp
+++ b/src/process.cpp
@@ -41,12 +41,29 @@ void process::shutdown(void)
     }
 }
 
+#ifndef PION_WIN32
+/// set when a signal that asks for shutdown was received: a signal handler
+/// must not use mutexes, since the thread it interrupts may hold them
+static volatile sig_atomic_t    shutdown_signal_received = 0;
+#endif
+
 void process::wait_for_shutdown(void)
 {
     config_type& cfg = get_config();
     boost::mutex::scoped_lock shutdown_lock(cfg.shutdown_mutex);
-    while (! cfg.shutdown_now)
+    while (! cfg.shutdown_now) {
+#ifndef PION_WIN32
+        if (shutdown_signal_received) {
+            cfg.shutdown_now = true;
+            cfg.shutdown_cond.notify_all();
+            break;
+        }
+        // wake up regularly to check for signals
+        cfg.shutdown_cond.timed_wait(shutdown_lock, boost::posix_time::milliseconds(100));
+#else
         cfg.shutdown_cond.wait(shutdown_lock);
+#endif
+    }
 }
 
 void process::create_config(void)
@@ -221,7 +238,7 @@ void process::daemonize(void)
 
 void handle_signal(int /* sig */)
 {
-    process::shutdown();
+    shutdown_signal_received = 1;
 }
 
 void process::initialize(void)
-- 
2.43.0


From 9cfc328fa6c08e23a01e75e741baa65b0ec77b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:58 +0000
Subject: [PATCH 69/76] fix: admin_rights: give the rights back to the user
 that had them

User identifiers above 32767 were truncated, so that the process continued
as a different user after releasing administrative rights.
---
 include/pion/admin_rights.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pion/admin_rights.hpp b/include/pion/admin_rights.hpp
index 52a7260..eefe62d 100644
--- a/include/pion/admin_rights.hpp
+++ b/include/pion/admin_rights.hpp
@@ -72,7 +72,7 @@ private:
     boost::unique_lock<boost::mutex>    m_lock;
 
     /// saved user identifier before upgrading to administrator
-    boost::int16_t                      m_user_id;
+    long                                m_user_id;
 
     /// true if the class currently holds administrative rights
     bool                                m_has_rights;
-- 
2.43.0


From 8e1ec5b9544f090628dcea54c1950c74e222cd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:58 +0000
Subject: [PATCH 70/76] fix: admin_rights: find the id of users and groups
 without password

Empty fields were skipped, so that for a user with an empty password field
the group id was taken for the user id.
---
 src/admin_rights.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/admin_rights.cpp b/src/admin_rights.cpp
index 5d28618..109604e 100644
--- a/src/admin_rights.cpp
+++ b/src/admin_rights.cpp
@@ -132,7 +132,7 @@ long admin_rights::find_system_id(const std::string& name,
 
     // find id in system file
     typedef boost::tokenizer<boost::char_separator<char> > Tok;
-    boost::char_separator<char> sep(":");
+    boost::char_separator<char> sep(":", "", boost::keep_empty_tokens);
     std::string line;
     boost::int32_t system_id = -1;
 
-- 
2.43.0


From a0362ea62ef333206e7768770377460ce79f5f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:49 +0000
Subject: [PATCH 71/76] fix: scheduler: the running flag is read by threads
 that do not hold the lock

---
 include/pion/scheduler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index 782b0e7..0136c4e 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -12,6 +12,7 @@
 
 #include <vector>
 #include <boost/asio.hpp>
+#include <boost/atomic.hpp>
 #include <boost/assert.hpp>
 #include <boost/bind.hpp>
 #include <boost/function/function0.hpp>
@@ -200,7 +201,7 @@ protected:
     boost::uint32_t                 m_active_users;
 
     /// true if the thread scheduler is running
-    bool                            m_is_running;
+    boost::atomic<bool>             m_is_running;
 };
 
     
-- 
2.43.0


From 075819666e11c2b3d0b3f443e08d458b5e4e7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:49 +0000
Subject: [PATCH 72/76] fix: tcp::server: the listening flag is read by threads
 that do not hold the lock

---
 include/pion/tcp/server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/tcp/server.hpp b/include/pion/tcp/server.hpp
index ad0c85c..791e134 100644
--- a/include/pion/tcp/server.hpp
+++ b/include/pion/tcp/server.hpp
@@ -12,6 +12,7 @@
 
 #include <set>
 #include <boost/asio.hpp>
+#include <boost/atomic.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/shared_ptr.hpp>
 #include <boost/thread/mutex.hpp>
@@ -229,7 +230,7 @@ private:
     bool                                    m_ssl_flag;
 
     /// set to true when the server is listening for new connections
-    bool                                    m_is_listening;
+    boost::atomic<bool>                     m_is_listening;
 
     /// mutex to make class thread-safe
     mutable boost::mutex                    m_mutex;
-- 
2.43.0


From 05ff2075a4bf5d7de52fa045e8239649a6ffbaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:59 +0000
Subject: [PATCH 73/76] fix: cookie_auth: concurrent logins cannot get the same
 session identifier

---
 src/http_cookie_auth.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index eac4dbc..6720f46 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -145,7 +145,8 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
         }
         // ok we have a new user session, create  a new cookie, add to cache
 
-        // create random cookie
+        // create random cookie (the generator is shared by all threads)
+        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         std::string rand_binary;
         rand_binary.reserve(RANDOM_COOKIE_BYTES);
         for (unsigned int i=0; i<RANDOM_COOKIE_BYTES ; i++) {
@@ -155,7 +156,6 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
 
         // add new session to cache
         boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         m_user_cache.insert(std::make_pair(new_cookie,std::make_pair(time_now,user)));
     } else {
         // process logout sequence
@@ -276,9 +276,9 @@ void cookie_auth::handle_ok(const http::request_ptr& http_request_ptr,
 
 void cookie_auth::expire_cache(const boost::posix_time::ptime &time_now)
 {
+    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
     if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
         // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator i;
         user_cache_type::iterator next=m_user_cache.begin();
         while (next!=m_user_cache.end()) {
-- 
2.43.0


From 2c6200e70f3631bf58f2ebe4cc66de5f2e09bbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:08 +0000
Subject: [PATCH 74/76] fix: piond reports an invalid IP address instead of
 ending with an uncaught exception

---
 utils/piond.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/utils/piond.cpp b/utils/piond.cpp
index 7cfddc9..584e504 100644
--- a/utils/piond.cpp
+++ b/utils/piond.cpp
@@ -63,7 +63,13 @@ int main (int argc, char *argv[])
                 if (cfg_endpoint.port() == 0) cfg_endpoint.port(DEFAULT_PORT);
             } else if (argv[argnum][1] == 'i' && argv[argnum][2] == '\0' && argnum+1 < argc) {
                 // set ip address
-                cfg_endpoint.address(boost::asio::ip::address::from_string(argv[++argnum]));
+                boost::system::error_code ec;
+                cfg_endpoint.address(boost::asio::ip::address::from_string(argv[++argnum], ec));
+                if (ec) {
+                    std::cerr << "piond: Invalid IP address: " << argv[argnum] << std::endl;
+                    argument_error();
+                    return 1;
+                }
             } else if (argv[argnum][1] == 'c' && argv[argnum][2] == '\0' && argnum+1 < argc) {
                 service_config_file = argv[++argnum];
             } else if (argv[argnum][1] == 'd' && argv[argnum][2] == '\0' && argnum+1 < argc) {
-- 
2.43.0


From 484c813d212d93c557d7cd93b32cdfbb3e87c0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:12 +0000
Subject: [PATCH 75/76] fix: tcp::connection::read into the internal buffer
 could not be compiled

---
 include/pion/tcp/connection.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pion/tcp/connection.hpp b/include/pion/tcp/connection.hpp
index 33068e7..a11dc32 100644
--- a/include/pion/tcp/connection.hpp
+++ b/include/pion/tcp/connection.hpp
@@ -523,12 +523,12 @@ public:
     {
 #ifdef PION_HAVE_SSL
         if (get_ssl_flag())
-            return boost::asio::async_read(m_ssl_socket, boost::asio::buffer(m_read_buffer),
-                                           completion_condition, ec);
+            return boost::asio::read(m_ssl_socket, boost::asio::buffer(m_read_buffer),
+                                     completion_condition, ec);
         else
 #endif      
-            return boost::asio::async_read(m_ssl_socket.next_layer(), boost::asio::buffer(m_read_buffer),
-                                           completion_condition, ec);
+            return boost::asio::read(m_ssl_socket.next_layer(), boost::asio::buffer(m_read_buffer),
+                                     completion_condition, ec);
     }
     
     /**
-- 
2.43.0


From 2aa3f24ebc16180603215d22cf8ba1af21d4a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:39 +0000
Subject: [PATCH 76/76] fix: error messages and symbol names replaced the
 argument and directory names of an error

---
 include/pion/error.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pion/error.hpp b/include/pion/error.hpp
index 219819e..ed89470 100644
--- a/include/pion/error.hpp
+++ b/include/pion/error.hpp
@@ -113,7 +113,7 @@ namespace pion {    // begin namespace pion
         //
         
         /// generic error message
-        typedef boost::error_info<struct errinfo_arg_name_,std::string> errinfo_message;
+        typedef boost::error_info<struct errinfo_message_,std::string> errinfo_message;
         
         /// name of an unrecognized configuration argument or option
         typedef boost::error_info<struct errinfo_arg_name_,std::string> errinfo_arg_name;
@@ -128,7 +128,7 @@ namespace pion {    // begin namespace pion
         typedef boost::error_info<struct errinfo_plugin_name_,std::string> errinfo_plugin_name;
         
         /// plugin symbol name
-        typedef boost::error_info<struct errinfo_dir_name_,std::string> errinfo_symbol_name;
+        typedef boost::error_info<struct errinfo_symbol_name_,std::string> errinfo_symbol_name;
 
         
         //
-- 
2.43.0

