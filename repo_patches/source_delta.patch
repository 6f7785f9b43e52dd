From cf197ff720cb20fbacb5c2ff63e8c0e6a6c14506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 01/30] fix: include <limits>, which uint128.hpp uses, so
 headers compile on their own in C++11/14

---
 include/ipaddress/config.hpp | 1 +
 src/ipaddress.ixx            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ipaddress/config.hpp b/include/ipaddress/config.hpp
index f0e52a7..3a8e20b 100644
--- a/include/ipaddress/config.hpp
+++ b/include/ipaddress/config.hpp
@@ -23,6 +23,7 @@
 #  include <array>
 #  include <tuple>
 #  include <cmath>
+#  include <limits>
 #  include <cassert>
 #  include <sstream>
 #  include <iomanip>
diff --git a/src/ipaddress.ixx b/src/ipaddress.ixx
index 05b074d..c0c5662 100644
--- a/src/ipaddress.ixx
+++ b/src/ipaddress.ixx
@@ -5,6 +5,7 @@ module;
 #include <array>
 #include <tuple>
 #include <cmath>
+#include <limits>
 #include <cassert>
 #include <sstream>
 #include <iomanip>
-- 
2.43.0


From 7d04565dad623ad2bf02067b1aae10e525ea4345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 02/30] fix: reject ill-formed UTF-8 (bad middle continuation
 byte, overlong ASCII) instead of decoding it as ASCII

---
 include/ipaddress/unicode.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index 2caa68e..a2702b4 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -80,6 +80,9 @@ struct utf8_reader {
             }
         }
         ++it;
+        if (symbol.length > 1 && symbol.value < 128) { // overlong encoding of an ASCII symbol
+            correct = false;
+        }
         if (!correct) {
             error = error_code::wrong_encoding_sequence;
             return '\0';
@@ -114,7 +117,6 @@ struct utf8_reader {
             return 0;
         } 
         if ((uint8_t(*it) & 0b11000000) == 0b10000000) {
-            correct = true;
             return uint8_t(*it) & 0b00111111;
         } 
         correct = false;
-- 
2.43.0


From ef0811208be5847e63233737c100d16f802d1a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:38 +0000
Subject: [PATCH 03/30] fix: read IPv4 mask 0.0.0.0 as prefix length 0 instead
 of shifting out of range

---
 include/ipaddress/base-v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 3a225ee..eae6aee 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -243,7 +243,7 @@ private:
         auto trailing_zeroes = count_righthand_zero_bits(ip, base_max_prefixlen);
         auto prefixlen = base_max_prefixlen - trailing_zeroes;
         auto leading_ones = trailing_zeroes != 32 ? (ip >> trailing_zeroes) : 0;
-        auto all_ones = (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1); // NOLINT
+        auto all_ones = prefixlen != 0 ? (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1) : uint_type(0); // NOLINT
         if (leading_ones != all_ones) {
             code = error_code::netmask_pattern_mixes_zeroes_and_ones;
             return 0;
-- 
2.43.0


From 9cf06925a77f07a874f3bef32b37dcf2ad7e857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:48 +0000
Subject: [PATCH 04/30] fix: reject prefix lengths that overflow size_t instead
 of wrapping around

---
 include/ipaddress/base-v4.hpp | 3 +++
 include/ipaddress/base-v6.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index eae6aee..950e4ed 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -192,6 +192,9 @@ protected:
             }
             if (c >= '0' && c <= '9') {
                 prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen > base_max_prefixlen) {
+                    prefixlen = base_max_prefixlen + 1; // keep out of range without overflow
+                }
             } else {
                 is_value = false;
                 break;
diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 2f155cb..1a80d2d 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -254,6 +254,9 @@ protected:
             }
             if (c >= '0' && c <= '9') {
                 prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen > base_max_prefixlen) {
+                    prefixlen = base_max_prefixlen + 1; // keep out of range without overflow
+                }
             } else {
                 code = error_code::invalid_netmask;
                 return std::make_tuple(ip_address_base<Ext>(), 0);
-- 
2.43.0


From dd0225f40adab701791448c0f79d3d31e993183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:56 +0000
Subject: [PATCH 05/30] fix: parse the whole address part of a network instead
 of truncating it to a fixed buffer

---
 include/ipaddress/ip-network-base.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 04a8136..0c888a1 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1256,12 +1256,12 @@ private:
     template <typename Str>
     static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base parse_address_with_prefix(const Str& str, bool strict, error_code& code, uint32_t& code_value) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
-        auto it = str.data();
-        auto end = str.data() + str.size();
+        const auto begin = str.data();
+        const auto end = begin + str.size();
+        auto it = begin;
         auto has_slash = false;
         auto netmask = end;
-        auto symbol = 0;
-        char address[ip_address_type::base_max_string_len + 1] = {};
+        auto address_end = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, code, code_value);
             if (code != error_code::no_error) {
@@ -1280,10 +1280,7 @@ private:
                 has_slash = true;
             }
             if (!has_slash) {
-                address[symbol++] = c;
-            }
-            if (symbol > ip_address_type::base_max_string_len) {
-                break;
+                address_end = it;
             }
         }
 
@@ -1294,7 +1291,8 @@ private:
         }
 
         ip_network_base<Base> result;
-        result._network_address = ip_address_type::parse(address, code);
+        uint32_t address_code_value = 0;
+        result._network_address = ip_address_type::ip_from_string(begin, address_end, code, address_code_value);
         result._netmask = std::get<0>(netmask_result);
         result._prefixlen = std::get<1>(netmask_result);
 
-- 
2.43.0


From 8c8dc6edc84f4d230eeebaa023437dd8ea78cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 06/30] fix: reject embedded NUL characters in IPv6 text and
 scope ids

---
 include/ipaddress/base-v6.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 1a80d2d..c3c2c49 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -20,7 +20,7 @@ namespace IPADDRESS_NAMESPACE {
 namespace internal {
 
 IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_invalid_scope_id_symbol(char c) IPADDRESS_NOEXCEPT {
-    return c == '%' || c == '/' 
+    return c == '%' || c == '/' || c == '\0'
 #ifndef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
     || c == ' ' || (c >= '\t' && c <= '\r')
 #endif // IPADDRESS_SCOPE_ID_SUPPORT_SPACES
@@ -365,6 +365,10 @@ private:
                 parts_count = error_symbol;
                 return empty_parts;
             }
+            if (c == '\0') {
+                error = error_code::part_has_invalid_symbol;
+                return empty_parts;
+            }
             if (!has_double_colon && c == ':' && prev_c == ':') {
                 has_double_colon = true;
             }
-- 
2.43.0


From e4b30462f67f768a696686f96e23722b47826472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 07/30] fix: accept '::' followed by five groups and an IPv4
 suffix

---
 include/ipaddress/base-v6.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index c3c2c49..2beba0f 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -424,7 +424,10 @@ private:
         }
 
         if (has_ipv4) {
-            if (parts_count + 1 >= _max_parts) {
+            const auto has_leading_double_colon = parts_count > 1 && parts[0][0] == '\0' && parts[1][0] == '\0';
+            const auto max_parts = has_leading_double_colon ? _max_parts + 1 : _max_parts;
+
+            if (parts_count + 1 >= max_parts) {
                 error = error_code::most_8_colons_permitted;
                 return empty_parts;
             }
-- 
2.43.0


From 5f94d3cae78be007686dd06db7ff4f73c7273aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:09 +0000
Subject: [PATCH 08/30] fix: do not report a scope id number that does not fit
 uint32_t

---
 include/ipaddress/ipv6-address.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index ed081ff..345e306 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -246,8 +246,9 @@ private:
             const auto scope_id_size = _scope_id.size();
             for (size_t i = 0; i < scope_id_size; ++i) {
                 const auto c = _scope_id[i];
-                if (c >= '0' && c <= '9') {
-                    value = value * 10 + (c - '0');
+                const auto digit = uint32_t(c - '0');
+                if (c >= '0' && c <= '9' && value <= (uint32_t(-1) - digit) / 10) {
+                    value = value * 10 + digit;
                 } else {
                     _has_value = false;
                     break;
-- 
2.43.0


From 38a618229e36617cc1df02d4c8360ee1c254dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 09/30] fix: treat only ::ffff:0:0/96 as IPv4-mapped

---
 include/ipaddress/ipv6-address.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 345e306..e9a4dee 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -722,6 +722,11 @@ public:
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<ipv4_address> ipv4_mapped() const IPADDRESS_NOEXCEPT {
         const auto& b = bytes();
+        for (size_t i = 0; i < 10; ++i) {
+            if (b[i] != 0) {
+                return nullptr;
+            }
+        }
         if (b[10] != 0xFF || b[11] != 0xFF) {
             return nullptr;
         } 
-- 
2.43.0


From 23f8d2c3592633e939cba3241adc584ed139e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:26 +0000
Subject: [PATCH 10/30] fix: make IPv6 operator< a strict weak order when scope
 ids differ (before C++20)

---
 include/ipaddress/ipv6-address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index e9a4dee..4d2fb70 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -817,7 +817,7 @@ protected:
         return lhs._data.bytes < rhs._data.bytes 
         
         #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
-            ? true : lhs._data.scope_id.compare(rhs._data.scope_id) < 0;
+            || (lhs._data.bytes == rhs._data.bytes && lhs._data.scope_id.compare(rhs._data.scope_id) < 0)
         #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
             ;
     }
-- 
2.43.0


From 0ff52b64690d85e070940189f012d9906b140655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 11/30] fix: reject prefix lengths beyond the address width in
 from_address

---
 include/ipaddress/ip-network-base.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 0c888a1..615d93a 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -424,7 +424,7 @@ public:
      */
     IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         auto code = error_code::no_error;
@@ -452,11 +452,16 @@ public:
     static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
         error_code& code, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
 
+        if (prefixlen > ip_address_type::base_max_prefixlen) {
+            code = error_code::invalid_netmask;
+            return ip_network_base();
+        }
+
         const auto netmask = ip_address_type::ip_from_prefix(prefixlen); 
 
         ip_network_base result;
-- 
2.43.0


From f9d889aca7e1cf884377ac315fbfc86c8fbccd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 12/30] fix: reset error_code on success in address_exclude and
 subnets

---
 include/ipaddress/ip-network-base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 615d93a..b2648d4 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -943,6 +943,8 @@ public:
      * @remark `exclude_network_sequence` uses lazy evaluation to iterate networks.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence<ip_network_base<Base>> address_exclude(const ip_network_base& other, error_code& code) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto lhs = Base::remove_scope_id(*this);
         auto rhs = Base::remove_scope_id(other);
 
@@ -1025,6 +1027,8 @@ public:
      * @remark `subnets_sequence` uses lazy evaluation to iterate over the subnets.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE subnets_sequence<ip_network_base<Base>> subnets(error_code& code, size_t prefixlen_diff = 1, optional<size_t> new_prefixlen = nullptr) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto address = Base::remove_scope_id(network_address());
 
         if (prefixlen() == ip_address_type::base_max_prefixlen) {
-- 
2.43.0


From f7192874ca0a856ea9c05a4cb90fe8a02774574a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 13/30] fix: compute supernet without shifting the netmask by
 its full width

---
 include/ipaddress/ip-network-base.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index b2648d4..5c25bc1 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1136,8 +1136,7 @@ public:
         }
 
         const auto new_prefix = prefixlen() - prefixlen_diff;
-        const auto address = ip_address_type::from_uint(network_address().to_uint() & (netmask().to_uint() << prefixlen_diff));
-        return ip_network_base<Base>::from_address(address, new_prefix);
+        return ip_network_base<Base>::from_address(ip_address_type::from_uint(network_address().to_uint()), code, new_prefix, false);
     }
 
     /**
-- 
2.43.0


From 6af0a83fc91ddc7d272300e0ce3dbb551bb866ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 14/30] fix: reject prefixlen_diff values whose sum with the
 prefix length overflows in subnets

---
 include/ipaddress/ip-network-base.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 5c25bc1..9c4b47c 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1047,13 +1047,13 @@ public:
             prefixlen_diff = new_prefixlen.value() - prefixlen();
         }
 
-        auto new_prefix = prefixlen() + prefixlen_diff;
-
-        if (new_prefix > ip_address_type::base_max_prefixlen) {
+        if (prefixlen_diff > ip_address_type::base_max_prefixlen - prefixlen()) {
             code = error_code::invalid_prefixlen_diff;
             return subnets_sequence<ip_network_base<Base>>();
         }
 
+        const auto new_prefix = prefixlen() + prefixlen_diff;
+
         return subnets_sequence<ip_network_base<Base>>(address, broadcast_address(), hostmask(), prefixlen_diff, new_prefix);
     }
 
-- 
2.43.0


From 2617e1cf63800fd029cbc8b978054df77bae93f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 15/30] fix: move iterators backwards for negative offsets and
 order positions before the first address

---
 include/ipaddress/ip-address-iterator.hpp | 20 ++++++++++++++------
 include/ipaddress/ip-any-iterator.hpp     | 12 ++++++++++--
 include/ipaddress/ip-network-iterator.hpp | 16 ++++++++++++----
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index dcbfc15..a395d1d 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -555,7 +555,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        if (n < 0) {
+            sub(uint_type(0) - uint_type(n));
+        } else {
+            add(uint_type(n));
+        }
         return *this;
     }
 
@@ -581,7 +585,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        if (n < 0) {
+            add(uint_type(0) - uint_type(n));
+        } else {
+            sub(uint_type(n));
+        }
         return *this;
     }
 
@@ -792,7 +800,7 @@ private:
         const auto old = result._offset;
         ++result._offset;
         if (result._offset < old) {
-            result._carry = 1 - result._carry;
+            ++result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -803,7 +811,7 @@ private:
         const auto old = result._offset;
         --result._offset;
         if (result._offset > old) {
-            result._carry = 1 - result._carry;
+            --result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -814,7 +822,7 @@ private:
             const auto old = _offset;
             _offset += n;
             if (_offset < old) {
-                _carry = 1 - _carry;
+                ++_carry;
             }
             _current = value_type::from_uint(_offset);
         }
@@ -825,7 +833,7 @@ private:
             const auto old = _offset;
             _offset -= n;
             if (_offset > old) {
-                _carry = 1 - _carry;
+                --_carry;
             }
             _current = value_type::from_uint(_offset);
         }
diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index a4fa14b..acf6034 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -177,7 +177,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        if (n < 0) {
+            sub(uint128_t(0) - uint128_t(n));
+        } else {
+            add(uint128_t(n));
+        }
         return *this;
     }
 
@@ -203,7 +207,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        if (n < 0) {
+            add(uint128_t(0) - uint128_t(n));
+        } else {
+            sub(uint128_t(n));
+        }
         return *this;
     }
 
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index a40e03c..b00f496 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -169,7 +169,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        if (n < 0) {
+            sub(uint_type(0) - uint_type(n));
+        } else {
+            add(uint_type(n));
+        }
         return *this;
     }
 
@@ -195,7 +199,11 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        if (n < 0) {
+            add(uint_type(0) - uint_type(n));
+        } else {
+            sub(uint_type(n));
+        }
         return *this;
     }
 
@@ -406,7 +414,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset += _step;
         if (result._it._offset < old) {
-            result._it._carry = 1 - result._it._carry;
+            ++result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
@@ -418,7 +426,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset -= _step;
         if (result._it._offset > old) {
-        result._it._carry = 1 - result._it._carry;
+            --result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
-- 
2.43.0


From 6d43ce157c0c7cdc1c6fdd0df31b2f09df1c848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 16/30] fix: return signed element counts from iterator
 differences

---
 include/ipaddress/ip-address-iterator.hpp | 14 +++++++++++++-
 include/ipaddress/ip-network-iterator.hpp |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index a395d1d..4ee19f7 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -697,7 +697,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_address_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_offset - other._offset);
+        return diff(_offset, other._offset) + diff_carry(_carry - other._carry);
     }
 
     /**
@@ -795,6 +795,18 @@ public:
 #endif // !IPADDRESS_HAS_SPACESHIP_OPERATOR
 
 private:
+    IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type diff(uint32_t lhs, uint32_t rhs) IPADDRESS_NOEXCEPT {
+        return difference_type(lhs) - difference_type(rhs);
+    }
+
+    IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type diff(const uint128_t& lhs, const uint128_t& rhs) IPADDRESS_NOEXCEPT {
+        return difference_type(lhs - rhs);
+    }
+
+    IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type diff_carry(int carry) IPADDRESS_NOEXCEPT {
+        return sizeof(uint_type) < sizeof(difference_type) ? carry * (difference_type(1) << 32) : 0; // for IPv6 the address space does not fit difference_type
+    }
+
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator base() const IPADDRESS_NOEXCEPT {
         auto result = *this;
         const auto old = result._offset;
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index b00f496..4e072a3 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -311,7 +311,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_it - other._it);
+        return *this < other ? -difference_type(other.uint_diff(*this)) : difference_type(uint_diff(other));
     }
 
     /**
-- 
2.43.0


From c602ffc7bfd71ef3461d4b1177ac5992a958a3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:26 +0000
Subject: [PATCH 17/30] fix: terminate hosts() of networks that end at the last
 address

---
 include/ipaddress/ip-address-iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index 4ee19f7..575327b 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -911,7 +911,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(broadcast_address.to_uint() + 1);
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         } else if (prefixlen == max_prefixlen) {
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(network_address.to_uint() + 1);
@@ -921,7 +921,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint() + 1);
             const auto end = value_type::from_uint(broadcast_address.to_uint() + (std::is_same<value_type, ipv6_address>::value ? 1 : 0));
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         }
     }
 
-- 
2.43.0


From 7e2faf9ed605b1015e245ece346d473f662f4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 18/30] fix: step over the whole address space in subnets of /0
 without losing the end or dividing by zero

---
 include/ipaddress/ip-network-iterator.hpp | 28 ++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 4e072a3..fde4e4b 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -67,7 +67,11 @@ public:
      *         which can correctly represent all addresses using the integer number uint128_t
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type uint_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _it.uint_diff(other._it) / _step;
+        const auto diff = _it.uint_diff(other._it);
+        if (diff == 0 && _it._carry != other._it._carry) { // the whole address space (does not fit uint_type)
+            return _step == 0 ? uint_type(1) : uint_type((diff - 1) / _step + 1);
+        }
+        return _step == 0 ? diff : uint_type(diff / _step);
     }
 
     /**
@@ -413,7 +417,7 @@ private:
         auto result = *this;
         const auto old = result._it._offset;
         result._it._offset += _step;
-        if (result._it._offset < old) {
+        if (result._it._offset < old || _step == 0) {
             ++result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
@@ -425,7 +429,7 @@ private:
         auto result = *this;
         const auto old = result._it._offset;
         result._it._offset -= _step;
-        if (result._it._offset > old) {
+        if (result._it._offset > old || _step == 0) {
             --result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
@@ -434,12 +438,20 @@ private:
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it += _step * n;
+        const auto offset = uint_type(_step * n);
+        _it += offset;
+        if (offset == 0 && n != 0) { // moved across the whole address space
+            ++_it._carry;
+        }
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
-        _it -= _step * n;
+        const auto offset = uint_type(_step * n);
+        _it -= offset;
+        if (offset == 0 && n != 0) { // moved across the whole address space
+            --_it._carry;
+        }
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
@@ -742,10 +754,10 @@ public:
         const auto end_uint = broadcast_address.to_uint();
         const auto begin = ip_address_type::from_uint(begin_uint);
         const auto end = ip_address_type::from_uint(end_uint + 1);
-        const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
+        const auto step = prefixlen_diff < ip_address_type::base_max_prefixlen ? difference_type((hostmask.to_uint() >> prefixlen_diff) + 1) : difference_type(1);
         _begin = const_iterator(begin, step, new_prefixlen);
-        _end = const_iterator(end, step, new_prefixlen, begin == end ? 1 : 0);
-        _size = (end_uint - begin_uint) / step + 1;
+        _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
+        _size = step != 0 ? difference_type((end_uint - begin_uint) / step + 1) : difference_type(1); // step wraps around to 0 for the whole address space
     }
 
     /**
-- 
2.43.0


From fc3bf25188b798b55fa75ac33e7bbf198f4ac4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 19/30] fix: do not mistake 0.0.0.0/32 and ::/128 for the end
 of address_exclude

---
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index fde4e4b..726a956 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -595,7 +595,7 @@ public:
      * @return `true` if the iterators are equal, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator==(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _current == other._current;
+        return _current == other._current && _other == other._other;
     }
 
     /**
-- 
2.43.0


From 1ef67c1d4d62f00a59c0cd17aa1a59d39a16024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 20/30] fix: convert uint128_t values between 2^88 and 2^104 to
 the nearest double

---
 include/ipaddress/uint128.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index e4dfa96..3e27ca2 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -1461,7 +1461,7 @@ private:
             return double(value._lower);
         }     
 
-        if ((value._upper >> 24) == 0) {
+        if ((value._upper >> 40) == 0) {
             double lower = uint64_bits_to_double(two_pow_52_bits | ((value._lower << 12) >> 12)) - two_pow_52;
             double upper = uint64_bits_to_double(two_pow_104_bits | (uint64_t)(value >> 52)) - two_pow_104;
             return double(lower + upper);
-- 
2.43.0


From 7f9fd299d4b17b87e9371f5dd8cb985f499489fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 21/30] fix: shift uint128_t by 128 to 0 without an
 out-of-range 64-bit shift

---
 include/ipaddress/uint128.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index 3e27ca2..d1b8e5b 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -950,7 +950,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { _lower << (shift - 64), 0 };
         }
         if (shift < 64 && shift > 0) {
@@ -973,7 +973,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { 0, _upper >> (shift - 64) };
         }
         if (shift < 64 && shift > 0) {
-- 
2.43.0


From 9c8e102c61bf697e7618ca1f770c2b0af5daa84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 22/30] fix: reject numbers beyond 128 bits in
 uint128_t::from_string

---
 include/ipaddress/uint128.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index d1b8e5b..f858dc5 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -1602,7 +1602,12 @@ private:
             } else if (c < '0' || c > '9') {
                 return nullptr;
             }
-            result = result * 10 + (c - '0');
+            const auto digit = c - '0';
+            const auto max_quotient = uint128_t(0x1999999999999999, 0x9999999999999999); // max() / 10
+            if (result > max_quotient || (result == max_quotient && digit > 5)) {
+                return nullptr;
+            }
+            result = result * 10 + digit;
         }
         return result;
     }
@@ -1622,6 +1627,9 @@ private:
             } else if (c < '0' || c > '7') {
                 return nullptr;
             }
+            if (result >> 125) {
+                return nullptr;
+            }
             result = result * 8 + (c - '0');
         }
         return result;
@@ -1649,6 +1657,9 @@ private:
             } else {
                 return nullptr;
             }
+            if (result >> 124) {
+                return nullptr;
+            }
             result = result * 16 + digit;
         }
         return result;
-- 
2.43.0


From 3bb67aa14075f2101ae24c066068347bb91fde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 23/30] fix: reject an empty string in uint128_t::from_string

---
 include/ipaddress/uint128.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index f858dc5..7aeb3b0 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -1573,6 +1573,9 @@ private:
 #endif
     template <typename T>
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<uint128_t> str_to_uint128(const T* begin, const T* end, format fmt) IPADDRESS_NOEXCEPT {
+        if (begin == end || *begin == T{}) {
+            return nullptr;
+        }
         switch (fmt) {
             case format::octal:
                 return oct_str_to_uint128(begin, end);
-- 
2.43.0


From 13c9b0c55fc92a80f72478015114dd2abcc1d143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 24/30] fix: accept IPv6 literals with an embedded IPv4 address
 and a full scope id before C++20

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 2beba0f..176171b 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -46,7 +46,7 @@ public:
 
     static constexpr ip_version base_version = ip_version::V6;
     static constexpr size_t base_size = 16;
-    static constexpr size_t base_max_string_len = 41 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
+    static constexpr size_t base_max_string_len = 46 + IPADDRESS_IPV6_SCOPE_MAX_LENGTH;
     static constexpr size_t base_max_prefixlen = base_size * 8;
 
     /**
-- 
2.43.0


From d95b3b097d215fdbbb85d63aa21b5437fa69a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 25/30] fix: return the last character of a partially filled
 fixed_string from back()

---
 include/ipaddress/fixed-string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index 21d2020..b7ef722 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -285,7 +285,7 @@ struct fixed_string {
      * @sa     front()
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE const_reference back() const IPADDRESS_NOEXCEPT {
-        return _data[N - 1];
+        return _data[length > 0 ? length - 1 : 0];
     }
 
     /**
-- 
2.43.0


From f594219880933f5173d505add446446063695c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:00 +0000
Subject: [PATCH 26/30] fix: keep uint128_t::to_string free of the global
 locale's digit grouping

---
 include/ipaddress/uint128.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index 7aeb3b0..f5a8566 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -325,6 +325,7 @@ public:
     IPADDRESS_NODISCARD IPADDRESS_FORCE_INLINE std::string to_string(format fmt = format::decimal) const {
         if (_upper == 0) {
             std::ostringstream ss;
+            ss.imbue(std::locale::classic());
             switch (fmt) {
                 case format::octal:
                     ss << std::oct;
-- 
2.43.0


From 285f525b951b3c0275343c86ba29f32c994d0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:19 +0000
Subject: [PATCH 27/30] fix: ordering operators of byte_array<0> did not
 compile without operator<=>

---
 include/ipaddress/byte-array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/byte-array.hpp b/include/ipaddress/byte-array.hpp
index 2156e3b..00e33f4 100644
--- a/include/ipaddress/byte-array.hpp
+++ b/include/ipaddress/byte-array.hpp
@@ -446,9 +446,9 @@ IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator!=(c
     IPADDRESS_EXPORT template <size_t N>
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator<(const byte_array<N>& lhs, const byte_array<N>& rhs) IPADDRESS_NOEXCEPT {
         for (size_t i = 0; i < N; ++i) {
-            if (lhs._data[i] < rhs._data[i]) {
+            if (lhs[i] < rhs[i]) {
                 return true;
-            } else if (lhs._data[i] != rhs._data[i]) {
+            } else if (lhs[i] != rhs[i]) {
                 break;
             }
         }
-- 
2.43.0


From 34d0b5b11df2f017aa1db844ac301c1508c61ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 28/30] fix: define fixed_string::max_length and length, which
 could not be bound to references before C++17

---
 include/ipaddress/fixed-string.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/ipaddress/fixed-string.hpp b/include/ipaddress/fixed-string.hpp
index b7ef722..6209dcf 100644
--- a/include/ipaddress/fixed-string.hpp
+++ b/include/ipaddress/fixed-string.hpp
@@ -376,18 +376,30 @@ struct fixed_string {
     }
 }; // fixed_string<N>
 
+template <size_t N>
+constexpr size_t fixed_string<N>::max_length;
+
+template <typename T>
+struct _fixed_string_empty { // a template, so that its members can be defined in a header before C++17
+    static constexpr size_t max_length = 0;
+
+    static constexpr size_t length = 0;
+}; // _fixed_string_empty
+
+template <typename T>
+constexpr size_t _fixed_string_empty<T>::max_length;
+
+template <typename T>
+constexpr size_t _fixed_string_empty<T>::length;
+
 IPADDRESS_EXPORT template <>
-struct fixed_string<0> {
+struct fixed_string<0> : _fixed_string_empty<void> {
     using value_type             = char;
     using const_pointer          = const char*;
     using const_reference        = const char&;
     using const_iterator         = const_pointer;
     using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-    static constexpr size_t max_length = 0;
-
-    static constexpr size_t length = 0;
-
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE fixed_string() IPADDRESS_NOEXCEPT = default;
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE fixed_string(const char*) IPADDRESS_NOEXCEPT {
-- 
2.43.0


From 70509a53225ce6b83ffba80ef16c2d55af716fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:24 +0000
Subject: [PATCH 29/30] fix: keep the UTF-8 and UTF-16 readers from advancing
 past one past the end of truncated text

---
 include/ipaddress/unicode.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index a2702b4..1bc164c 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -79,7 +79,9 @@ struct utf8_reader {
                     break;
             }
         }
-        ++it;
+        if (it < end) { // a truncated sequence has already reached the end
+            ++it;
+        }
         if (symbol.length > 1 && symbol.value < 128) { // overlong encoding of an ASCII symbol
             correct = false;
         }
@@ -112,7 +114,7 @@ struct utf8_reader {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint32_t trailing_utf8_code_point(const T*& it, const T* end, bool& correct) IPADDRESS_NOEXCEPT {
-        if (++it >= end) {
+        if (it >= end || ++it >= end) {
             correct = false;
             return 0;
         } 
@@ -152,7 +154,9 @@ struct utf16_reader {
                 correct = false;
                 break;
         }
-        ++it;
+        if (it < end) { // a truncated pair has already reached the end
+            ++it;
+        }
         if (!correct) {
             error = error_code::wrong_encoding_sequence;
             return '\0';
-- 
2.43.0


From f6a6a4c93c7e37d5132284c036f8e38f50216df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:13 +0000
Subject: [PATCH 30/30] fix: an IPv6 text starting with the scope separator
 compared pointers with nullptr

---
 include/ipaddress/base-v6.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 176171b..395d95f 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -307,6 +307,7 @@ private:
         auto it = begin;
         auto scope = false;
         ip_and_scope<Iter> result{};
+        result.end_ip = begin; // nothing precedes the scope yet
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, error, error_value);
             if (error != error_code::no_error) {
-- 
2.43.0

