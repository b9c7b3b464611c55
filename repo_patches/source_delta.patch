From 32765c0d86aae7ae2c111f1938ff8de4cf9201a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:34 +0000
Subject: [PATCH 01/26] fix: include <limits> so that the headers are
 self-contained in C++11 and C++14

---
 include/ipaddress/config.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/config.hpp b/include/ipaddress/config.hpp
index f0e52a7..11c621d 100644
--- a/include/ipaddress/config.hpp
+++ b/include/ipaddress/config.hpp
@@ -27,6 +27,7 @@
 #  include <sstream>
 #  include <iomanip>
 #  include <cstring>
+#  include <limits>
 #  include <numeric>
 #  include <iterator>
 #  include <algorithm>
-- 
2.43.0


From d70d63ae21ad88349b8cac291bff1ca3c57ad079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:11 +0000
Subject: [PATCH 02/26] fix: reject a prefix length larger than the address
 width in from_address

---
 include/ipaddress/ip-network-base.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 04a8136..6144d3b 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -424,7 +424,7 @@ public:
      */
     IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         auto code = error_code::no_error;
@@ -452,11 +452,16 @@ public:
     static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base from_address(
         const ip_address_type& address, 
         error_code& code, 
-        size_t prefixlen = ip_address_type::max_prefixlen, 
+        size_t prefixlen = ip_address_type::base_max_prefixlen, 
         bool strict = true
     ) IPADDRESS_NOEXCEPT {
         code = error_code::no_error;
 
+        if (prefixlen > ip_address_type::base_max_prefixlen) {
+            code = error_code::invalid_netmask;
+            return ip_network_base();
+        }
+
         const auto netmask = ip_address_type::ip_from_prefix(prefixlen); 
 
         ip_network_base result;
-- 
2.43.0


From 5c998f4c9eec5f86ee25e5cf0cf42777fa4d5c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 03/26] fix: supernet by the whole address width and uint128
 shifts by 128 shift out of range

---
 include/ipaddress/ip-network-base.hpp | 2 +-
 include/ipaddress/uint128.hpp         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 6144d3b..5b1dc5c 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1132,7 +1132,7 @@ public:
         }
 
         const auto new_prefix = prefixlen() - prefixlen_diff;
-        const auto address = ip_address_type::from_uint(network_address().to_uint() & (netmask().to_uint() << prefixlen_diff));
+        const auto address = ip_address_type::from_uint(network_address().to_uint() & ip_address_type::ip_from_prefix(new_prefix).to_uint());
         return ip_network_base<Base>::from_address(address, new_prefix);
     }
 
diff --git a/include/ipaddress/uint128.hpp b/include/ipaddress/uint128.hpp
index e4dfa96..71b0462 100644
--- a/include/ipaddress/uint128.hpp
+++ b/include/ipaddress/uint128.hpp
@@ -950,7 +950,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { _lower << (shift - 64), 0 };
         }
         if (shift < 64 && shift > 0) {
@@ -973,7 +973,7 @@ public:
         if (!shift) {
             return *this;
         }
-        if (shift >= 64 && shift <= 128) {
+        if (shift >= 64 && shift < 128) {
             return { 0, _upper >> (shift - 64) };
         }
         if (shift < 64 && shift > 0) {
-- 
2.43.0


From 3c5ffd23a4a50b1cf5290b755488b6471f826956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 04/26] fix: subnets and address_exclude leave a stale error
 code on success

---
 include/ipaddress/ip-network-base.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 5b1dc5c..2924c6e 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -943,6 +943,8 @@ public:
      * @remark `exclude_network_sequence` uses lazy evaluation to iterate networks.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence<ip_network_base<Base>> address_exclude(const ip_network_base& other, error_code& code) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto lhs = Base::remove_scope_id(*this);
         auto rhs = Base::remove_scope_id(other);
 
@@ -1025,6 +1027,8 @@ public:
      * @remark `subnets_sequence` uses lazy evaluation to iterate over the subnets.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE subnets_sequence<ip_network_base<Base>> subnets(error_code& code, size_t prefixlen_diff = 1, optional<size_t> new_prefixlen = nullptr) const IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
+
         auto address = Base::remove_scope_id(network_address());
 
         if (prefixlen() == ip_address_type::base_max_prefixlen) {
-- 
2.43.0


From 6741fe94e534ecaf3bcf78015e83b8de31166aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 05/26] fix: subnets accepts a prefix length difference so
 large that the sum wraps

---
 include/ipaddress/ip-network-base.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index 2924c6e..bea4eaf 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1047,13 +1047,13 @@ public:
             prefixlen_diff = new_prefixlen.value() - prefixlen();
         }
 
-        auto new_prefix = prefixlen() + prefixlen_diff;
-
-        if (new_prefix > ip_address_type::base_max_prefixlen) {
+        if (prefixlen_diff > ip_address_type::base_max_prefixlen - prefixlen()) {
             code = error_code::invalid_prefixlen_diff;
             return subnets_sequence<ip_network_base<Base>>();
         }
 
+        auto new_prefix = prefixlen() + prefixlen_diff;
+
         return subnets_sequence<ip_network_base<Base>>(address, broadcast_address(), hostmask(), prefixlen_diff, new_prefix);
     }
 
-- 
2.43.0


From 8564550b7d44d9737b4f9d42f07152dcf3f97487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 06/26] fix: iterators lose track of wraps below the start of
 the address space

---
 include/ipaddress/ip-address-iterator.hpp | 8 ++++----
 include/ipaddress/ip-network-iterator.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index dcbfc15..dafa271 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -792,7 +792,7 @@ private:
         const auto old = result._offset;
         ++result._offset;
         if (result._offset < old) {
-            result._carry = 1 - result._carry;
+            ++result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -803,7 +803,7 @@ private:
         const auto old = result._offset;
         --result._offset;
         if (result._offset > old) {
-            result._carry = 1 - result._carry;
+            --result._carry;
         }
         result._current = value_type::from_uint(result._offset);
         return result;
@@ -814,7 +814,7 @@ private:
             const auto old = _offset;
             _offset += n;
             if (_offset < old) {
-                _carry = 1 - _carry;
+                ++_carry;
             }
             _current = value_type::from_uint(_offset);
         }
@@ -825,7 +825,7 @@ private:
             const auto old = _offset;
             _offset -= n;
             if (_offset > old) {
-                _carry = 1 - _carry;
+                --_carry;
             }
             _current = value_type::from_uint(_offset);
         }
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index a40e03c..2393063 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -406,7 +406,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset += _step;
         if (result._it._offset < old) {
-            result._it._carry = 1 - result._it._carry;
+            ++result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
@@ -418,7 +418,7 @@ private:
         const auto old = result._it._offset;
         result._it._offset -= _step;
         if (result._it._offset > old) {
-        result._it._carry = 1 - result._it._carry;
+            --result._it._carry;
         }
         result._it._current = ip_address_type::from_uint(result._it._offset);
         result._current = value_type::from_address(*result._it, result._prefixlen);
-- 
2.43.0


From 0924223b5e5e03708bdb64cee15e8f4b434925ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 07/26] fix: negative iterator offsets and differences wrap
 around

---
 include/ipaddress/ip-address-iterator.hpp | 6 +++---
 include/ipaddress/ip-any-iterator.hpp     | 4 ++--
 include/ipaddress/ip-network-iterator.hpp | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index dafa271..1d08700 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -555,7 +555,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint_type() - uint_type(n)) : add(uint_type(n));
         return *this;
     }
 
@@ -581,7 +581,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint_type() - uint_type(n)) : sub(uint_type(n));
         return *this;
     }
 
@@ -689,7 +689,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_address_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_offset - other._offset);
+        return *this < other ? -difference_type(other._offset - _offset) : difference_type(_offset - other._offset);
     }
 
     /**
diff --git a/include/ipaddress/ip-any-iterator.hpp b/include/ipaddress/ip-any-iterator.hpp
index a4fa14b..cf2c4ac 100644
--- a/include/ipaddress/ip-any-iterator.hpp
+++ b/include/ipaddress/ip-any-iterator.hpp
@@ -177,7 +177,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint128_t() - uint128_t(n)) : add(uint128_t(n));
         return *this;
     }
 
@@ -203,7 +203,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_any_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint128_t() - uint128_t(n)) : sub(uint128_t(n));
         return *this;
     }
 
diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 2393063..34292e2 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -169,7 +169,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator+=(difference_type n) IPADDRESS_NOEXCEPT {
-        add(n);
+        n < 0 ? sub(uint_type() - uint_type(n)) : add(uint_type(n));
         return *this;
     }
 
@@ -195,7 +195,7 @@ public:
      * @return A reference to the updated iterator.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator& operator-=(difference_type n) IPADDRESS_NOEXCEPT {
-        sub(n);
+        n < 0 ? add(uint_type() - uint_type(n)) : sub(uint_type(n));
         return *this;
     }
 
-- 
2.43.0


From c5900afbc2f38fa19bd93f04576dd14314d043c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 08/26] fix: end of a host range at the top of the address
 space orders before its begin

---
 include/ipaddress/ip-address-iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-address-iterator.hpp b/include/ipaddress/ip-address-iterator.hpp
index 1d08700..3dc4a6a 100644
--- a/include/ipaddress/ip-address-iterator.hpp
+++ b/include/ipaddress/ip-address-iterator.hpp
@@ -891,7 +891,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(broadcast_address.to_uint() + 1);
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         } else if (prefixlen == max_prefixlen) {
             const auto begin = value_type::from_uint(network_address.to_uint());
             const auto end = value_type::from_uint(network_address.to_uint() + 1);
@@ -901,7 +901,7 @@ public:
             const auto begin = value_type::from_uint(network_address.to_uint() + 1);
             const auto end = value_type::from_uint(broadcast_address.to_uint() + (std::is_same<value_type, ipv6_address>::value ? 1 : 0));
             _begin = const_iterator(begin);
-            _end = const_iterator(end);
+            _end = const_iterator(end, end < begin ? 1 : 0);
         }
     }
 
-- 
2.43.0


From a7b7ffea8b5ed0b03b23a2cf9e0024555bcae6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:14 +0000
Subject: [PATCH 09/26] fix: subnet iteration over networks that touch or fill
 the whole address space

---
 include/ipaddress/ip-network-iterator.hpp | 33 +++++++++++------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 34292e2..cface81 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -67,7 +67,9 @@ public:
      *         which can correctly represent all addresses using the integer number uint128_t
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint_type uint_diff(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _it.uint_diff(other._it) / _step;
+        const auto steps = _step != 0 ? _it.uint_diff(other._it) / _step : uint_type();
+        const auto laps = _it._carry - other._it._carry - (_it._offset < other._it._offset ? 1 : 0);
+        return _prefixlen < ip_address_type::base_max_prefixlen ? steps + (uint_type(laps) << _prefixlen) : steps;
     }
 
     /**
@@ -303,7 +305,7 @@ public:
      * @return The number of elements between this and the other iterator.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE difference_type operator-(const ip_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return difference_type(_it - other._it);
+        return *this < other ? -difference_type(other.uint_diff(*this)) : difference_type(uint_diff(other));
     }
 
     /**
@@ -403,38 +405,33 @@ public:
 private:
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator base() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        const auto old = result._it._offset;
-        result._it._offset += _step;
-        if (result._it._offset < old) {
-            ++result._it._carry;
-        }
-        result._it._current = ip_address_type::from_uint(result._it._offset);
-        result._current = value_type::from_address(*result._it, result._prefixlen);
+        result.add(1);
         return result;
     }
 
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_iterator reverse() const IPADDRESS_NOEXCEPT {
         auto result = *this;
-        const auto old = result._it._offset;
-        result._it._offset -= _step;
-        if (result._it._offset > old) {
-            --result._it._carry;
-        }
-        result._it._current = ip_address_type::from_uint(result._it._offset);
-        result._current = value_type::from_address(*result._it, result._prefixlen);
+        result.sub(1);
         return result;
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void add(const uint_type& n) IPADDRESS_NOEXCEPT {
         _it += _step * n;
+        _it._carry += laps(n);
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void sub(const uint_type& n) IPADDRESS_NOEXCEPT {
         _it -= _step * n;
+        _it._carry -= laps(n);
         _current = value_type::from_address(*_it, _prefixlen);
     }
 
+    // how many times n networks of this size fill the whole address space
+    IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE int laps(const uint_type& n) const IPADDRESS_NOEXCEPT {
+        return _prefixlen < ip_address_type::base_max_prefixlen ? int(n >> _prefixlen) : 0;
+    }
+
     template <typename>
     friend class ip_reverse_iterator;
 
@@ -736,8 +733,8 @@ public:
         const auto end = ip_address_type::from_uint(end_uint + 1);
         const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
         _begin = const_iterator(begin, step, new_prefixlen);
-        _end = const_iterator(end, step, new_prefixlen, begin == end ? 1 : 0);
-        _size = (end_uint - begin_uint) / step + 1;
+        _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
+        _size = step != 0 ? (end_uint - begin_uint) / step + 1 : difference_type(1);
     }
 
     /**
-- 
2.43.0


From a561a3f78ecb3d72bca974965eb3954a49724096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 10/26] fix: excluding from a network at the start of the
 address space stops early

---
 include/ipaddress/ip-network-iterator.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index cface81..1d54b27 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -475,7 +475,7 @@ public:
      * @param[in] network The network to iterate over.
      * @param[in] other The network whose addresses are to be excluded.
      */
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_exclude_network_iterator(reference network, reference other) IPADDRESS_NOEXCEPT : _other(other), _current(network) {
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_exclude_network_iterator(reference network, reference other) IPADDRESS_NOEXCEPT : _other(other), _current(network), _at_end(false) {
         const auto subnets = network.subnets();
         _s1 = subnets[0];
         _s2 = subnets[1];
@@ -572,7 +572,7 @@ public:
      * @return `true` if the iterators are equal, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator==(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
-        return _current == other._current;
+        return _at_end == other._at_end && _current == other._current;
     }
 
     /**
@@ -598,6 +598,9 @@ public:
      * @return The result of the comparison as a std::strong_ordering value.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE std::strong_ordering operator<=>(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
+        if (_at_end != other._at_end) {
+            return _at_end <=> other._at_end;
+        }
         return other._current <=> _current;
     }
 
@@ -612,6 +615,9 @@ public:
      * @return `true` if the left iterator is less than the right iterator, `false` otherwise.
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool operator<(const ip_exclude_network_iterator& other) const IPADDRESS_NOEXCEPT {
+        if (_at_end != other._at_end) {
+            return other._at_end;
+        }
         return other._current < _current;
     }
 
@@ -658,6 +664,7 @@ private:
     value_type _s1{};
     value_type _s2{};
     value_type _current{};
+    bool _at_end = true;
 }; // ip_exclude_network_iterator
 
 /**
-- 
2.43.0


From acb0d53457d262ca7cd8bfbb37a3c50fc27f7323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 11/26] fix: excluding an unrelated network terminates instead
 of throwing

---
 include/ipaddress/ip-network-iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 1d54b27..7c9a8b8 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -475,7 +475,7 @@ public:
      * @param[in] network The network to iterate over.
      * @param[in] other The network whose addresses are to be excluded.
      */
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_exclude_network_iterator(reference network, reference other) IPADDRESS_NOEXCEPT : _other(other), _current(network), _at_end(false) {
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_exclude_network_iterator(reference network, reference other) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS : _other(other), _current(network), _at_end(false) {
         const auto subnets = network.subnets();
         _s1 = subnets[0];
         _s2 = subnets[1];
@@ -919,7 +919,7 @@ public:
      * @param[in] network The network to iterate over.
      * @param[in] other The network whose addresses are to be excluded.
      */
-    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence(const_reference network, const_reference other) IPADDRESS_NOEXCEPT 
+    IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE exclude_network_sequence(const_reference network, const_reference other) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS 
         : _begin(const_iterator(network, other)) {
     }
 
-- 
2.43.0


From cda1def024f41464eab79669cb79376b331a2f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 12/26] fix: a prefix length too long for size_t wraps into
 range

---
 include/ipaddress/base-v4.hpp | 4 +++-
 include/ipaddress/base-v6.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 3a225ee..7e91fb2 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -191,7 +191,9 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen <= base_max_prefixlen) {
+                    prefixlen = prefixlen * 10 + (c - '0');
+                }
             } else {
                 is_value = false;
                 break;
diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 2f155cb..9e9d81f 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -253,7 +253,9 @@ protected:
                 return std::make_tuple(ip_address_base<Ext>(), 0);
             }
             if (c >= '0' && c <= '9') {
-                prefixlen = prefixlen * 10 + (c - '0');
+                if (prefixlen <= base_max_prefixlen) {
+                    prefixlen = prefixlen * 10 + (c - '0');
+                }
             } else {
                 code = error_code::invalid_netmask;
                 return std::make_tuple(ip_address_base<Ext>(), 0);
-- 
2.43.0


From b6df2287a6bf80713a5ce7b5ced75fcda4186166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:09 +0000
Subject: [PATCH 13/26] fix: the netmask 0.0.0.0 shifts out of range and reads
 as a hostmask

---
 include/ipaddress/base-v4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 7e91fb2..59fd1ad 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -245,7 +245,7 @@ private:
         auto trailing_zeroes = count_righthand_zero_bits(ip, base_max_prefixlen);
         auto prefixlen = base_max_prefixlen - trailing_zeroes;
         auto leading_ones = trailing_zeroes != 32 ? (ip >> trailing_zeroes) : 0;
-        auto all_ones = (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1); // NOLINT
+        auto all_ones = prefixlen != 0 ? (uint_type(1) << (prefixlen - 1) << 1) - uint_type(1) : uint_type(0); // NOLINT
         if (leading_ones != all_ones) {
             code = error_code::netmask_pattern_mixes_zeroes_and_ones;
             return 0;
-- 
2.43.0


From 10191993d6267cb125d338b5eb154dfa109b4b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:23 +0000
Subject: [PATCH 14/26] fix: a network text with an over-long address part is
 truncated and accepted

---
 include/ipaddress/ip-network-base.hpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index bea4eaf..f57ff6b 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1269,8 +1269,7 @@ private:
         auto end = str.data() + str.size();
         auto has_slash = false;
         auto netmask = end;
-        auto symbol = 0;
-        char address[ip_address_type::base_max_string_len + 1] = {};
+        auto address_end = end;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, code, code_value);
             if (code != error_code::no_error) {
@@ -1286,14 +1285,9 @@ private:
                     return ip_network_base<Base>();
                 }
                 netmask = it;
+                address_end = it - 1;
                 has_slash = true;
             }
-            if (!has_slash) {
-                address[symbol++] = c;
-            }
-            if (symbol > ip_address_type::base_max_string_len) {
-                break;
-            }
         }
 
         auto netmask_result = ip_address_type::parse_netmask(netmask, end, code, code_value);
@@ -1303,7 +1297,8 @@ private:
         }
 
         ip_network_base<Base> result;
-        result._network_address = ip_address_type::parse(address, code);
+        uint32_t address_value = 0;
+        result._network_address = ip_address_type::ip_from_string(str.data(), address_end, code, address_value);
         result._netmask = std::get<0>(netmask_result);
         result._prefixlen = std::get<1>(netmask_result);
 
-- 
2.43.0


From 2f232316b4394523a9f22c6fb92c7d305bf2769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:55 +0000
Subject: [PATCH 15/26] fix: overlong and broken UTF-8 sequences are read as
 ASCII

---
 include/ipaddress/unicode.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/ipaddress/unicode.hpp b/include/ipaddress/unicode.hpp
index 2caa68e..7a06ccb 100644
--- a/include/ipaddress/unicode.hpp
+++ b/include/ipaddress/unicode.hpp
@@ -61,17 +61,20 @@ struct utf8_reader {
                 
                 case 2:
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
+                    correct = correct && symbol.value >= 0x80;
                     break;
                     
                 case 3:
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
+                    correct = correct && symbol.value >= 0x800;
                     break;
                     
                 case 4:
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
                     symbol.value = (symbol.value << 6) | trailing_utf8_code_point(it, end, correct);
+                    correct = correct && symbol.value >= 0x10000;
                     break;
                     
                 default:
@@ -79,7 +82,9 @@ struct utf8_reader {
                     break;
             }
         }
-        ++it;
+        if (it < end) {
+            ++it;
+        }
         if (!correct) {
             error = error_code::wrong_encoding_sequence;
             return '\0';
@@ -109,12 +114,11 @@ struct utf8_reader {
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE uint32_t trailing_utf8_code_point(const T*& it, const T* end, bool& correct) IPADDRESS_NOEXCEPT {
-        if (++it >= end) {
+        if (!correct || ++it >= end) {
             correct = false;
             return 0;
         } 
         if ((uint8_t(*it) & 0b11000000) == 0b10000000) {
-            correct = true;
             return uint8_t(*it) & 0b00111111;
         } 
         correct = false;
@@ -150,7 +154,9 @@ struct utf16_reader {
                 correct = false;
                 break;
         }
-        ++it;
+        if (it < end) {
+            ++it;
+        }
         if (!correct) {
             error = error_code::wrong_encoding_sequence;
             return '\0';
-- 
2.43.0


From 7ab9dfe4033bd9dc169a77a03b216dbbd6936b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:12 +0000
Subject: [PATCH 16/26] fix: embedded NUL characters end an IPv6 part or scope
 id silently

---
 include/ipaddress/base-v6.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 9e9d81f..643f6cc 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -20,7 +20,7 @@ namespace IPADDRESS_NAMESPACE {
 namespace internal {
 
 IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool is_invalid_scope_id_symbol(char c) IPADDRESS_NOEXCEPT {
-    return c == '%' || c == '/' 
+    return c == '%' || c == '/' || c == '\0'
 #ifndef IPADDRESS_SCOPE_ID_SUPPORT_SPACES
     || c == ' ' || (c >= '\t' && c <= '\r')
 #endif // IPADDRESS_SCOPE_ID_SUPPORT_SPACES
@@ -367,6 +367,10 @@ private:
             if (!has_double_colon && c == ':' && prev_c == ':') {
                 has_double_colon = true;
             }
+            if (c == '\0') {
+                error = error_code::part_has_invalid_symbol;
+                return empty_parts;
+            }
             if (parts_count > _max_parts) {
                 error = has_double_colon
                     ? error_code::expected_at_most_7_other_parts_with_double_colon 
-- 
2.43.0


From a4a1b8167df521727fd40b43c8f0150253f48db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 17/26] fix: set_scope_id leaves a stale error code when it has
 nothing to do

---
 include/ipaddress/ip-any-address.hpp |  9 +++++++++
 include/ipaddress/ipv6-address.hpp   | 10 ++++++++++
 2 files changed, 19 insertions(+)

diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index 32179d6..0095307 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -854,6 +854,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -875,6 +876,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::wstring_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -893,6 +895,7 @@ public:
      * @remark If scope is disabled in settings (`IPADDRESS_IPV6_SCOPE_MAX_LENGTH == 0`) then this call will have no effect.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u8string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -916,6 +919,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u16string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -937,6 +941,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u32string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1087,6 +1092,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1099,6 +1105,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::wstring& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1111,6 +1118,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u16string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
@@ -1123,6 +1131,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u32string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
         if (_version == ip_version::V6) {
             _ipv.ipv6.set_scope_id(scope_id, code);
         }
diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index ed081ff..64f4bfd 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -334,6 +334,7 @@ public:
      */
     template <typename T, size_t N>
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(const T(&scope_id)[N], error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         static_assert(N <= IPADDRESS_IPV6_SCOPE_MAX_LENGTH + 1, "scope id is too long");
         const auto fixed_scope = make_fixed_string(scope_id, code);
@@ -470,6 +471,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
@@ -491,6 +493,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::wstring_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
@@ -509,6 +512,7 @@ public:
      * @remark If scope is disabled in settings (`IPADDRESS_IPV6_SCOPE_MAX_LENGTH == 0`) then this call will have no effect.
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u8string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
@@ -532,6 +536,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u16string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
@@ -553,6 +558,7 @@ public:
      * @endparblock
      */
     IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE void set_scope_id(std::u32string_view scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
@@ -615,6 +621,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
@@ -627,6 +634,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::wstring& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
@@ -639,6 +647,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u16string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
@@ -651,6 +660,7 @@ public:
      * @param[out] code An error_code object that will store the result of the operation.
      */
     IPADDRESS_FORCE_INLINE void set_scope_id(const std::u32string& scope_id, error_code& code) IPADDRESS_NOEXCEPT {
+        code = error_code::no_error;
     #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
         internal::ipv6_set_scope<ipv6_address_base>::change(_data.scope_id, scope_id, code);
     #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
-- 
2.43.0


From 5c1d3e65676ad3f8b5f9bbdf370a0a6e3532e840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 18/26] fix: IPv6 less-than lets the scope id override the
 address without three-way comparison

---
 include/ipaddress/ipv6-address.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 64f4bfd..10f27fe 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -818,12 +818,12 @@ protected:
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE bool less(const ip_address_base<ipv6_address_base>& lhs, const ip_address_base<ipv6_address_base>& rhs) IPADDRESS_NOEXCEPT {
-        return lhs._data.bytes < rhs._data.bytes 
-        
-        #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
-            ? true : lhs._data.scope_id.compare(rhs._data.scope_id) < 0;
-        #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
-            ;
+    #if IPADDRESS_IPV6_SCOPE_MAX_LENGTH > 0
+        if (lhs._data.bytes == rhs._data.bytes) {
+            return lhs._data.scope_id.compare(rhs._data.scope_id) < 0;
+        }
+    #endif // IPADDRESS_IPV6_SCOPE_MAX_LENGTH
+        return lhs._data.bytes < rhs._data.bytes;
     }
 
 #ifdef IPADDRESS_HAS_SPACESHIP_OPERATOR
-- 
2.43.0


From 4ab9438039e6f94060daf6156751e8b38ffff171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 19/26] fix: integer conversions reverse the bytes on
 big-endian hosts

---
 include/ipaddress/base-v4.hpp      |  4 ++--
 include/ipaddress/ipv6-address.hpp | 16 ++--------------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/ipaddress/base-v4.hpp b/include/ipaddress/base-v4.hpp
index 59fd1ad..aaaeb59 100644
--- a/include/ipaddress/base-v4.hpp
+++ b/include/ipaddress/base-v4.hpp
@@ -131,7 +131,7 @@ protected:
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<Ext> ip_from_uint32(uint_type ip) IPADDRESS_NOEXCEPT {
-        ip = is_little_endian() ? swap_bytes(ip) : ip;
+        ip = swap_bytes(ip);
         return ip_address_base<Ext>({
             uint8_t(ip & 0xFF),
             uint8_t((ip >> 8) & 0xFF),
@@ -151,7 +151,7 @@ protected:
             (uint32_t(bytes[2]) << 16) | 
             (uint32_t(bytes[1]) << 8) | 
             (uint32_t(bytes[0]));
-        return is_little_endian() ? swap_bytes(ip) : ip;
+        return swap_bytes(ip);
     }
 
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE size_t ip_to_chars(const base_type& bytes, format /*fmt*/, char (&result)[base_max_string_len + 1]) IPADDRESS_NOEXCEPT {
diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 10f27fe..a0a4af1 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -677,13 +677,7 @@ public:
     IPADDRESS_NODISCARD static IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<ipv6_address_base> from_uint(uint_type ip) IPADDRESS_NOEXCEPT {
         ip_address_base<ipv6_address_base> result;
         auto& bytes = result._data.bytes;
-        int shift = 0;
-        int inc = 8;
-        if (is_little_endian()) {
-            shift = 56;
-            inc = -8;
-        }
-        for (int i = 0, s = shift; i < 8; ++i, s += inc) {
+        for (int i = 0, s = 56; i < 8; ++i, s -= 8) {
             bytes[i] = uint8_t(ip.upper() >> s);
             bytes[i + 8] = uint8_t(ip.lower() >> s);
         }
@@ -700,13 +694,7 @@ public:
         const auto& bytes = _data.bytes;
         uint64_t upper = 0;
         uint64_t lower = 0;
-        int shift = 0;
-        int inc = 8;
-        if (is_little_endian()) {
-            shift = 56;
-            inc = -8;
-        }
-        for (int i = 0, s = shift; i < 8; ++i, s += inc) {
+        for (int i = 0, s = 56; i < 8; ++i, s -= 8) {
             upper |= uint64_t(bytes[i]) << s;
             lower |= uint64_t(bytes[i + 8]) << s;
         }
-- 
2.43.0


From 2a35093b0e7cf46a45acffb570ff4fae1d0afaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 20/26] fix: the numeric value of a scope id wraps past 32 bits

---
 include/ipaddress/ipv6-address.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index a0a4af1..2458e7d 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -246,7 +246,7 @@ private:
             const auto scope_id_size = _scope_id.size();
             for (size_t i = 0; i < scope_id_size; ++i) {
                 const auto c = _scope_id[i];
-                if (c >= '0' && c <= '9') {
+                if (c >= '0' && c <= '9' && value <= (UINT32_MAX - uint32_t(c - '0')) / 10) {
                     value = value * 10 + (c - '0');
                 } else {
                     _has_value = false;
-- 
2.43.0


From 8da56bedce73958d1361c33506a5e1842411c710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 21/26] fix: ipv4_mapped ignores the first ten bytes of the
 prefix

---
 include/ipaddress/ipv6-address.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/ipaddress/ipv6-address.hpp b/include/ipaddress/ipv6-address.hpp
index 2458e7d..b1cf09f 100644
--- a/include/ipaddress/ipv6-address.hpp
+++ b/include/ipaddress/ipv6-address.hpp
@@ -719,6 +719,11 @@ public:
      */
     IPADDRESS_NODISCARD IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE optional<ipv4_address> ipv4_mapped() const IPADDRESS_NOEXCEPT {
         const auto& b = bytes();
+        for (size_t i = 0; i < 10; ++i) {
+            if (b[i] != 0) {
+                return nullptr;
+            }
+        }
         if (b[10] != 0xFF || b[11] != 0xFF) {
             return nullptr;
         } 
-- 
2.43.0


From ee77d639ae927801d1cb909b27ebe9d2fd8adb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:14 +0000
Subject: [PATCH 22/26] fix: an over-long literal is truncated and accepted
 when exceptions are disabled

---
 include/ipaddress/ip-address-base.hpp | 1 +
 include/ipaddress/ip-any-address.hpp  | 4 ++++
 include/ipaddress/ip-any-network.hpp  | 4 ++++
 include/ipaddress/ip-network-base.hpp | 1 +
 4 files changed, 10 insertions(+)

diff --git a/include/ipaddress/ip-address-base.hpp b/include/ipaddress/ip-address-base.hpp
index cc2af04..ea2b142 100644
--- a/include/ipaddress/ip-address-base.hpp
+++ b/include/ipaddress/ip-address-base.hpp
@@ -786,6 +786,7 @@ template <typename Base, typename TChar, size_t MaxLen>
 IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address_base<Base> parse_ip_from_literal(const TChar* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
     if (size > MaxLen) {
         raise_error(error_code::string_is_too_long, 0, address, size);
+        return {};
     }
     TChar str[MaxLen + 1] = {};
     for (size_t i = 0; i < size && i < MaxLen; ++i) {
diff --git a/include/ipaddress/ip-any-address.hpp b/include/ipaddress/ip-any-address.hpp
index 0095307..e02be86 100644
--- a/include/ipaddress/ip-any-address.hpp
+++ b/include/ipaddress/ip-any-address.hpp
@@ -1396,6 +1396,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const char* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
@@ -1414,6 +1415,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const wchar_t* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         wchar_t str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
@@ -1432,6 +1434,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const char16_t* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char16_t str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
@@ -1450,6 +1453,7 @@ private:
     IPADDRESS_EXPORT IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_address operator""_ip(const char32_t* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
         if (size > ipv6_address::base_max_string_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char32_t str[ipv6_address::base_max_string_len + 1] = {};
         for (size_t i = 0; i < size && i < ipv6_address::base_max_string_len; ++i) {
diff --git a/include/ipaddress/ip-any-network.hpp b/include/ipaddress/ip-any-network.hpp
index a28289c..33e3508 100644
--- a/include/ipaddress/ip-any-network.hpp
+++ b/include/ipaddress/ip-any-network.hpp
@@ -1362,6 +1362,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
@@ -1384,6 +1385,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         wchar_t str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
@@ -1406,6 +1408,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char16_t str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
@@ -1428,6 +1431,7 @@ private:
         const auto max_len = ipv6_address::base_max_string_len * 2 + 1;
         if (size > max_len) {
             raise_error(error_code::string_is_too_long, 0, address, size);
+            return {};
         }
         char32_t str[max_len + 1] = {};
         for (size_t i = 0; i < size && i < max_len; ++i) {
diff --git a/include/ipaddress/ip-network-base.hpp b/include/ipaddress/ip-network-base.hpp
index f57ff6b..6e1e0c1 100644
--- a/include/ipaddress/ip-network-base.hpp
+++ b/include/ipaddress/ip-network-base.hpp
@@ -1332,6 +1332,7 @@ template <typename Base, typename TChar, size_t MaxLen>
 IPADDRESS_NODISCARD_WHEN_NO_EXCEPTIONS IPADDRESS_CONSTEXPR IPADDRESS_FORCE_INLINE ip_network_base<Base> parse_net_from_literal(const TChar* address, size_t size) IPADDRESS_NOEXCEPT_WHEN_NO_EXCEPTIONS {
     if (size > MaxLen) {
         raise_error(error_code::string_is_too_long, 0, address, size);
+        return {};
     }
     TChar str[MaxLen + 1] = {};
     for (size_t i = 0; i < size && i < MaxLen; ++i) {
-- 
2.43.0


From a1674be31dc78c114e82bb5ffc8edbf4c63e791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:25 +0000
Subject: [PATCH 23/26] fix: splitting an IPv4 /0 into /32 networks shifts a
 32-bit integer by 32

---
 include/ipaddress/ip-network-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/ip-network-iterator.hpp b/include/ipaddress/ip-network-iterator.hpp
index 7c9a8b8..459efa1 100644
--- a/include/ipaddress/ip-network-iterator.hpp
+++ b/include/ipaddress/ip-network-iterator.hpp
@@ -738,7 +738,7 @@ public:
         const auto end_uint = broadcast_address.to_uint();
         const auto begin = ip_address_type::from_uint(begin_uint);
         const auto end = ip_address_type::from_uint(end_uint + 1);
-        const auto step = (hostmask.to_uint() >> prefixlen_diff) + 1;
+        const auto step = prefixlen_diff < ip_address_type::base_max_prefixlen ? (hostmask.to_uint() >> prefixlen_diff) + 1 : difference_type(1);
         _begin = const_iterator(begin, step, new_prefixlen);
         _end = const_iterator(end, step, new_prefixlen, end <= begin ? 1 : 0);
         _size = step != 0 ? (end_uint - begin_uint) / step + 1 : difference_type(1);
-- 
2.43.0


From 6fad5b1d7213040fec338df5b90c157776031c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:15 +0000
Subject: [PATCH 24/26] fix: an IPv6 text with a leading '::', five groups and
 a dotted tail is rejected

---
 include/ipaddress/base-v6.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 643f6cc..5be8d6b 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -423,7 +423,7 @@ private:
         }
 
         if (has_ipv4) {
-            if (parts_count + 1 >= _max_parts) {
+            if (parts_count + (has_double_colon ? 1 : 2) > _max_parts) {
                 error = error_code::most_8_colons_permitted;
                 return empty_parts;
             }
-- 
2.43.0


From 1736de8426f212ad4834d5bcb6f994da307ac12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:50 +0000
Subject: [PATCH 25/26] fix: parsing an IPv6 text that starts with a percent
 sign compares a null iterator with the text

---
 include/ipaddress/base-v6.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ipaddress/base-v6.hpp b/include/ipaddress/base-v6.hpp
index 5be8d6b..2ea82e6 100644
--- a/include/ipaddress/base-v6.hpp
+++ b/include/ipaddress/base-v6.hpp
@@ -306,6 +306,7 @@ private:
         auto it = begin;
         auto scope = false;
         ip_and_scope<Iter> result{};
+        result.end_ip = begin;
         while (it < end) {
             const auto c = internal::next_char_or_error(it, end, error, error_value);
             if (error != error_code::no_error) {
-- 
2.43.0


From ec6d87074d23b85a0cb369d21e11552d5e6a9c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:37 +0000
Subject: [PATCH 26/26] fix: clang without exceptions accepts invalid
 compile-time literals before C++20

---
 include/ipaddress/config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ipaddress/config.hpp b/include/ipaddress/config.hpp
index 11c621d..5c6a0b0 100644
--- a/include/ipaddress/config.hpp
+++ b/include/ipaddress/config.hpp
@@ -140,7 +140,7 @@
 
 #if __cpp_lib_is_constant_evaluated >= 201811L
 #  define IPADDRESS_IS_CONST_EVALUATED(x) std::is_constant_evaluated()
-#elif __GNUC__ >= 9
+#elif __GNUC__ >= 9 || (defined(__clang__) && __clang_major__ >= 9)
 #  define IPADDRESS_IS_CONST_EVALUATED(x) __builtin_is_constant_evaluated()
 #elif __GNUC__ >= 6
 #  define IPADDRESS_IS_CONST_EVALUATED(x) __builtin_constant_p(x)
-- 
2.43.0

