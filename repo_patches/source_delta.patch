From eb0f4367ffa430724ec92cb9d0f12b9b6ccd341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 1/9] fix: reject 2^N and NaN when converting floating point to
 integers with error checking

---
 include/dynd/assignment.hpp | 50 +++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 8a92aa2..1800918 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -240,13 +240,29 @@ check_cast(ArgType s, inexact_check_t) {
   return d;
 }
 
+namespace detail {
+
+  /**
+   * True if the floating point value is a NaN or lies outside of the range of
+   * the integer type. The maximum of an integer type with more bits than the
+   * significand rounds up to a power of two, which is itself out of range.
+   */
+  template <typename IntType, typename RealType>
+  inline bool is_float_out_of_int_range(RealType s) {
+    const RealType lo = static_cast<RealType>(std::numeric_limits<IntType>::min());
+    const RealType hi = static_cast<RealType>(std::numeric_limits<IntType>::max());
+    const bool hi_is_exact =
+        8 * sizeof(IntType) - (is_signed<IntType>::value ? 1 : 0) <= std::numeric_limits<RealType>::digits;
+    return !(s >= lo && (hi_is_exact ? s <= hi : s < hi));
+  }
+
+} // namespace dynd::detail
+
 // Floating point -> signed int with overflow checking
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (detail::is_float_out_of_int_range<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -267,9 +283,7 @@ overflow_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (detail::is_float_out_of_int_range<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -284,9 +298,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (detail::is_float_out_of_int_range<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -305,9 +317,7 @@ overflow_cast(ArgType s) {
     ss << s << " to " << ndt::make_type<RetType>();
     throw std::runtime_error(ss.str());
   }
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (detail::is_float_out_of_int_range<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -508,9 +518,7 @@ overflow_cast(ArgType s) {
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (detail::is_float_out_of_int_range<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -537,9 +545,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (detail::is_float_out_of_int_range<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -560,9 +566,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (detail::is_float_out_of_int_range<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -589,9 +593,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (detail::is_float_out_of_int_range<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
-- 
2.43.0


From ac1d798919b38a97ad1bb6e95aa0cd0d38edfab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 2/9] fix: two's complement arithmetic of the 128-bit integer
 classes (borrow, sign extension, negation, conversion to real)

---
 include/dynd/int128.hpp  |  9 ++++-----
 include/dynd/uint128.hpp | 22 ++++++++++------------
 src/dynd/int128.cpp      | 18 +++---------------
 3 files changed, 17 insertions(+), 32 deletions(-)

diff --git a/include/dynd/int128.hpp b/include/dynd/int128.hpp
index d815039..c3e475d 100644
--- a/include/dynd/int128.hpp
+++ b/include/dynd/int128.hpp
@@ -93,7 +93,7 @@ public:
   int128 &operator+=(const int128 &rhs)
   {
     uint64_t lo = m_lo + rhs.m_lo;
-    *this = int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    *this = int128(m_hi + rhs.m_hi + (lo < m_lo), lo);
 
     return *this;
   }
@@ -114,8 +114,7 @@ public:
 
   int128 operator-(const int128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    return int128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), m_lo - rhs.m_lo);
   }
 
   int128 operator*(uint32_t rhs) const;
@@ -128,7 +127,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.f;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.f);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.f;
@@ -139,7 +138,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.0;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.0);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.0;
diff --git a/include/dynd/uint128.hpp b/include/dynd/uint128.hpp
index 45ba2dd..ca45fae 100644
--- a/include/dynd/uint128.hpp
+++ b/include/dynd/uint128.hpp
@@ -28,16 +28,16 @@ public:
 
   uint128(bool1) { throw std::runtime_error("uint128(bool1) is not implemented"); }
 
-  uint128(char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(signed char value) : m_lo(value), m_hi(0ULL) {}
+  uint128(char value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
+  uint128(signed char value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(short value) : m_lo(value), m_hi(0ULL) {}
+  uint128(short value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned short value) : m_lo(value), m_hi(0ULL) {}
-  uint128(int value) : m_lo(value), m_hi(0ULL) {}
+  uint128(int value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned int value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long long value) : m_lo((int64_t)value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long long value) : m_lo(value), m_hi(0ULL) {}
   uint128(float value);
   uint128(double value);
@@ -59,7 +59,7 @@ public:
   {
     DYND_ALLOW_UNSIGNED_UNARY_MINUS
     if (this->m_lo != 0) {
-      return uint128(!this->m_hi, -this->m_lo);
+      return uint128(~this->m_hi, -this->m_lo);
     }
     else {
       return uint128(-this->m_hi, 0);
@@ -67,7 +67,7 @@ public:
     DYND_END_ALLOW_UNSIGNED_UNARY_MINUS
   }
 
-  bool operator!() const { return (m_hi != 0) && (m_lo != 0); }
+  bool operator!() const { return (m_hi == 0) && (m_lo == 0); }
 
   uint128 operator~() const { return uint128(~m_hi, ~m_lo); }
 
@@ -111,14 +111,12 @@ public:
 
   uint128 operator-(const uint128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return uint128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    return uint128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), m_lo - rhs.m_lo);
   }
 
   uint128 operator-(uint64_t rhs) const
   {
-    uint64_t lo = m_lo + ~rhs + 1;
-    return uint128(m_hi + 0xffffffffffffffffULL + (lo < m_lo), lo);
+    return uint128(m_hi - (m_lo < rhs), m_lo - rhs);
   }
 
   uint128 operator*(uint32_t rhs) const;
diff --git a/src/dynd/int128.cpp b/src/dynd/int128.cpp
index 9f6c140..65c348a 100644
--- a/src/dynd/int128.cpp
+++ b/src/dynd/int128.cpp
@@ -75,21 +75,9 @@ dynd::int128::int128(const float128 &DYND_UNUSED(value))
 
 int128 dynd::int128::operator*(uint32_t rhs) const
 {
-  if ((int64_t)m_hi < 0) {
-    // TODO: fix case for minimum int, which will recurse forever
-    return -(-(*this) * rhs);
-  } else {
-    // Split the multiplication into three
-    // First product
-    uint64_t lo_partial = (m_lo & 0x00000000ffffffffULL) * rhs;
-    // Second product
-    uint64_t tmp = ((m_lo & 0xffffffff00000000ULL) >> 32) * rhs;
-    uint64_t lo = lo_partial + (tmp << 32);
-    uint64_t hi = (tmp >> 32) + (lo < lo_partial);
-    // Third product
-    hi += m_hi * rhs;
-    return int128(hi, lo);
-  }
+  // The low 128 bits of the product do not depend on the signedness
+  uint128 tmp = uint128(m_hi, m_lo) * rhs;
+  return int128(tmp.m_hi, tmp.m_lo);
 }
 
 /*
-- 
2.43.0


From 6df1f61a3af0aa1808a3aa5e41685a9d52986b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 3/9] fix: decoding of malformed UTF-8 and UTF-16 without error
 checking (no progress on a bad lead byte, read past the end)

---
 src/dynd/string_encodings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 6f1135a..4fbe9e8 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -133,6 +133,8 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   utf8::internal::utf_error err = utf8::internal::UTF8_OK;
   switch (length) {
   case 0:
+    // Skip the invalid lead byte, so that the caller makes progress
+    ++it;
     return ERROR_SUBSTITUTE_CODEPOINT;
   case 1:
     err = utf8::internal::get_sequence_1(it, end, cp);
@@ -238,7 +240,7 @@ uint32_t noerror_next_utf16(const char *&it_raw, const char *end_raw) {
   it_raw += 2;
   // Take care of surrogate pairs first
   if (utf8::internal::is_lead_surrogate(cp)) {
-    if (it_raw <= end_raw + 2) {
+    if (it_raw + 2 <= end_raw) {
       uint32_t trail_surrogate = *reinterpret_cast<const uint16_t *>(it_raw);
       it_raw += 2;
       if (utf8::internal::is_trail_surrogate(trail_surrogate)) {
-- 
2.43.0


From ef95a974d8799d05878b1f54d68ca3dd3c2116a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:27 +0000
Subject: [PATCH 4/9] fix: string/bytes self assignment and append, shrinking
 short values and compounding growth

assign() and append() of a range of the object's own bytes read overwritten or freed
memory, resize() of a short value ORed the old and the new size, and every
resize_grow() multiplied the capacity by 3/2 even when no growth was needed.
---
 include/dynd/types/sso_bytestring.hpp | 34 ++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 37f7ae0..d09844f 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -32,12 +32,20 @@ protected:
   char *sso_data() { return reinterpret_cast<char *>(this); }
   const char *sso_data() const { return reinterpret_cast<const char *>(this); }
   constexpr size_t sso_capacity() const { return 15u - NulPadding; }
-  /** When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment */
+  /** Sets the size byte used with SSO, leaving the other bytes as they are */
+  void set_sso_size(size_t size) {
+    m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & 0x00ffffffffffffffULL) |
+                                  (static_cast<uint64_t>(size) << 56));
+  }
+  /**
+   * When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment.
+   * NOTE: `data` may point into this object.
+   */
   void sso_assign(const char *data, size_t size) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(size) << 56);
-      DYND_MEMCPY(sso_data(), data, size);
-      // Zero out the rest of the bytes for a unique representation
-      memset(sso_data() + size, 0, 15u - size);
+    memmove(sso_data(), data, size);
+    // Zero out the rest of the bytes for a unique representation
+    memset(sso_data() + size, 0, 15u - size);
+    set_sso_size(size);
   }
 
   /** When SSO is not used, the size is stored in m_size */
@@ -116,7 +124,8 @@ public:
       }
     } else if (size <= capacity()) {
       char *heapdata = heap_data();
-      DYND_MEMCPY(heapdata, bytestr, size);
+      // `bytestr` may point into this object
+      memmove(heapdata, bytestr, size);
       if (NulPadding) {
         heapdata[size] = 0;
       }
@@ -146,8 +155,11 @@ public:
 
   void append(const char *bytestr, size_t bssize) {
     size_t old_size = size();
+    // If `bytestr` points into this object, find it again after the resize
+    bool own_data = bytestr >= data() && bytestr < data() + old_size;
+    size_t own_offset = own_data ? bytestr - data() : 0;
     resize_grow(old_size + bssize);
-    DYND_MEMCPY(data() + old_size, bytestr, bssize);
+    DYND_MEMCPY(data() + old_size, own_data ? data() + own_offset : bytestr, bssize);
   }
 
   void clear() {
@@ -174,13 +186,17 @@ public:
   }
 
   /** Like reserve(), but with exponential growth */
-  void reserve_grow(size_t new_capacity) { reserve(std::max(new_capacity, capacity() * 3 / 2)); }
+  void reserve_grow(size_t new_capacity) {
+    if (capacity() < new_capacity) {
+      reserve(std::max(new_capacity, capacity() * 3 / 2));
+    }
+  }
 
   /** Resizes the bytestring to the specified number of bytes */
   void resize(size_t new_size) {
     reserve(new_size);
     if (is_sso()) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(m_size) | (static_cast<uint64_t>(new_size) << 56));
+      set_sso_size(new_size);
       // Always keep the unused SSO bytes as 0 for unique representation and NUL-padding when that is enabled
       memset(sso_data() + new_size, 0, 15u - new_size);
     } else {
-- 
2.43.0


From 27ead0a3365946d74a48ff7a117a21c3c66b452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 5/9] fix: slice with a step whose sum with the range exceeds
 the integer range (size computed by overflowing addition)

---
 src/dynd/shape_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index db02636..3a0c287 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -365,7 +365,7 @@ void dynd::apply_single_linear_index(const irange &irnge, intptr_t dimension_siz
         // Range with a stride
         out_start_index = start;
         out_index_stride = step;
-        out_dimension_size = (size + step - 1) / step;
+        out_dimension_size = (size - 1) / step + 1;
       }
     }
     else {
@@ -458,7 +458,7 @@ void dynd::apply_single_linear_index(const irange &irnge, intptr_t dimension_siz
         // Range with a stride
         out_start_index = start;
         out_index_stride = step;
-        out_dimension_size = (size + (-step) - 1) / (-step);
+        out_dimension_size = 1 - (size - 1) / step;
       }
     }
     else {
-- 
2.43.0


From b4ac3a18ab0c6cef81f66b2f6909de5751a25a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 6/9] fix: axis_perm_to_strides returned the dimension sizes
 instead of the strides

---
 src/dynd/shape_tools.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dynd/shape_tools.cpp b/src/dynd/shape_tools.cpp
index 3a0c287..7f51cb9 100644
--- a/src/dynd/shape_tools.cpp
+++ b/src/dynd/shape_tools.cpp
@@ -127,7 +127,6 @@ void dynd::axis_perm_to_strides(intptr_t ndim, const int *axis_perm, const intpt
     int i_perm = axis_perm[i];
     intptr_t dim_size = shape[i_perm];
     out_strides[i_perm] = dim_size > 1 ? element_size : 0;
-    out_strides[i_perm] = dim_size;
     element_size *= dim_size;
   }
 }
-- 
2.43.0


From 4c3b7e46bd71828ad74579afb072d08d3ec2a61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:51 +0000
Subject: [PATCH 7/9] fix: broadcasting in elementwise evaluation (size-one and
 missing dimensions, fixed mixed with var dimensions)

---
 include/dynd/callables/base_elwise_callable.hpp     |  5 +----
 include/dynd/callables/elwise_callable.hpp          |  9 ++++++---
 include/dynd/callables/elwise_dispatch_callable.hpp | 10 ++++++++--
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 56054ee..e1f6b77 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -63,15 +63,12 @@ namespace nd {
             arg_element_tp[i] = arg_tp[i];
           } else {
             arg_size[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_dim_size();
-            if (arg_size[i] == 1) {
-              data.arg_broadcast[i] = true;
-            }
             arg_element_tp[i] = arg_tp[i].extended<ndt::base_dim_type>()->get_element_type();
           }
         }
 
         for (size_t i = 0; i < N; ++i) {
-          data.arg_var[i] = arg_tp[i].get_id() == var_dim_id;
+          data.arg_var[i] = !data.arg_broadcast[i] && arg_tp[i].get_id() == var_dim_id;
         }
 
         intptr_t res_size;
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index c6b2377..8c335c9 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -77,7 +77,8 @@ namespace nd {
               src_stride[i] = 0;
               child_src_arrmeta[i] = src_arrmeta[i];
             } else {
-              src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
+              const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
+              src_stride[i] = src_md->dim_size == 1 ? 0 : src_md->stride;
               child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
             }
           }
@@ -125,9 +126,10 @@ namespace nd {
                 src_stride[i] = 0;
                 child_src_arrmeta[i] = src_arrmeta[i];
               } else {
+                const size_stride_t *src_md = reinterpret_cast<const size_stride_t *>(src_arrmeta[i]);
                 src_offset[i] = 0;
-                src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
-                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
+                src_stride[i] = src_md->dim_size == 1 ? 0 : src_md->stride;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
@@ -191,6 +193,7 @@ namespace nd {
                 src_offset[i] = 0;
                 src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
                 src_size[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
+                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
               }
             }
           }
diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 7839a8a..02dda99 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -40,6 +40,7 @@ namespace nd {
         bool state = reinterpret_cast<data_type *>(data)->state;
         bool res_ignore = reinterpret_cast<data_type *>(data)->res_ignore;
 
+        intptr_t ndim = reinterpret_cast<data_type *>(data)->ndim;
         bool dst_variadic = dst_tp.is_variadic();
 
         // Do a pass through the src types to classify them
@@ -47,6 +48,10 @@ namespace nd {
         bool src_all_strided = true, src_all_strided_or_var = true;
         for (size_t i = 0; i < nsrc; ++i) {
           intptr_t src_ndim = src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
+          if (src_ndim < ndim) {
+            // This operand does not have the current dimension, so it broadcasts
+            continue;
+          }
           switch (src_tp[i].get_id()) {
           case fixed_dim_id:
             break;
@@ -65,7 +70,7 @@ namespace nd {
 
         bool var_broadcast = !src_all_strided;
         for (size_t i = 0; i < nsrc; ++i) {
-          var_broadcast &= src_tp[i].get_id() == var_dim_id ||
+          var_broadcast &= src_tp[i].get_ndim() - child_arg_tp[i].get_ndim() < ndim || src_tp[i].get_id() == var_dim_id ||
                            (src_tp[i].get_id() == fixed_dim_id &&
                             src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1);
         }
@@ -78,7 +83,8 @@ namespace nd {
           } else {
             return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
-        } else if (((dst_variadic) || dst_tp.get_id() == var_dim_id) && (var_broadcast || src_all_strided)) {
+        } else if ((dst_variadic && (var_broadcast || src_all_strided)) ||
+                   (dst_tp.get_id() == var_dim_id && src_all_strided_or_var)) {
           static callable f = make_callable<elwise_callable<var_dim_id, fixed_dim_id, no_traits, N>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         } else if (src_all_strided_or_var) {
-- 
2.43.0


From 44f07098b26e36edcc692908fa9886ed96b30d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:10 +0000
Subject: [PATCH 8/9] fix: integer division and modulo trapped on a zero
 unsigned divisor and on the minimum divided by -1; unsigned by zero float
 raised

---
 include/dynd/kernels/arithmetic.hpp | 37 +++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/dynd/kernels/arithmetic.hpp b/include/dynd/kernels/arithmetic.hpp
index 9111f3b..eef8731 100644
--- a/include/dynd/kernels/arithmetic.hpp
+++ b/include/dynd/kernels/arithmetic.hpp
@@ -163,19 +163,48 @@ namespace detail {
     return (std::is_same<Arg0Type, bool1>::value || is_signed_integral<Arg0Type>::value ||
             is_unsigned_integral<Arg0Type>::value) &&
            (std::is_same<Arg1Type, bool1>::value || is_signed_integral<Arg1Type>::value ||
-            is_unsigned_integral<Arg0Type>::value);
+            is_unsigned_integral<Arg1Type>::value);
   }
 
-#define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME)                                                            \
+  // Dividing the minimum of a signed type by -1 overflows, which traps on common hardware.
+  // In that case the quotient wraps around, as in the other integer operations, and the remainder is zero.
+
+  template <typename ResType, typename Arg1Type>
+  constexpr std::enable_if_t<std::is_integral<ResType>::value && std::is_signed<ResType>::value, bool>
+  is_minus_one(Arg1Type b) {
+    return static_cast<ResType>(b) == static_cast<ResType>(-1);
+  }
+
+  template <typename ResType, typename Arg1Type>
+  constexpr std::enable_if_t<!(std::is_integral<ResType>::value && std::is_signed<ResType>::value), bool>
+  is_minus_one(Arg1Type DYND_UNUSED(b)) {
+    return false;
+  }
+
+  template <typename ResType, typename Arg0Type>
+  constexpr std::enable_if_t<std::is_integral<ResType>::value, ResType> wrapping_negate(Arg0Type a) {
+    return static_cast<ResType>(0 - static_cast<std::make_unsigned_t<ResType>>(a));
+  }
+
+  template <typename ResType, typename Arg0Type>
+  constexpr std::enable_if_t<!std::is_integral<ResType>::value, ResType> wrapping_negate(Arg0Type a) {
+    return static_cast<ResType>(a);
+  }
+
+#define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME, MINUS_ONE_RESULT)                                          \
   template <typename Arg0Type, typename Arg1Type, bool check>                                                          \
   struct inline_##NAME##_base;                                                                                         \
                                                                                                                        \
   template <typename Arg0Type, typename Arg1Type>                                                                      \
   struct inline_##NAME##_base<Arg0Type, Arg1Type, true> {                                                              \
     static auto f(Arg0Type a, Arg1Type b) {                                                                            \
+      typedef decltype(a OP b) ResType;                                                                                \
       if (b == 0) {                                                                                                    \
         throw dynd::zero_division_error("Integer division or modulo by zero.");                                        \
       }                                                                                                                \
+      if (is_minus_one<ResType>(b)) {                                                                                  \
+        return MINUS_ONE_RESULT;                                                                                       \
+      }                                                                                                                \
       return a OP b;                                                                                                   \
     }                                                                                                                  \
   };                                                                                                                   \
@@ -188,9 +217,9 @@ namespace detail {
   template <typename Arg0Type, typename Arg1Type>                                                                      \
   using inline_##NAME = inline_##NAME##_base<Arg0Type, Arg1Type, needs_zero_check<Arg0Type, Arg1Type>()>;
 
-  DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(/, divide)
+  DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(/, divide, wrapping_negate<ResType>(a))
   DYND_ALLOW_INT_BOOL_OPS
-  DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(%, mod)
+  DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(%, mod, ResType(0))
   DYND_END_ALLOW_INT_BOOL_OPS
 
 #undef DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT
-- 
2.43.0


From f60f12a53707a4798ca37aefd1651ea87de1f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:12 +0000
Subject: [PATCH 9/9] fix: tuple and struct comparison overran a fixed buffer
 beyond eight fields, ignored differing field counts and used the first
 operand's arrmeta for both

---
 include/dynd/callables/equal_callable.hpp     | 28 +++++++++++--------
 include/dynd/callables/not_equal_callable.hpp | 28 +++++++++++--------
 2 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index 92ab234..632b9b9 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -32,11 +32,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::tuple_type>()->get_field_count())) {
+        throw std::invalid_argument("cannot compare dynd types with different numbers of fields");
+      }
 
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      std::vector<uintptr_t> arrmeta_offsets[2];
+      for (size_t i = 0; i < 2; ++i) {
+        arrmeta_offsets[i] = src_tp[i].extended<ndt::tuple_type>()->get_arrmeta_offsets();
       }
 
       cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
@@ -60,8 +62,8 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + arrmeta_offsets[0][i],
+                                              src_arrmeta[1] + arrmeta_offsets[1][i]};
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
@@ -88,11 +90,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::struct_type>()->get_field_count())) {
+        throw std::invalid_argument("cannot compare dynd types with different numbers of fields");
+      }
 
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      std::vector<uintptr_t> arrmeta_offsets[2];
+      for (size_t i = 0; i < 2; ++i) {
+        arrmeta_offsets[i] = src_tp[i].extended<ndt::struct_type>()->get_arrmeta_offsets();
       }
 
       cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
@@ -116,8 +120,8 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + arrmeta_offsets[0][i],
+                                              src_arrmeta[1] + arrmeta_offsets[1][i]};
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 2a9d07c..e49426f 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -32,11 +32,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::tuple_type>()->get_field_count())) {
+        throw std::invalid_argument("cannot compare dynd types with different numbers of fields");
+      }
 
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      std::vector<uintptr_t> arrmeta_offsets[2];
+      for (size_t i = 0; i < 2; ++i) {
+        arrmeta_offsets[i] = src_tp[i].extended<ndt::tuple_type>()->get_arrmeta_offsets();
       }
 
       cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
@@ -60,8 +62,8 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + arrmeta_offsets[0][i],
+                                              src_arrmeta[1] + arrmeta_offsets[1][i]};
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
@@ -88,11 +90,13 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::struct_type>()->get_field_count())) {
+        throw std::invalid_argument("cannot compare dynd types with different numbers of fields");
+      }
 
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      std::vector<uintptr_t> arrmeta_offsets[2];
+      for (size_t i = 0; i < 2; ++i) {
+        arrmeta_offsets[i] = src_tp[i].extended<ndt::struct_type>()->get_arrmeta_offsets();
       }
 
       cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
@@ -116,8 +120,8 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + arrmeta_offsets[0][i],
+                                              src_arrmeta[1] + arrmeta_offsets[1][i]};
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
-- 
2.43.0

