From bf7b7e6a009ea94bb0dc03b2a32d6e4ee7f67d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:02 +0000
Subject: [PATCH 01/31] fix: bounds-check MsgPack headers and skipping, without
 recursion

A truncated or forged length made the reader read past the end of the message,
and deep nesting exhausted the stack.
---
 include/zerialize/protocols/msgpack.hpp | 169 ++++++++++++------------
 1 file changed, 86 insertions(+), 83 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 9127f04..f0ce36c 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -31,78 +31,69 @@ inline uint64_t mp_read_be64(const uint8_t* p) {
            (uint64_t(p[4]) << 24) | (uint64_t(p[5]) << 16) | (uint64_t(p[6]) << 8) | uint64_t(p[7]);
 }
 
-// Forward decl
-inline size_t mp_skip(std::span<const uint8_t>);
-
 // ===== minimal element skipper (for iterators / indexing) ====================
+// Returns the encoded size of the element at the start of `v`. Every byte of the
+// element is known to lie inside `v` when this returns. Nesting is handled with a
+// counter of elements still to be skipped, so hostile nesting cannot exhaust the stack.
 inline size_t mp_skip(std::span<const uint8_t> v) {
     if (v.empty()) throw DeserializationError("msgpack: empty in skip");
-    const uint8_t m = v[0];
-
-    // Single byte: nil/bool/fixint/neg fixint
-    if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) return 1;
-
-    // fixstr
-    if ((m & 0xe0) == 0xa0) return 1 + (m & 0x1f);
-    // fixarray
-    if ((m & 0xf0) == 0x90) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) { auto s = mp_skip(v.subspan(off)); off += s; }
-        return off;
-    }
-    // fixmap
-    if ((m & 0xf0) == 0x80) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) {
-            auto ks = mp_skip(v.subspan(off)); off += ks;
-            auto vs = mp_skip(v.subspan(off)); off += vs;
-        }
-        return off;
-    }
-
-    switch (m) {
-        // ints / floats
-        case 0xcc: case 0xd0: return 2;
-        case 0xcd: case 0xd1: return 3;
-        case 0xce: case 0xd2: case 0xca: return 5;
-        case 0xcf: case 0xd3: case 0xcb: return 9;
-
-        // str
-        case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return 2 + v[1]; }
-        case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return 5 + mp_read_be32(v.data()+1); }
-
-        // bin
-        case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return 2 + v[1]; }
-        case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return 5 + mp_read_be32(v.data()+1); }
-
-        // arrays
-        case 0xdc: {
-            if (v.size() < 3) throw DeserializationError("array16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
-        case 0xdd: {
-            if (v.size() < 5) throw DeserializationError("array32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
 
-        // maps
-        case 0xde: {
-            if (v.size() < 3) throw DeserializationError("map16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
-        }
-        case 0xdf: {
-            if (v.size() < 5) throw DeserializationError("map32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
+    size_t   off     = 0;
+    uint64_t pending = 1; // elements not skipped yet
+
+    auto need = [&](uint64_t n, const char* what) {
+        if (n > v.size() - off) throw DeserializationError(std::string("msgpack: truncated ") + what);
+    };
+
+    while (pending > 0) {
+        --pending;
+        need(1, "element");
+        const uint8_t* p = v.data() + off;
+        const uint8_t m = p[0];
+        uint64_t len = 0;      // bytes taken by this element's header and payload
+        uint64_t children = 0; // elements nested in it
+
+        // Single byte: nil/bool/fixint/neg fixint
+        if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) { len = 1; }
+        // fixstr
+        else if ((m & 0xe0) == 0xa0) { len = 1 + uint64_t(m & 0x1f); }
+        // fixarray
+        else if ((m & 0xf0) == 0x90) { len = 1; children = m & 0x0f; }
+        // fixmap
+        else if ((m & 0xf0) == 0x80) { len = 1; children = 2 * uint64_t(m & 0x0f); }
+        else switch (m) {
+            // ints / floats
+            case 0xcc: case 0xd0: len = 2; break;
+            case 0xcd: case 0xd1: len = 3; break;
+            case 0xce: case 0xd2: case 0xca: len = 5; break;
+            case 0xcf: case 0xd3: case 0xcb: len = 9; break;
+
+            // str
+            case 0xd9: need(2, "str8");  len = 2 + uint64_t(p[1]); break;
+            case 0xda: need(3, "str16"); len = 3 + uint64_t(mp_read_be16(p+1)); break;
+            case 0xdb: need(5, "str32"); len = 5 + uint64_t(mp_read_be32(p+1)); break;
+
+            // bin
+            case 0xc4: need(2, "bin8");  len = 2 + uint64_t(p[1]); break;
+            case 0xc5: need(3, "bin16"); len = 3 + uint64_t(mp_read_be16(p+1)); break;
+            case 0xc6: need(5, "bin32"); len = 5 + uint64_t(mp_read_be32(p+1)); break;
+
+            // arrays
+            case 0xdc: need(3, "array16"); len = 3; children = mp_read_be16(p+1); break;
+            case 0xdd: need(5, "array32"); len = 5; children = mp_read_be32(p+1); break;
+
+            // maps
+            case 0xde: need(3, "map16"); len = 3; children = 2 * uint64_t(mp_read_be16(p+1)); break;
+            case 0xdf: need(5, "map32"); len = 5; children = 2 * uint64_t(mp_read_be32(p+1)); break;
+
+            default: throw DeserializationError("msgpack: unsupported marker");
         }
-        default: break;
+
+        need(len, "element");
+        off += size_t(len);
+        pending += children;
     }
-    throw DeserializationError("msgpack: unsupported marker");
+    return off;
 }
 
 // ===== Deserializer ==========================================================
@@ -113,34 +104,46 @@ class MsgPackDeserializer {
     std::span<const uint8_t> view_{};
 
     // helpers: decode headers
+    static void need(std::span<const uint8_t> v, size_t n) {
+        if (v.size() < n) throw DeserializationError("msgpack: truncated");
+    }
     static void str_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); p = v.data()+1; return; }
-        if (m == 0xd9) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xda) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xdb) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
-        throw DeserializationError("msgpack: not a string");
+        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); p = v.data()+1; }
+        else if (m == 0xd9) { need(v, 2); len = v[1]; p=v.data()+2; }
+        else if (m == 0xda) { need(v, 3); len = mp_read_be16(v.data()+1); p=v.data()+3; }
+        else if (m == 0xdb) { need(v, 5); len = mp_read_be32(v.data()+1); p=v.data()+5; }
+        else throw DeserializationError("msgpack: not a string");
+        need(v.subspan(size_t(p - v.data())), len);
     }
     static void bin_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if (m == 0xc4) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xc5) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xc6) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
-        throw DeserializationError("msgpack: not a bin");
+        if (m == 0xc4) { need(v, 2); len = v[1]; p=v.data()+2; }
+        else if (m == 0xc5) { need(v, 3); len = mp_read_be16(v.data()+1); p=v.data()+3; }
+        else if (m == 0xc6) { need(v, 5); len = mp_read_be32(v.data()+1); p=v.data()+5; }
+        else throw DeserializationError("msgpack: not a bin");
+        need(v.subspan(size_t(p - v.data())), len);
     }
+    // Every element takes at least one byte, so a larger count than the bytes left is a lie.
     static void arr_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xdc) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdd) { count = mp_read_be32(v.data()+1); off = 5; return; }
-        throw DeserializationError("msgpack: not an array");
+        if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; }
+        else if (m == 0xdc) { need(v, 3); count = mp_read_be16(v.data()+1); off = 3; }
+        else if (m == 0xdd) { need(v, 5); count = mp_read_be32(v.data()+1); off = 5; }
+        else throw DeserializationError("msgpack: not an array");
+        need(v.subspan(off), count);
     }
     static void map_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xde) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdf) { count = mp_read_be32(v.data()+1); off = 5; return; }
-        throw DeserializationError("msgpack: not a map");
+        if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; }
+        else if (m == 0xde) { need(v, 3); count = mp_read_be16(v.data()+1); off = 3; }
+        else if (m == 0xdf) { need(v, 5); count = mp_read_be32(v.data()+1); off = 5; }
+        else throw DeserializationError("msgpack: not a map");
+        need(v.subspan(off), 2 * count);
     }
 
     // pretty printer
-- 
2.43.0


From 9d32faa3ac99288b520e8d1dd55bce0df1d1153e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:16 +0000
Subject: [PATCH 02/31] fix: MsgPack asInt64/asUInt64 throw instead of wrapping
 out-of-range values

---
 include/zerialize/protocols/msgpack.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index f0ce36c..89a0f46 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -10,6 +10,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 #include <msgpack.h> // for the writer
@@ -305,7 +306,11 @@ public:
         if (m==0xcc){ if(view_.size()<2) throw DeserializationError("u8");  return uint8_t(view_[1]); }
         if (m==0xcd){ if(view_.size()<3) throw DeserializationError("u16"); return uint16_t(mp_read_be16(view_.data()+1)); }
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return uint32_t(mp_read_be32(view_.data()+1)); }
-        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return uint64_t(mp_read_be64(view_.data()+1)); }
+        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64");
+            const uint64_t u = mp_read_be64(view_.data()+1);
+            if (u > uint64_t(std::numeric_limits<std::int64_t>::max())) throw DeserializationError("int64 out of range");
+            return int64_t(u);
+        }
         throw DeserializationError("not int");
     }
     
@@ -342,7 +347,9 @@ public:
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return mp_read_be32(view_.data()+1); }
         if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return mp_read_be64(view_.data()+1); }
         // fall back for signed fix/neg
-        return uint64_t(asInt64());
+        const std::int64_t i = asInt64();
+        if (i < 0) throw DeserializationError("uint64 out of range");
+        return uint64_t(i);
     }
     
     float asFloat() const {
-- 
2.43.0


From 67645c3462014d1c7ede77ed6b51bd0746e0f4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:29 +0000
Subject: [PATCH 03/31] fix: Flex narrow integer accessors throw instead of
 truncating

---
 include/zerialize/protocols/flex.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 7a4a8ab..6a3adc1 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -8,6 +8,7 @@
 #include <span>
 #include <stdexcept>
 #include <iostream>
+#include <utility>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
 
@@ -118,6 +119,13 @@ protected:
         if (!cond) throw DeserializationError(msg);
     }
 
+    // Narrow an integer, refusing values that do not fit.
+    template<class To, class From>
+    To narrow(From v, const char* msg) const {
+        require(std::in_range<To>(v), msg);
+        return static_cast<To>(v);
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -222,14 +230,14 @@ public:
     bool isArray()  const { return ref_.IsAnyVector() && !ref_.IsMap(); }
 
     // Scalars
-    int8_t   asInt8()   const { require(isInt(), "value is not a signed integer"); return ref_.AsInt8(); }
-    int16_t  asInt16()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt16(); }
-    int32_t  asInt32()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt32(); }
+    int8_t   asInt8()   const { return narrow<int8_t>(asInt64(), "int8 out of range"); }
+    int16_t  asInt16()  const { return narrow<int16_t>(asInt64(), "int16 out of range"); }
+    int32_t  asInt32()  const { return narrow<int32_t>(asInt64(), "int32 out of range"); }
     int64_t  asInt64()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt64(); }
 
-    uint8_t  asUInt8()  const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint8_t>(ref_.AsUInt8()); }
-    uint16_t asUInt16() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint16_t>(ref_.AsUInt16()); }
-    uint32_t asUInt32() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint32_t>(ref_.AsUInt32()); }
+    uint8_t  asUInt8()  const { return narrow<uint8_t>(asUInt64(), "uint8 out of range"); }
+    uint16_t asUInt16() const { return narrow<uint16_t>(asUInt64(), "uint16 out of range"); }
+    uint32_t asUInt32() const { return narrow<uint32_t>(asUInt64(), "uint32 out of range"); }
     uint64_t asUInt64() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint64_t>(ref_.AsUInt64()); }
 
     float    asFloat()  const { require(isFloat(), "value is not a float"); return static_cast<float>(ref_.AsFloat()); }
-- 
2.43.0


From 126a24610463cc9d837f8ae0c6c775ad45eeedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:43 +0000
Subject: [PATCH 04/31] fix: Flex writer over-read unterminated strings and
 keys and truncated keys with NUL

---
 include/zerialize/protocols/flex.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 6a3adc1..5263328 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -56,7 +56,8 @@ struct Serializer {
     void uint64(std::uint64_t v) { r->fbb.UInt(v); r->wrote_root_ = true; }
     void double_(double v)       { r->fbb.Double(v); r->wrote_root_ = true; }
     void string(std::string_view sv) {
-        r->fbb.String(sv.data(), sv.size()); r->wrote_root_ = true;
+        // The builder also copies the byte after the string, so give it a terminated copy.
+        r->fbb.String(std::string(sv)); r->wrote_root_ = true;
     }
     void binary(std::span<const std::byte> b) {
         auto ptr = reinterpret_cast<const std::uint8_t*>(b.data());
@@ -91,7 +92,10 @@ struct Serializer {
 
     void key(std::string_view k) {
         // FlexBuffers requires a key immediately before its value
-        r->fbb.Key(k.data(), k.size());
+        // and stores keys NUL-terminated, so a key containing NUL cannot be represented.
+        if (k.find('\0') != std::string_view::npos)
+            throw SerializationError("flex: key contains NUL");
+        r->fbb.Key(std::string(k));
     }
 
 private:
-- 
2.43.0


From bc545d761de5861669ec9ac529db99712d83ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:46 +0000
Subject: [PATCH 05/31] fix: Flex reader saw typed vectors as empty arrays

---
 include/zerialize/protocols/flex.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 5263328..dca54cd 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -312,6 +312,8 @@ public:
 
     std::size_t arraySize() const {
         require(isArray(), "not an array");
+        if (ref_.IsTypedVector()) return ref_.AsTypedVector().size();
+        if (ref_.IsFixedTypedVector()) return ref_.AsFixedTypedVector().size();
         return ref_.AsVector().size();
     }
 
@@ -359,9 +361,10 @@ inline FlexValue FlexViewBase::operator[](std::string_view key) const {
 
 inline FlexValue FlexViewBase::operator[](std::size_t idx) const {
     require(isArray(), "not an array");
-    auto v = ref_.AsVector();
-    require(idx < v.size(), "index out of bounds");
-    return FlexValue(v[idx]);
+    require(idx < arraySize(), "index out of bounds");
+    if (ref_.IsTypedVector()) return FlexValue(ref_.AsTypedVector()[idx]);
+    if (ref_.IsFixedTypedVector()) return FlexValue(ref_.AsFixedTypedVector()[idx]);
+    return FlexValue(ref_.AsVector()[idx]);
 }
 
 class FlexDeserializer : public FlexViewBase {
-- 
2.43.0


From f589c20f1fbb91e1810318b71d8821500cff4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:01 +0000
Subject: [PATCH 06/31] fix: Zera element offsets wrapped at 2^32, so a forged
 array count read unrelated bytes

---
 include/zerialize/protocols/zera.hpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b474e42..e2651bc 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -195,10 +195,11 @@ protected:
         return std::span<const std::byte>(reinterpret_cast<const std::byte*>(arena_ + ofs), len);
     }
 
-    const std::uint8_t* env_ptr_at(std::uint32_t ofs, std::size_t need) const {
+    // `ofs` is a size_t: offsets computed from untrusted 32-bit counts must not wrap.
+    const std::uint8_t* env_ptr_at(std::size_t ofs, std::size_t need) const {
         require(ofs <= env_size_, "zera: envelope offset out of bounds");
         require(need <= env_size_, "zera: envelope need out of bounds");
-        require(std::size_t(ofs) + need <= env_size_, "zera: envelope span out of bounds");
+        require(ofs + need <= env_size_, "zera: envelope span out of bounds");
         return env_ + ofs;
     }
 
@@ -396,7 +397,7 @@ public:
         const std::uint32_t obj_ofs = a();
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
-        const auto* entries = env_ptr_at(obj_ofs + 4, 0);
+        const auto* entries = env_ptr_at(std::size_t(obj_ofs) + 4, 0);
         return KeysView{this, entries, count};
     }
 
@@ -406,16 +407,16 @@ public:
         const std::uint32_t obj_ofs = a();
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
-        std::size_t ofs = obj_ofs + 4;
+        std::size_t ofs = std::size_t(obj_ofs) + 4;
         for (std::uint32_t i = 0; i < count; ++i) {
-            const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+            const auto* e = env_ptr_at(ofs, 4);
             const std::uint16_t key_len = read_u16_le(e);
             (void)read_u16_le(e + 2); // reserved
-            const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
+            const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
             if (key_len == key.size() &&
                 std::memcmp(key_bytes, key.data(), key.size()) == 0) return true;
             ofs += 4 + std::size_t(key_len) + 16;
-            (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+            (void)env_ptr_at(ofs, 0);
         }
         return false;
     }
@@ -458,7 +459,7 @@ inline ZeraValue ZeraViewBase::operator[](std::size_t idx) const {
     const std::uint32_t count = read_u32_le(p);
     require(idx < count, "zera: array index out of bounds");
     const std::size_t elem_ofs = std::size_t(arr_ofs) + 4 + 16 * idx;
-    const auto* vr = env_ptr_at(static_cast<std::uint32_t>(elem_ofs), 16);
+    const auto* vr = env_ptr_at(elem_ofs, 16);
     return ZeraValue(*this, vr);
 }
 
@@ -468,18 +469,18 @@ inline ZeraValue ZeraViewBase::operator[](std::string_view key) const {
     const std::uint32_t obj_ofs = a();
     const auto* p = env_ptr_at(obj_ofs, 4);
     const std::uint32_t count = read_u32_le(p);
-    std::size_t ofs = obj_ofs + 4;
+    std::size_t ofs = std::size_t(obj_ofs) + 4;
     for (std::uint32_t i = 0; i < count; ++i) {
-        const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+        const auto* e = env_ptr_at(ofs, 4);
         const std::uint16_t key_len = read_u16_le(e);
         (void)read_u16_le(e + 2); // reserved
-        const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
-        const auto* value_vr = env_ptr_at(static_cast<std::uint32_t>(ofs + 4 + key_len), 16);
+        const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
+        const auto* value_vr = env_ptr_at(ofs + 4 + key_len, 16);
         if (key_len == key.size() && std::memcmp(key_bytes, key.data(), key.size()) == 0) {
             return ZeraValue(*this, value_vr);
         }
         ofs += 4 + std::size_t(key_len) + 16;
-        (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+        (void)env_ptr_at(ofs, 0);
     }
     throw DeserializationError("zera: key not found: " + std::string(key));
 }
-- 
2.43.0


From 8d1cdea44391ee3ed14f800254bfd2f5b2b345ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:17 +0000
Subject: [PATCH 07/31] fix: Zera key iteration read before its bounds check
 and kept a pointer to a temporary

---
 include/zerialize/protocols/zera.hpp | 31 +++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index e2651bc..bc766d5 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -348,13 +348,14 @@ public:
     }
 
     // mapKeys() must be a forward range of string_view, zero-alloc.
+    // It refers to the message only, not to the value it came from, which may be a temporary.
     struct KeysView {
-        const ZeraViewBase* self = nullptr;
+        const std::uint8_t* env_end = nullptr;
         const std::uint8_t* p = nullptr;
         std::uint32_t count = 0;
 
         struct iterator {
-            const ZeraViewBase* self = nullptr;
+            const std::uint8_t* env_end = nullptr;
             const std::uint8_t* cur = nullptr;
             std::uint32_t i = 0;
             std::uint32_t n = 0;
@@ -366,27 +367,33 @@ public:
 
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
-                const auto key_len = read_u16_le(cur);
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4 + key_len + 16);
+                const auto key_len = checked_key_len();
                 return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
             }
 
             iterator& operator++() {
                 if (i >= n) return *this;
-                const auto key_len = read_u16_le(cur);
-                const std::size_t adv = 4 + std::size_t(key_len) + 16;
-                const auto cur_ofs = std::uint32_t(cur - self->env_);
-                cur = self->env_ptr_at(cur_ofs + std::uint32_t(adv), 0);
+                const auto key_len = checked_key_len();
+                cur += 4 + std::size_t(key_len) + 16;
                 ++i;
                 return *this;
             }
             iterator operator++(int) { iterator tmp = *this; ++(*this); return tmp; }
-            friend bool operator==(const iterator& a, const iterator& b) { return a.self==b.self && a.i==b.i && a.n==b.n; }
+            friend bool operator==(const iterator& a, const iterator& b) { return a.env_end==b.env_end && a.i==b.i && a.n==b.n; }
+
+            // Key length of the current entry, once all of the entry is known to be in the envelope.
+            std::uint16_t checked_key_len() const {
+                const auto left = static_cast<std::size_t>(env_end - cur);
+                require(left >= 4, "zera: map entry out of bounds");
+                const auto key_len = read_u16_le(cur);
+                require(left >= 4 + std::size_t(key_len) + 16, "zera: map entry out of bounds");
+                return key_len;
+            }
         };
 
-        iterator begin() const { return iterator{self, p, 0, count}; }
+        iterator begin() const { return iterator{env_end, p, 0, count}; }
         iterator end() const {
-            auto it = iterator{self, p, count, count};
+            auto it = iterator{env_end, p, count, count};
             return it;
         }
     };
@@ -398,7 +405,7 @@ public:
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
         const auto* entries = env_ptr_at(std::size_t(obj_ofs) + 4, 0);
-        return KeysView{this, entries, count};
+        return KeysView{env_ + env_size_, entries, count};
     }
 
     bool contains(std::string_view key) const {
-- 
2.43.0


From 1dc4a546fe20e84dd1c28a4172a45706a1724eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:08 +0000
Subject: [PATCH 08/31] fix: a copied owning reader kept viewing the original's
 bytes

---
 include/zerialize/protocols/cbor.hpp    | 10 ++++++++++
 include/zerialize/protocols/flex.hpp    |  9 +++++++++
 include/zerialize/protocols/msgpack.hpp |  7 +++++++
 include/zerialize/protocols/zera.hpp    | 11 +++++++++++
 4 files changed, 37 insertions(+)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index afd4a87..4c438b3 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -207,6 +207,16 @@ class CborDeserializer {
 public:
     // ---- ctors ----
     CborDeserializer() = default;
+
+    // A copy of an owning reader views its own copy of the bytes.
+    CborDeserializer(const CborDeserializer& o)
+        : buf_(o.buf_), owned_(o.owned_), pos_(o.pos_)
+    {
+        if (!owned_.empty()) buf_ = std::span<const uint8_t>(owned_.data(), owned_.size());
+    }
+    CborDeserializer& operator=(const CborDeserializer& o) { return *this = CborDeserializer(o); }
+    CborDeserializer(CborDeserializer&&) noexcept = default;
+    CborDeserializer& operator=(CborDeserializer&&) noexcept = default;
     explicit CborDeserializer(std::span<const uint8_t> bytes) : buf_(bytes), pos_(0) {}
     explicit CborDeserializer(const std::vector<uint8_t>& buf)
         : owned_(buf.begin(), buf.end())
diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index dca54cd..e92481a 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -379,6 +379,15 @@ protected:
     // No duplicate helpers here; FlexViewBase handles formatting/debug.
 
 public:
+    // A copy of an owning reader refers to its own copy of the bytes.
+    FlexDeserializer(const FlexDeserializer& o)
+      : FlexViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) ref_ = ::flexbuffers::GetRoot(owned_);
+      }
+    FlexDeserializer& operator=(const FlexDeserializer& o) { return *this = FlexDeserializer(o); }
+    FlexDeserializer(FlexDeserializer&&) noexcept = default;
+    FlexDeserializer& operator=(FlexDeserializer&&) noexcept = default;
+
     // -------- constructors (owning) --------
     explicit FlexDeserializer(const std::vector<uint8_t>& buf)
       : FlexViewBase(), owned_(buf) {
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 89a0f46..f05dab0 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -220,6 +220,13 @@ public:
     // ---- ctors ----
     MsgPackDeserializer() = default;
 
+    // A copy of an owning reader views its own copy of the bytes.
+    MsgPackDeserializer(const MsgPackDeserializer& o)
+      : owned_(o.owned_), view_(o.owned_.empty() ? o.view_ : std::span<const uint8_t>(owned_)) {}
+    MsgPackDeserializer& operator=(const MsgPackDeserializer& o) { return *this = MsgPackDeserializer(o); }
+    MsgPackDeserializer(MsgPackDeserializer&&) noexcept = default;
+    MsgPackDeserializer& operator=(MsgPackDeserializer&&) noexcept = default;
+
     // Non-owning view constructor (zero-copy): caller must keep `bytes` alive.
     explicit MsgPackDeserializer(std::span<const uint8_t> bytes)
       : view_(bytes) {}
diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index bc766d5..67cfaa0 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -523,6 +523,17 @@ class ZeraDeserializer final : public ZeraViewBase {
 public:
     ZeraDeserializer() = default;
 
+    // A copy of an owning reader views its own copy of the bytes.
+    ZeraDeserializer(const ZeraDeserializer& o) : ZeraViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) {
+            view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
+            init_from(view_);
+        }
+    }
+    ZeraDeserializer& operator=(const ZeraDeserializer& o) { return *this = ZeraDeserializer(o); }
+    ZeraDeserializer(ZeraDeserializer&&) noexcept = default;
+    ZeraDeserializer& operator=(ZeraDeserializer&&) noexcept = default;
+
     explicit ZeraDeserializer(const std::vector<std::uint8_t>& buf) : owned_(buf) {
         view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
         init_from(view_);
-- 
2.43.0


From ee8cf6e9e7a3060680da9fa2277ad407c4e74a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:23 +0000
Subject: [PATCH 09/31] fix: tensor byte size overflow let a huge shape match
 an empty payload

---
 include/zerialize/tensor/eigen.hpp   | 5 +++++
 include/zerialize/tensor/xtensor.hpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 9145157..32888fd 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -3,6 +3,7 @@
 #include <array>
 #include <cstring>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <span>
 #include <type_traits>
@@ -154,6 +155,10 @@ EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& b
     };
     auto bytes = to_span(blob);
 
+    // Dimensions are 32-bit, so rows * cols fits in 64 bits; times sizeof(T) need not.
+    if (rows != 0 && cols > std::numeric_limits<std::size_t>::max() / sizeof(T) / rows) {
+        throw DeserializationError("tensor byte size overflow");
+    }
     const std::size_t expected = rows * cols * sizeof(T);
     if (bytes.size() != expected) {
         throw DeserializationError(
diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 0a82e38..11b2361 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -147,6 +147,9 @@ XTensorView<T> asXTensorView(const Reader auto& buf) {
 
     // Validate payload size to avoid reading off the end, truncating, or leaving elements uninitialized.
     const std::size_t element_count = checked_element_count(vshape);
+    if (element_count > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw DeserializationError("tensor byte size overflow");
+    }
     const std::size_t expected_bytes = element_count * sizeof(T);
     if (bytes.size() != expected_bytes) {
         throw DeserializationError(
-- 
2.43.0


From 4c951324aa82207abd2b855926324e29b1db3363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:49 +0000
Subject: [PATCH 10/31] fix: translating an unsigned integer above INT64_MAX
 from JSON or CBOR made it negative

---
 include/zerialize/translate.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/zerialize/translate.hpp b/include/zerialize/translate.hpp
index 05f688c..8a5cc74 100644
--- a/include/zerialize/translate.hpp
+++ b/include/zerialize/translate.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include <zerialize/concepts.hpp>
 
 namespace zerialize {
@@ -33,6 +35,11 @@ template<class V, class W>
 inline void write_value(const V& v, W& w) {
     if (v.isNull())      { w.null(); return; }
     if (v.isBool())      { w.boolean(v.asBool()); return; }
+    // Some readers report every integer as isInt(); values above INT64_MAX only fit uint64.
+    if (v.isUInt() && v.asUInt64() > std::uint64_t(std::numeric_limits<std::int64_t>::max())) {
+        w.uint64(v.asUInt64());
+        return;
+    }
     if (v.isInt())       { w.int64(v.asInt64()); return; }
     if (v.isUInt())      { w.uint64(v.asUInt64()); return; }
     if (v.isFloat())     { w.double_(v.asDouble()); return; }
-- 
2.43.0


From 83d6ebf8670b4bbeb6745c5e55c06f554b8a3f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:02 +0000
Subject: [PATCH 11/31] fix: bound the recursion of translation on deeply
 nested or cyclic input

---
 include/zerialize/translate.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/translate.hpp b/include/zerialize/translate.hpp
index 8a5cc74..f3c287f 100644
--- a/include/zerialize/translate.hpp
+++ b/include/zerialize/translate.hpp
@@ -3,6 +3,7 @@
 #include <limits>
 
 #include <zerialize/concepts.hpp>
+#include <zerialize/errors.hpp>
 
 namespace zerialize {
 
@@ -30,9 +31,15 @@ namespace zerialize {
  * operate on the Reader/Writer concepts directly.
  */
 
+// Deepest container nesting write_value follows. Bounds the recursion on hostile
+// input (deep nesting, or a Zera envelope whose containers refer to each other).
+inline constexpr std::size_t MaxTranslateDepth = 1024;
+
 // ==== Generic bridge: Reader -> Writer ===============================
 template<class V, class W>
-inline void write_value(const V& v, W& w) {
+inline void write_value(const V& v, W& w, std::size_t depth = 0) {
+    if (depth > MaxTranslateDepth) throw DeserializationError("write_value: nested too deeply");
+
     if (v.isNull())      { w.null(); return; }
     if (v.isBool())      { w.boolean(v.asBool()); return; }
     // Some readers report every integer as isInt(); values above INT64_MAX only fit uint64.
@@ -60,7 +67,7 @@ inline void write_value(const V& v, W& w) {
         w.begin_map(count);
         for (std::string_view k : v.mapKeys()) {
             w.key(std::string(k));
-            write_value(v[k], w);
+            write_value(v[k], w, depth + 1);
         }
         w.end_map();
         return;
@@ -69,7 +76,7 @@ inline void write_value(const V& v, W& w) {
     if (v.isArray()) {
         const std::size_t n = v.arraySize();
         w.begin_array(n);
-        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w);
+        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w, depth + 1);
         w.end_array();
         return;
     }
-- 
2.43.0


From 7dea02737e18d1fad1444c3a0fc04b2406c91250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:54 +0000
Subject: [PATCH 12/31] fix: ZBuffer with an empty deleter terminated, and a
 moved-from ZBuffer kept its size

---
 include/zerialize/zbuffer.hpp | 53 ++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 103cc40..a1dbdcd 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -8,6 +8,11 @@
 #include <span>
 #include <variant>
 #include <functional>
+#include <memory>
+#include <stdexcept>
+#include <utility>
+#include <cstdlib>
+#include <cstdint>
 
 namespace zerialize {
 
@@ -95,11 +100,35 @@ private:
 
         // Default constructor needed for variant default construction (if needed)
         ManagedPtr() = default;
+
+        // A moved-from pointer is null, so its length must become zero too.
+        ManagedPtr(ManagedPtr&& o) noexcept
+            : ptr(std::move(o.ptr)), count(std::exchange(o.count, 0)) {}
+        ManagedPtr& operator=(ManagedPtr&& o) noexcept {
+            if (this != &o) {
+                ptr = std::move(o.ptr);
+                count = std::exchange(o.count, 0);
+            }
+            return *this;
+        }
     };
 
     // --- Variant holding the active storage strategy ---
     std::variant<Ownedvector, ManagedPtr> storage_;
 
+    // Adapts a char*/void* deleter to uint8_t*. An empty deleter stays empty, so that
+    // the uint8_t* constructor refuses it.
+    template<class T>
+    static std::function<void(uint8_t*)> wrap_deleter(std::function<void(T*)> deleter) {
+        if (!deleter) return {};
+        // Capture the original deleter and cast the pointer back before calling it.
+        return [d = std::move(deleter)](uint8_t* ptr_to_delete) {
+            if (ptr_to_delete) { // Avoid casting/deleting null
+                d(static_cast<T*>(static_cast<void*>(ptr_to_delete)));
+            }
+        };
+    }
+
 public:
     // --- Constructors ---
 
@@ -115,14 +144,16 @@ public:
     // Constructor taking ownership of a raw uint8_t* pointer with a custom deleter.
     // The deleter MUST correctly free the provided pointer.
     ZBuffer(uint8_t* data_to_own, size_t size, std::function<void(uint8_t*)> deleter)
-        : storage_(std::in_place_type<ManagedPtr>, data_to_own, size, std::move(deleter))
+        : storage_(std::in_place_type<Ownedvector>)
     {
+        // Check before taking ownership: an empty deleter must not be invoked by cleanup.
+        if (!deleter) {
+            throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
+        }
         if (size > 0 && data_to_own == nullptr) {
             throw std::invalid_argument("ZBuffer: Non-zero size requires a non-null pointer");
         }
-        if (!std::get<ManagedPtr>(storage_).ptr.get_deleter()) { // Check if deleter is valid (!= nullptr)
-            throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
-        }
+        storage_.emplace<ManagedPtr>(data_to_own, size, std::move(deleter));
     }
 
     // Constructor taking ownership of a raw char* pointer with a custom deleter.
@@ -130,24 +161,14 @@ public:
     ZBuffer(char* data_to_own, size_t size, std::function<void(char*)> char_deleter)
         // Delegate to the uint8_t* constructor, wrapping the deleter
         : ZBuffer(reinterpret_cast<uint8_t*>(data_to_own), size,
-            // Create a lambda that captures the original char* deleter
-            // and performs the cast back before calling it.
-            [cd = std::move(char_deleter)](uint8_t* ptr_to_delete) {
-                if (ptr_to_delete) { // Avoid casting/deleting null
-                    cd(reinterpret_cast<char*>(ptr_to_delete));
-                }
-            }) // End of arguments to delegating constructor
+            wrap_deleter<char>(std::move(char_deleter))) // End of arguments to delegating constructor
     {}
 
     // Constructor taking ownership of a raw void* pointer with a custom *void* deleter
     // Useful for C APIs returning void* (like from malloc).
     ZBuffer(void* data_to_own, size_t size, std::function<void(void*)> void_deleter)
         : ZBuffer(static_cast<uint8_t*>(data_to_own), size,
-            [vd = std::move(void_deleter)](uint8_t* ptr_to_delete) {
-                if (ptr_to_delete) {
-                    vd(static_cast<void*>(ptr_to_delete)); // Cast back to void* for deleter
-                }
-            })
+            wrap_deleter<void>(std::move(void_deleter)))
     {}
 
     // Delete copy constructor and assignment - ZBuffer manages unique ownership
-- 
2.43.0


From c1c8a850b7b242dc41837d706f3ddaf395c08829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:07 +0000
Subject: [PATCH 13/31] fix: stored zvec/zmap builders referred to destroyed
 temporaries

---
 include/zerialize/zbuilders.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/zbuilders.hpp b/include/zerialize/zbuilders.hpp
index 8c64d33..557c0d6 100644
--- a/include/zerialize/zbuilders.hpp
+++ b/include/zerialize/zbuilders.hpp
@@ -55,8 +55,8 @@ struct BuilderWrapper {
 template<typename... Ts>
 constexpr auto zvec(Ts&&... xs)
 {
-    // Capture by value with perfect forwarding into a tuple.
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    // Own temporaries (moved into the tuple), refer to lvalues.
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         w.begin_array(sizeof...(Ts));
@@ -91,7 +91,7 @@ constexpr auto zmap(Ts&&... xs)
     static_assert(sizeof...(Keys) == sizeof...(Ts),
                   "zmap: number of keys must match number of values");
 
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         constexpr std::size_t N = sizeof...(Keys);
-- 
2.43.0


From 3b0c6e28857cb7d12c78a49d8227f07799936fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:58 +0000
Subject: [PATCH 14/31] fix: MsgPack writer ignored packing failures and
 returned truncated messages

---
 include/zerialize/protocols/msgpack.hpp | 34 ++++++++++++++++---------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index f05dab0..4c1dfb1 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -528,36 +528,46 @@ public:
         size_t n = sbuf.size;
         char*  d = sbuf.data;
         sbuf.data = nullptr; sbuf.size = 0; sbuf.alloc = 0;
-        return ZBuffer(d, n, ZBuffer::Deleters::Free);
+        return ZBuffer(reinterpret_cast<uint8_t*>(d), n, ZBuffer::Deleters::Free);
     }
 };
 
 class MsgPackSerializer {
     msgpack_packer& pk_;
+
+    // msgpack-c reports a failed buffer allocation through its return value only.
+    static void check(int rc) {
+        if (rc != 0) throw SerializationError("msgpack: out of memory while packing");
+    }
+    // Lengths and counts are 32-bit on the wire.
+    static std::size_t checked_size(std::size_t n) {
+        if (n > std::numeric_limits<std::uint32_t>::max()) throw SerializationError("msgpack: too large");
+        return n;
+    }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
     // primitives
-    void null()                 { msgpack_pack_nil(&pk_); }
-    void boolean(bool v)        { v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_); }
-    void int64(std::int64_t v)  { msgpack_pack_int64(&pk_, v); }
-    void uint64(std::uint64_t v){ msgpack_pack_uint64(&pk_, v); }
-    void double_(double v)      { msgpack_pack_double(&pk_, v); }
+    void null()                 { check(msgpack_pack_nil(&pk_)); }
+    void boolean(bool v)        { check(v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_)); }
+    void int64(std::int64_t v)  { check(msgpack_pack_int64(&pk_, v)); }
+    void uint64(std::uint64_t v){ check(msgpack_pack_uint64(&pk_, v)); }
+    void double_(double v)      { check(msgpack_pack_double(&pk_, v)); }
     void string(std::string_view sv) {
-        msgpack_pack_str(&pk_, sv.size());
-        msgpack_pack_str_body(&pk_, sv.data(), sv.size());
+        check(msgpack_pack_str(&pk_, checked_size(sv.size())));
+        check(msgpack_pack_str_body(&pk_, sv.data(), sv.size()));
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        msgpack_pack_bin(&pk_, b.size());
-        msgpack_pack_bin_body(&pk_, p, b.size());
+        check(msgpack_pack_bin(&pk_, checked_size(b.size())));
+        check(msgpack_pack_bin_body(&pk_, p, b.size()));
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, n); }
+    void begin_array(std::size_t n) { check(msgpack_pack_array(&pk_, checked_size(n))); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, n); }
+    void begin_map(std::size_t n)   { check(msgpack_pack_map(&pk_, checked_size(n))); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From 071423ee015ae4b9b48a2dd82d7242ab8b9a442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:46 +0000
Subject: [PATCH 15/31] fix: serialize column-major xtensor containers and
 views in row-major element order

---
 include/zerialize/tensor/xtensor.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 11b2361..404d322 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -21,6 +21,12 @@ namespace xt {
 
 template <zerialize::HasDataAndSize X, zerialize::Writer W>
 void serialize(const X& t, W& w) {
+    // The payload is the elements in row-major order, which data() only points at for
+    // row-major storage; evaluate column-major containers and offset or strided views.
+    if (t.layout() != layout_type::row_major || t.data_offset() != 0) {
+        serialize(xarray<typename X::value_type, layout_type::row_major>(t), w);
+        return;
+    }
     zerialize::zvec(
         zerialize::tensor_dtype_index<typename X::value_type>,
         zerialize::shape_of_sizet(t.shape()),
-- 
2.43.0


From 3b8a851302a53a718be1ea02b58f05f5469162b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:49 +0000
Subject: [PATCH 16/31] fix: bounds-check the CBOR reader, bound its recursion
 and reject out-of-range integers

---
 include/zerialize/protocols/cbor.hpp | 190 ++++++++++++---------------
 1 file changed, 85 insertions(+), 105 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 4c438b3..08e3002 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -94,9 +94,11 @@ class CborDeserializer {
         bool indefinite;
     };
 
-    Head read_head(std::size_t p) const {
-        ensure(p < buf_.size(), "CBOR: truncated");
-        uint8_t b = buf_[p];
+    Head read_head(std::size_t p) const { return read_head(buf_, p); }
+
+    static Head read_head(std::span<const uint8_t> buf, std::size_t p) {
+        ensure(p < buf.size(), "CBOR: truncated");
+        uint8_t b = buf[p];
         Head h{}; h.major = b >> 5; h.addl = b & 0x1F; h.indefinite = false; h.hlen = 1; h.val = 0;
         if (h.major == 7) {
             // simple/float encoding: header is 1 byte for floats; body size depends on addl
@@ -104,7 +106,7 @@ class CborDeserializer {
             else if (h.addl == 26) { h.val = 4; }      // float32
             else if (h.addl == 27) { h.val = 8; }      // float64
             else if (h.addl == 24) {                   // simple value (next 1 byte)
-                ensure(p+2 <= buf_.size(), "CBOR: truncated simple(24)");
+                ensure(p+2 <= buf.size(), "CBOR: truncated simple(24)");
                 h.hlen = 2; h.val = 0;
             } else if (h.addl == 31) {
                 h.indefinite = true;
@@ -115,17 +117,24 @@ class CborDeserializer {
             return h;
         }
         if (h.addl < 24) { h.val = h.addl; }
-        else if (h.addl == 24) { ensure(p+2 <= buf_.size(), "CBOR: truncated u8"); h.val = buf_[p+1]; h.hlen = 2; }
-        else if (h.addl == 25) { ensure(p+3 <= buf_.size(), "CBOR: truncated u16"); h.val = get_be(&buf_[p+1],2); h.hlen = 3; }
-        else if (h.addl == 26) { ensure(p+5 <= buf_.size(), "CBOR: truncated u32"); h.val = get_be(&buf_[p+1],4); h.hlen = 5; }
-        else if (h.addl == 27) { ensure(p+9 <= buf_.size(), "CBOR: truncated u64"); h.val = get_be(&buf_[p+1],8); h.hlen = 9; }
+        else if (h.addl == 24) { ensure(p+2 <= buf.size(), "CBOR: truncated u8"); h.val = buf[p+1]; h.hlen = 2; }
+        else if (h.addl == 25) { ensure(p+3 <= buf.size(), "CBOR: truncated u16"); h.val = get_be(&buf[p+1],2); h.hlen = 3; }
+        else if (h.addl == 26) { ensure(p+5 <= buf.size(), "CBOR: truncated u32"); h.val = get_be(&buf[p+1],4); h.hlen = 5; }
+        else if (h.addl == 27) { ensure(p+9 <= buf.size(), "CBOR: truncated u64"); h.val = get_be(&buf[p+1],8); h.hlen = 9; }
         else if (h.addl == 31) { h.indefinite = true; }
         else { throw DeserializationError("CBOR: reserved additional info"); }
         return h;
     }
 
-    std::size_t skip(std::size_t p) const {
-        auto h = read_head(p);
+    // Deepest nesting skip() follows; the limit jsoncons applies when encoding.
+    static constexpr std::size_t MaxDepth = 1024;
+
+    std::size_t skip(std::size_t p) const { return skip(buf_, p); }
+
+    // Position after the item at p. All of the item is known to lie inside buf on return.
+    static std::size_t skip(std::span<const uint8_t> buf, std::size_t p, std::size_t depth = 0) {
+        ensure(depth <= MaxDepth, "CBOR: nested too deeply");
+        auto h = read_head(buf, p);
         std::size_t q = p + h.hlen;
         switch (h.major) {
             case 0: // uint
@@ -134,50 +143,52 @@ class CborDeserializer {
             case 2: // bstr
             case 3: // tstr
                 if (!h.indefinite) {
-                    ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
+                    ensure(h.val <= buf.size() - q, "CBOR: truncated string");
                     return q + static_cast<std::size_t>(h.val);
                 } else {
                     // chunks terminated by 0xFF
                     for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef str");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        auto ch = read_head(q);
+                        ensure(q < buf.size(), "CBOR: truncated indef str");
+                        if (buf[q] == 0xFF) return q + 1;
+                        auto ch = read_head(buf, q);
                         ensure(ch.major == h.major, "CBOR: wrong chunk type");
                         ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
-                        q += ch.hlen + static_cast<std::size_t>(ch.val);
+                        q += ch.hlen;
+                        ensure(ch.val <= buf.size() - q, "CBOR: truncated chunk");
+                        q += static_cast<std::size_t>(ch.val);
                     }
                 }
             case 4: // array
                 if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) q = skip(q);
+                    for (uint64_t i = 0; i < h.val; ++i) q = skip(buf, q, depth + 1);
                     return q;
                 } else {
                     for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef array");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q);
+                        ensure(q < buf.size(), "CBOR: truncated indef array");
+                        if (buf[q] == 0xFF) return q + 1;
+                        q = skip(buf, q, depth + 1);
                     }
                 }
             case 5: // map
                 if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) { q = skip(q); q = skip(q); }
+                    for (uint64_t i = 0; i < h.val; ++i) { q = skip(buf, q, depth + 1); q = skip(buf, q, depth + 1); }
                     return q;
                 } else {
                     for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef map");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q); // key
-                        q = skip(q); // value
+                        ensure(q < buf.size(), "CBOR: truncated indef map");
+                        if (buf[q] == 0xFF) return q + 1;
+                        q = skip(buf, q, depth + 1); // key
+                        q = skip(buf, q, depth + 1); // value
                     }
                 }
             case 6: // tag
                 // skip tag then the tagged value
-                return skip(q);
+                return skip(buf, q, depth + 1);
             case 7: // floats/simple
-                if (h.addl == 25) { ensure(q+2 <= buf_.size(), "CBOR: truncated f16"); return q+2; }
-                if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
-                if (h.addl == 27) { ensure(q+8 <= buf_.size(), "CBOR: truncated f64"); return q+8; }
-                if (h.addl == 24) { ensure(q+1 <= buf_.size(), "CBOR: truncated simple(24)"); return q+1; }
+                if (h.addl == 25) { ensure(q+2 <= buf.size(), "CBOR: truncated f16"); return q+2; }
+                if (h.addl == 26) { ensure(q+4 <= buf.size(), "CBOR: truncated f32"); return q+4; }
+                if (h.addl == 27) { ensure(q+8 <= buf.size(), "CBOR: truncated f64"); return q+8; }
+                // simple(24): its value byte is part of the header
                 // simple/bool/null (no body): header only
                 return q;
             default:
@@ -254,7 +265,10 @@ public:
     int64_t  asInt64()  const {
         auto h = head();
         ensure(h.major==0 || h.major==1, "CBOR: not an integer");
-        if (h.major==0) return static_cast<int64_t>(h.val);
+        if (h.major==0) {
+            if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 overflow");
+            return static_cast<int64_t>(h.val);
+        }
         // negative: -1 - n
         if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 underflow");
         long long x = -1 - static_cast<long long>(h.val);
@@ -270,6 +284,7 @@ public:
     double   asDouble() const {
         auto h = head(); ensure(isFloat(), "CBOR: not a float");
         std::size_t q = pos_ + h.hlen;
+        ensure(h.val <= buf_.size() - q, "CBOR: truncated float");
         if (h.addl == 25) { uint16_t v = (uint16_t)((buf_[q] << 8) | buf_[q+1]); return decode_f16(v); }
         if (h.addl == 26) { uint32_t v = (uint32_t)get_be(&buf_[q],4); float f; std::memcpy(&f,&v,4); return static_cast<double>(f); }
         uint64_t v = get_be(&buf_[q],8); double d; std::memcpy(&d,&v,8); return d;
@@ -280,16 +295,16 @@ public:
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         std::size_t q = pos_ + h.hlen;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
-            return std::string(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+            ensure(h.val <= buf_.size() - q, "CBOR: truncated string");
+            return std::string(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
         } else {
             std::string out;
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: truncated indef tstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==3 && !ch.indefinite, "CBOR: bad tstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc");
-                out.append(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(ch.val));
+                q += ch.hlen; ensure(ch.val <= buf_.size() - q, "CBOR: trunc");
+                out.append(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(ch.val));
                 q += ch.val;
             }
             return out;
@@ -298,15 +313,15 @@ public:
     std::string_view asStringView() const {
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         ensure(!h.indefinite, "CBOR: string is indefinite; use asString()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc tstr");
-        return std::string_view(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+        std::size_t q = pos_ + h.hlen; ensure(h.val <= buf_.size() - q, "CBOR: trunc tstr");
+        return std::string_view(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
     }
 
     std::span<const std::byte> asBlob() const {
         auto h = head(); ensure(h.major==2, "CBOR: not a byte string");
         ensure(!h.indefinite, "CBOR: chunked byte string; fetch via asBlobVec()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-        auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+        std::size_t q = pos_ + h.hlen; ensure(h.val <= buf_.size() - q, "CBOR: trunc bstr");
+        auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
         return { p, static_cast<std::size_t>(h.val) };
     }
     std::vector<std::byte> asBlobVec() const {
@@ -314,16 +329,16 @@ public:
         std::size_t q = pos_ + h.hlen;
         std::vector<std::byte> out;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-            auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+            ensure(h.val <= buf_.size() - q, "CBOR: trunc bstr");
+            auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
             out.insert(out.end(), p, p + h.val);
         } else {
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: trunc indef bstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==2 && !ch.indefinite, "CBOR: bad bstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc chunk");
-                auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+                q += ch.hlen; ensure(ch.val <= buf_.size() - q, "CBOR: trunc chunk");
+                auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
                 out.insert(out.end(), p, p + ch.val);
                 q += ch.val;
             }
@@ -341,7 +356,7 @@ public:
                 auto kh = read_head(q);
                 std::string_view ksv;
                 if (kh.major==3 && !kh.indefinite) {
-                    ksv = std::string_view(reinterpret_cast<const char*>(&buf_[q+kh.hlen]), static_cast<std::size_t>(kh.val));
+                    ksv = CborDeserializer(buf_, q).asStringView();
                 } else {
                     // fallback: decode key to string
                     CborDeserializer keyv(buf_, q);
@@ -384,65 +399,23 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
-            struct H { uint8_t major, addl; uint64_t val; std::size_t hlen; bool indefinite; };
-            static H read_head(std::span<const uint8_t> b, std::size_t p) {
-                uint8_t bb = b[p];
-                H h{}; h.major = bb>>5; h.addl=bb&0x1F; h.hlen=1; h.val=0; h.indefinite=false;
-                if (h.major==7) {
-                    if (h.addl==25) { h.val=2; }
-                    else if (h.addl==26) { h.val=4; }
-                    else if (h.addl==27) { h.val=8; }
-                    else if (h.addl==24) { h.hlen=2; }
-                    else if (h.addl==31) { h.indefinite=true; }
-                    return h;
-                }
-                if (h.addl<24) { h.val=h.addl; }
-                else if (h.addl==24) { h.val=b[p+1]; h.hlen=2; }
-                else if (h.addl==25) { h.val=(uint64_t)b[p+1]<<8 | b[p+2]; h.hlen=3; }
-                else if (h.addl==26) { h.val=((uint64_t)b[p+1]<<24)|((uint64_t)b[p+2]<<16)|((uint64_t)b[p+3]<<8)|b[p+4]; h.hlen=5; }
-                else if (h.addl==27) { h.val=((uint64_t)b[p+1]<<56)|((uint64_t)b[p+2]<<48)|((uint64_t)b[p+3]<<40)|((uint64_t)b[p+4]<<32)|((uint64_t)b[p+5]<<24)|((uint64_t)b[p+6]<<16)|((uint64_t)b[p+7]<<8)|b[p+8]; h.hlen=9; }
-                else if (h.addl==31) { h.indefinite=true; }
-                return h;
-            }
-            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) {
-                auto h = read_head(b,p); std::size_t q=p+h.hlen;
-                switch (h.major) {
-                    case 0: case 1: return q;
-                    case 2: case 3:
-                        if (!h.indefinite) return q + (std::size_t)h.val;
-                        for (;;) { if (b[q]==0xFF) return q+1; auto ch=read_head(b,q); q += ch.hlen + (std::size_t)ch.val; }
-                    case 4:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i) q=skip(b,q); return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q);}        
-                    case 5:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i){ q=skip(b,q); q=skip(b,q);} return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q); q=skip(b,q);} 
-                    case 6: return skip(b,q);
-                    case 7:
-                        if (h.addl==25) return q+2; if (h.addl==26) return q+4; if (h.addl==27) return q+8; return q;
-                }
-                return q;
-            }
-
             reference operator*() const {
-                auto kh = read_head(buf, q);
-                if (kh.major==3 && !kh.indefinite) {
-                    return std::string_view(reinterpret_cast<const char*>(&buf[q+kh.hlen]), (std::size_t)kh.val);
-                }
+                CborDeserializer v(buf, q);
+                auto kh = v.head();
+                if (kh.major==3 && !kh.indefinite) return v.asStringView();
                 // fallback: materialize
-                CborDeserializer v(std::span<const uint8_t>(buf.data(), buf.size()), q);
                 scratch = v.asString();
                 return std::string_view(scratch);
             }
             iterator& operator++() {
                 if (indefinite) {
-                    if (buf[q]==0xFF) return *this; // already at end
-                    q = skip(buf,q); // key
-                    q = skip(buf,q); // value
+                    if (q < buf.size() && buf[q]==0xFF) return *this; // already at end
+                    q = CborDeserializer::skip(buf,q); // key
+                    q = CborDeserializer::skip(buf,q); // value
                 } else {
                     if (remaining==0) return *this;
-                    q = skip(buf,q); // key
-                    q = skip(buf,q); // value
+                    q = CborDeserializer::skip(buf,q); // key
+                    q = CborDeserializer::skip(buf,q); // value
                     --remaining;
                 }
                 return *this;
@@ -452,15 +425,15 @@ public:
         };
 
         iterator begin() const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); std::size_t q = start + h.hlen; it.q = q; it.indefinite = h.indefinite; it.remaining = h.indefinite ? 0 : (uint64_t)h.val; return it;
+            iterator it; it.buf = buf; auto h = CborDeserializer::read_head(buf, start); std::size_t q = start + h.hlen; it.q = q; it.indefinite = h.indefinite; it.remaining = h.indefinite ? 0 : (uint64_t)h.val; return it;
         }
         iterator end()   const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); if (!h.indefinite) {
+            iterator it; it.buf = buf; auto h = CborDeserializer::read_head(buf, start); if (!h.indefinite) {
                 // compute end pos
-                std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
+                std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = CborDeserializer::skip(buf,q); q = CborDeserializer::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
             } else {
                 // find break
-                std::size_t q = start + h.hlen; for(;;){ if (buf[q]==0xFF){ it.q=q+1; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
+                std::size_t q = start + h.hlen; for(;;){ ensure(q < buf.size(), "CBOR: trunc indef map"); if (buf[q]==0xFF){ it.q=q; break; } q = CborDeserializer::skip(buf,q); q = CborDeserializer::skip(buf,q);} it.indefinite=true; return it;
             }
         }
     };
@@ -487,7 +460,8 @@ public:
     // ---- array interface ----
     std::size_t arraySize() const {
         auto h = head(); ensure(h.major==4, "CBOR: not an array");
-        if (!h.indefinite) return static_cast<std::size_t>(h.val);
+        // every element takes at least one byte
+        if (!h.indefinite) { ensure(h.val <= buf_.size() - pos_ - h.hlen, "CBOR: truncated array"); return static_cast<std::size_t>(h.val); }
         std::size_t q = pos_ + h.hlen; std::size_t c=0; for(;;){ ensure(q<buf_.size(), "CBOR: trunc indef arr"); if(buf_[q]==0xFF) break; q = skip(q); ++c; } return c;
     }
     CborDeserializer operator[](std::size_t idx) const {
@@ -518,23 +492,29 @@ private:
         }
     }
     void dump_rec(std::ostringstream& os, std::size_t p, int pad) const {
-        auto h = read_head(p); auto t = type_code(p); std::size_t q = p + h.hlen;
+        ensure(pad <= 2 * int(MaxDepth), "CBOR: nested too deeply");
+        auto h = read_head(p); auto t = type_code(p);
         if (h.major==0) { os << t << '|' << h.val; }
         else if (h.major==1) { long long x = -1 - (long long)h.val; os << t << '|' << x; }
         else if (h.major==7 && (h.addl==25||h.addl==26||h.addl==27)) { os << t << '|' << CborDeserializer(buf_, p).asDouble(); }
         else if (h.major==7 && (h.addl==20||h.addl==21)) { os << t << "| " << (h.addl==21?"true":"false"); }
         else if (h.major==7 && h.addl==22) { os << t << "|null"; }
         else if (h.major==3) {
-            if (!h.indefinite) { os << t << "|\"" << std::string(reinterpret_cast<const char*>(&buf_[q]), (std::size_t)h.val) << '"'; }
-            else { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
+            os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"';
         } else if (h.major==2) {
-            std::size_t total = 0; if (!h.indefinite) total = (std::size_t)h.val; else { for(;;){ if(buf_[q]==0xFF) break; auto ch = read_head(q); total += (std::size_t)ch.val; q += ch.hlen + (std::size_t)ch.val; } }
+            std::size_t total = CborDeserializer(buf_, p).asBlobVec().size();
             os << t << "[size=" << total << "]";
         } else if (h.major==4) {
-            os << t << " [\n"; std::size_t n = arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
+            os << t << " [\n"; std::size_t n = CborDeserializer(buf_, p).arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
         } else if (h.major==5) {
-            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t count = h.indefinite ? arraySize() : (std::size_t)h.val; // rough
-            std::size_t i=0; while (true){ if (h.indefinite && buf_[q2]==0xFF) { q2++; break; } indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; if (!h.indefinite && i>=count) break; }
+            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t i = 0;
+            for (; h.indefinite || i < h.val; ++i) {
+                ensure(q2 < buf_.size(), "CBOR: truncated map");
+                if (h.indefinite && buf_[q2]==0xFF) break;
+                if (i) os << ",\n";
+                indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2);
+            }
+            if (i) os << "\n";
             indent(os, pad); os << '}';
         } else {
             os << t;
-- 
2.43.0


From 14de199edabc2334dda37dcc8f4282553d96ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:24 +0000
Subject: [PATCH 17/31] fix: JSON integer accessors throw instead of truncating
 or wrapping

---
 include/zerialize/protocols/json.hpp | 37 ++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index c07a7ac..7b62c67 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <type_traits>
+#include <utility>
 #include <yyjson.h>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -93,6 +94,17 @@ class JsonDeserializer {
             throw DeserializationError(std::string("Value is not a ") + what);
     }
 
+    // integer conversion that refuses values the target cannot hold
+    template<class To, class From>
+    static To narrow(From v) {
+        ensure(std::in_range<To>(v), "integer out of range");
+        return static_cast<To>(v);
+    }
+
+    yyjson_val* find(std::string_view key) const {
+        return yyjson_obj_getn(cur_, key.data() ? key.data() : "", key.size());
+    }
+
 public:
     // --- ctors: root (owning) ---
     explicit JsonDeserializer(std::string_view json) {
@@ -156,14 +168,19 @@ public:
     }
 
     // --- scalars ---
-    int8_t   asInt8()   const { check(yyjson_is_int,  "signed integer"); return static_cast<int8_t>(yyjson_get_sint(cur_)); }
-    int16_t  asInt16()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int16_t>(yyjson_get_sint(cur_)); }
-    int32_t  asInt32()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int32_t>(yyjson_get_sint(cur_)); }
-    int64_t  asInt64()  const { check(yyjson_is_int,  "signed integer"); return yyjson_get_sint(cur_); }
-
-    uint8_t  asUInt8()  const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint8_t>(yyjson_get_uint(cur_)); }
-    uint16_t asUInt16() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint16_t>(yyjson_get_uint(cur_)); }
-    uint32_t asUInt32() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint32_t>(yyjson_get_uint(cur_)); }
+    int8_t   asInt8()   const { return narrow<int8_t>(asInt64()); }
+    int16_t  asInt16()  const { return narrow<int16_t>(asInt64()); }
+    int32_t  asInt32()  const { return narrow<int32_t>(asInt64()); }
+    int64_t  asInt64()  const {
+        check(yyjson_is_int,  "signed integer");
+        // yyjson keeps non-negative integers as uint64
+        if (yyjson_is_uint(cur_)) return narrow<int64_t>(yyjson_get_uint(cur_));
+        return yyjson_get_sint(cur_);
+    }
+
+    uint8_t  asUInt8()  const { return narrow<uint8_t>(asUInt64()); }
+    uint16_t asUInt16() const { return narrow<uint16_t>(asUInt64()); }
+    uint32_t asUInt32() const { return narrow<uint32_t>(asUInt64()); }
     uint64_t asUInt64() const { check(yyjson_is_uint, "unsigned integer"); return yyjson_get_uint(cur_); }
 
     float    asFloat()  const { check(yyjson_is_real, "float");  return static_cast<float>(yyjson_get_real(cur_)); }
@@ -188,7 +205,7 @@ public:
     // --- map interface ---
     bool contains(std::string_view key) const {
         if (!isMap()) return false;
-        return yyjson_obj_getn(cur_, key.data(), key.size()) != nullptr;
+        return find(key) != nullptr;
     }
 
     KeysView mapKeys() const {
@@ -198,7 +215,7 @@ public:
 
     JsonDeserializer operator[](std::string_view key) const {
         check(yyjson_is_obj, "map/object");
-        yyjson_val* v = yyjson_obj_getn(cur_, key.data(), key.size());
+        yyjson_val* v = find(key);
         if (!v) throw DeserializationError("Key not found: " + std::string(key));
         return JsonDeserializer(v, doc_); // view
     }
-- 
2.43.0


From a4d5e4fcbdc26f216d262f0a737a891fbfd65504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:42 +0000
Subject: [PATCH 18/31] fix: JSON writer kept pointers to temporaries, lost
 empty keys, cut keys at NUL and leaked on error

---
 include/zerialize/protocols/json.hpp | 49 ++++++++++++----------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 7b62c67..77c95a0 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -5,6 +5,9 @@
 #include <span>
 #include <set>
 #include <iterator>
+#include <optional>
+#include <stdexcept>
+#include <vector>
 #include <cstddef>
 #include <cstdint>
 #include <type_traits>
@@ -258,16 +261,20 @@ struct RootSerializer {
     struct Ctx {
         enum K { Arr, Obj } k;
         yyjson_mut_val* node;        // array or object node
-        std::string pending_key;     // for objects: set by key(), consumed by next value
+        std::optional<std::string> pending_key; // for objects: set by key(), consumed by next value
     };
     std::vector<Ctx> st;
 
     RootSerializer() : doc(yyjson_mut_doc_new(nullptr)) {
         if (!doc) throw std::bad_alloc{};
     }
+    ~RootSerializer() { if (doc) yyjson_mut_doc_free(doc); }
+    RootSerializer(const RootSerializer&) = delete;
+    RootSerializer& operator=(const RootSerializer&) = delete;
 
     // Consume and produce the final buffer.
     ZBuffer finish() {
+        if (!st.empty()) throw std::logic_error("finish() with an open array or map");
         if (!root) {
             root = yyjson_mut_null(doc);
             yyjson_mut_doc_set_root(doc, root);
@@ -285,7 +292,7 @@ struct RootSerializer {
         // Hand ownership directly to ZBuffer to avoid a copy.
         yyjson_mut_doc_free(doc);
         doc = nullptr;
-        return ZBuffer(static_cast<void*>(s), len, ZBuffer::Deleters::Free);
+        return ZBuffer(reinterpret_cast<std::uint8_t*>(s), len, ZBuffer::Deleters::Free);
     }
 };
 
@@ -301,7 +308,8 @@ struct Serializer {
     void uint64(std::uint64_t v){ push_value(yyjson_mut_uint(doc(), v)); }
     void double_(double v)      { push_value(yyjson_mut_real(doc(), v)); }
     void string(std::string_view sv) {
-        push_value(yyjson_mut_strn(doc(), sv.data(), sv.size()));
+        // the document is written out later than this call, so it needs its own copy
+        push_value(yyjson_mut_strncpy(doc(), sv.data() ? sv.data() : "", sv.size()));
     }
     // Encode binary as array of 0..255
     void binary(std::span<const std::byte> b) {
@@ -336,7 +344,7 @@ struct Serializer {
     }
     void end_map() {
         ensure_in(RootSerializer::Ctx::Obj, "end_map");
-        if (!r->st.back().pending_key.empty())
+        if (r->st.back().pending_key)
             throw std::logic_error("end_map() while awaiting value for key()");
         r->st.pop_back();
     }
@@ -344,9 +352,9 @@ struct Serializer {
     void key(std::string_view k) {
         ensure_in(RootSerializer::Ctx::Obj, "key");
         auto& c = r->st.back();
-        if (!c.pending_key.empty())
+        if (c.pending_key)
             throw std::logic_error("key() called twice without value");
-        c.pending_key.assign(k.data(), k.size());
+        c.pending_key.emplace(k);
      }
 
 private:
@@ -370,31 +378,16 @@ private:
                 throw std::bad_alloc{};
         } else {
 
-            // current: c.pending_key holds a std::string we set in key()
-            // auto& c = r->st.back();
-            if (c.pending_key.empty())
+            // c.pending_key holds the std::string we set in key()
+            if (!c.pending_key)
                 throw std::logic_error("value added to object without key()");
-    
-            // optional sanity check during debug
-            #ifndef NDEBUG
-            if (c.pending_key.find('\0') != std::string::npos) {
-                throw std::logic_error("embedded NUL in key() input");
-            }
-            #endif
-    
-            // EITHER use the convenience helper if your yyjson has it:
-            #if defined(YYJSON_VERSION_HEX) && (YYJSON_VERSION_HEX >= 0x000e00) // 0.14.0+
-            if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key.c_str(), v))
-                throw std::bad_alloc{};
-            #else
-            // OR the portable two-step using a *cpy* string node (always null-terminated):
-            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key.c_str());
+
+            yyjson_mut_val* k = yyjson_mut_strncpy(doc(), c.pending_key->data(), c.pending_key->size());
             if (!k || !yyjson_mut_obj_add(c.node, k, v))
                 throw std::bad_alloc{};
-            #endif
-    
-            c.pending_key.clear();
-    }
+
+            c.pending_key.reset();
+        }
     }
 
     void ensure_in(RootSerializer::Ctx::K want, const char* fn) const {
-- 
2.43.0


From 9ec79ba8742e6c42414734f5841707a71b9eee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:06 +0000
Subject: [PATCH 19/31] fix: reading a tensor stored as a map did not compile

---
 include/zerialize/tensor/utils.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 58e1336..9660e3f 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -139,11 +139,10 @@ template <typename T, bool TensorIsMap=false>
 bool isTensor(const Reader auto& buf) {
     if constexpr (TensorIsMap) {
         if (!buf.isMap()) return false;
-        std::set<std::string_view> keys = buf.mapKeys();
         return 
-            keys.contains(ShapeKey) && buf[ShapeKey].isArray() && 
-            keys.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt8() == tensor_dtype_index<T> &&
-            keys.contains(DataKey) && buf[DataKey].isBlob();
+            buf.contains(ShapeKey) && buf[ShapeKey].isArray() && 
+            buf.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt8() == tensor_dtype_index<T> &&
+            buf.contains(DataKey) && buf[DataKey].isBlob();
     } else {
         if (!buf.isArray()) return false;
         if (buf.arraySize() < 3) return false;
-- 
2.43.0


From f753764be186b122f73e37817ba5a39fb667bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:44 +0000
Subject: [PATCH 20/31] fix: refuse xtensor dimensions over 32 bits instead of
 truncating them

---
 include/zerialize/tensor/utils.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 9660e3f..4806bd8 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -78,7 +78,12 @@ inline TensorShape shape_of_sizet(const auto& tshape) {
     TensorShape shape;
     shape.reserve(tshape.size());
     std::transform(tshape.begin(), tshape.end(), std::back_inserter(shape),
-        [](auto x) { return static_cast<TensorShapeElement>(x); });
+        [](auto x) {
+            if (static_cast<std::uint64_t>(x) > std::numeric_limits<TensorShapeElement>::max()) {
+                throw SerializationError("tensor dimension exceeds TensorShapeElement range");
+            }
+            return static_cast<TensorShapeElement>(x);
+        });
     return shape;
 }
 
-- 
2.43.0


From 208fc359bc78871cc00d7537b6bc1cd5f75234f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:23 +0000
Subject: [PATCH 21/31] fix: empty tensors with huge dimensions overflowed the
 view's strides

---
 include/zerialize/tensor/xtensor.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 404d322..af31ea6 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -69,7 +69,7 @@ public:
     // If the view is not zero-copy, it adapts the owned array storage.
     auto tensor() const {
         T* ptr = owned_ ? const_cast<T*>(owned_->data()) : const_cast<T*>(reinterpret_cast<const T*>(bytes_.data()));
-        return xt::adapt(ptr, element_count_, xt::no_ownership(), shape_);
+        return xt::adapt(ptr, element_count_, xt::no_ownership(), shape_as_sizet());
     }
 
     // Returns an owning xarray (copying if this is backed by a span).
@@ -97,17 +97,23 @@ private:
 
 // Multiply all dimensions (with overflow checking) to get total element count.
 // This is used for validating that the blob size matches prod(shape) * sizeof(T).
+// The non-zero dimensions must not overflow either: xtensor multiplies them into strides.
 inline std::size_t checked_element_count(const TensorShape& shape) {
+    constexpr auto max_count = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
     std::size_t count = 1;
+    bool empty = false;
     for (auto d : shape) {
         const std::size_t dim = static_cast<std::size_t>(d);
-        if (dim == 0) return 0;
-        if (count > (std::numeric_limits<std::size_t>::max() / dim)) {
+        if (dim == 0) {
+            empty = true;
+            continue;
+        }
+        if (count > (max_count / dim)) {
             throw DeserializationError("tensor element count overflow");
         }
         count *= dim;
     }
-    return count;
+    return empty ? 0 : count;
 }
 
 // Normalize the protocol-specific blob representation into a `std::span<const std::byte>`.
-- 
2.43.0


From 749130df06a0be8fc9439a849751dcb003604d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:20 +0000
Subject: [PATCH 22/31] fix: Zera header check wrapped for envelope sizes close
 to 4 GiB

---
 include/zerialize/protocols/zera.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 67cfaa0..1d164a9 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -506,8 +506,8 @@ class ZeraDeserializer final : public ZeraViewBase {
         require(h.root_ofs < h.env_size, "zera: root_ofs out of bounds");
         require(h.arena_ofs <= buf.size(), "zera: arena_ofs out of bounds");
         require((h.arena_ofs % ArenaBaseAlign) == 0, "zera: arena_ofs not aligned");
-        require(h.arena_ofs >= HeaderSize + h.env_size, "zera: arena_ofs overlaps envelope");
-        require(HeaderSize + h.env_size <= h.arena_ofs, "zera: envelope exceeds arena_ofs");
+        // Summed as size_t: a forged env_size must not wrap.
+        require(h.arena_ofs >= std::size_t(HeaderSize) + h.env_size, "zera: arena_ofs overlaps envelope");
 
         buf_ = buf.data();
         buf_len_ = buf.size();
-- 
2.43.0


From 7cbc320758a56fc5e17cc4df742e536f2c232aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:20 +0000
Subject: [PATCH 23/31] fix: ZBuffer::hexdump(0) never returned

---
 include/zerialize/zbuffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index a1dbdcd..045f56b 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -264,6 +264,7 @@ public:
         if (!p || n == 0) {
             return "(empty)\n";
         }
+        if (bytes_per_row == 0) bytes_per_row = 16; // a row of no bytes would never end
     
         // Save stream formatting
         std::ios::fmtflags f = os.flags();
-- 
2.43.0


From 22b8eebd7f143a54e968eda88cfa83f19d7a0a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:20 +0000
Subject: [PATCH 24/31] fix: MsgPack to_string recursed without limit

---
 include/zerialize/protocols/msgpack.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 4c1dfb1..f319801 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -175,6 +175,8 @@ class MsgPackDeserializer {
         return "any";
     }
     static void dump(std::ostringstream& os, const MsgPackDeserializer& v, int pad) {
+        // Bounds the recursion (and the indentation) on hostile nesting.
+        if (pad > 2 * 1024) throw DeserializationError("msgpack: nested too deeply");
         auto ind = [&](int n){ for(int i=0;i<n;++i) os.put(' '); };
         if (v.isNull()) { os << "null: null"; return; }
         if (v.isBool()) { os << "bool: " << (v.asBool()?"true":"false"); return; }
-- 
2.43.0


From 0b516cd5c1e0332d09f692537b5e1c362b2d86b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:20 +0000
Subject: [PATCH 25/31] fix: Flex to_string printed typed vectors as empty

---
 include/zerialize/protocols/flex.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index e92481a..d3c33de 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -207,13 +207,18 @@ protected:
             os << '}';
         } else if (r.IsAnyVector()) {
             os << t << " [\n";
-            auto v = r.AsVector();
-            for (size_t i = 0; i < v.size(); ++i) {
-                indent(os, pad + 2);
-                dump_rec(os, v[i], pad + 2);
-                if (i + 1 < v.size()) os << ',';
-                os << '\n';
-            }
+            // AsVector() is empty for typed vectors, which have accessors of their own.
+            auto dump_elems = [&](const auto& v) {
+                for (size_t i = 0; i < v.size(); ++i) {
+                    indent(os, pad + 2);
+                    dump_rec(os, v[i], pad + 2);
+                    if (i + 1 < v.size()) os << ',';
+                    os << '\n';
+                }
+            };
+            if (r.IsTypedVector()) dump_elems(r.AsTypedVector());
+            else if (r.IsFixedTypedVector()) dump_elems(r.AsFixedTypedVector());
+            else dump_elems(r.AsVector());
             indent(os, pad);
             os << ']';
         } else {
-- 
2.43.0


From cb4959e4239ac851e166d9449220fccd35ccea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:21 +0000
Subject: [PATCH 26/31] fix: dump_flex shows typed vectors and indirect numbers

---
 include/zerialize/protocols/flex.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index d3c33de..3576433 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -488,7 +488,8 @@ namespace debugging {
         std::cout << "}";
     }
 
-    static void print_vector(flexbuffers::Vector v, int indent) {
+    template <class V>
+    static void print_vector(const V& v, int indent) {
         std::cout << "[\n";
         for (size_t i = 0; i < v.size(); ++i) {
             print_indent(indent + 2);
@@ -509,9 +510,12 @@ namespace debugging {
         switch (r.GetType()) {
             case T::FBT_NULL:   std::cout << "null"; break;
             case T::FBT_BOOL:   std::cout << (r.AsBool() ? "true" : "false"); break;
-            case T::FBT_INT:    std::cout << r.AsInt64(); break;
-            case T::FBT_UINT:   std::cout << r.AsUInt64(); break;
-            case T::FBT_FLOAT:  std::cout << r.AsDouble(); break;
+            case T::FBT_INT:
+            case T::FBT_INDIRECT_INT:   std::cout << r.AsInt64(); break;
+            case T::FBT_UINT:
+            case T::FBT_INDIRECT_UINT:  std::cout << r.AsUInt64(); break;
+            case T::FBT_FLOAT:
+            case T::FBT_INDIRECT_FLOAT: std::cout << r.AsDouble(); break;
 
             // String may return a char* via .str(); wrap it so quoted works everywhere
             case T::FBT_STRING:
@@ -528,11 +532,6 @@ namespace debugging {
                 break;
 
             case T::FBT_VECTOR:
-            case T::FBT_VECTOR_INT:
-            case T::FBT_VECTOR_UINT:
-            case T::FBT_VECTOR_FLOAT:
-            case T::FBT_VECTOR_BOOL:
-            case T::FBT_VECTOR_KEY:
                 print_vector(r.AsVector(), indent);
                 break;
 
@@ -541,7 +540,9 @@ namespace debugging {
                 break;
 
             default:
-                std::cout << "<unknown>";
+                if (r.IsTypedVector()) print_vector(r.AsTypedVector(), indent);
+                else if (r.IsFixedTypedVector()) print_vector(r.AsFixedTypedVector(), indent);
+                else std::cout << "<unknown>";
                 break;
         }
     }
-- 
2.43.0


From 21c96ea78c13fea53f46581a92bdc08861214aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:36 +0000
Subject: [PATCH 27/31] fix: translate accepts every blob type the Reader
 concept allows

A reader whose asBlob() returns a type with only data() and size() satisfies
BlobView, but write_value passed it to binary(span) unconverted.
---
 include/zerialize/translate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/translate.hpp b/include/zerialize/translate.hpp
index f3c287f..6946657 100644
--- a/include/zerialize/translate.hpp
+++ b/include/zerialize/translate.hpp
@@ -53,8 +53,8 @@ inline void write_value(const V& v, W& w, std::size_t depth = 0) {
     if (v.isString())    { w.string(v.asStringView()); return; }
  
     if (v.isBlob()) {
-        auto b = v.asBlob();                    // span<const std::byte>
-        w.binary(b);
+        auto b = v.asBlob();                    // any BlobView, owning or not
+        w.binary(std::span<const std::byte>(std::data(b), std::size(b)));
         return;
     }
 
-- 
2.43.0


From 83d9d6765959118ea6dde1302294612bfb84c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:01 +0000
Subject: [PATCH 28/31] fix: translating a Zera message whose containers share
 children is bounded

Containers that refer to the same children describe exponentially many
values in a few bytes, so translating a hostile message of 1 KiB did not end.
---
 include/zerialize/protocols/zera.hpp |  4 ++++
 include/zerialize/translate.hpp      | 21 ++++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 1d164a9..7489a50 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -347,6 +347,10 @@ public:
         return static_cast<std::size_t>(count);
     }
 
+    // Bounds translation of an envelope whose containers share children. Every value of an
+    // unshared one takes at least 16 bytes, so this leaves room for 16-fold sharing.
+    std::size_t maxValues() const { return env_size_; }
+
     // mapKeys() must be a forward range of string_view, zero-alloc.
     // It refers to the message only, not to the value it came from, which may be a temporary.
     struct KeysView {
diff --git a/include/zerialize/translate.hpp b/include/zerialize/translate.hpp
index 6946657..7cf8b8d 100644
--- a/include/zerialize/translate.hpp
+++ b/include/zerialize/translate.hpp
@@ -35,10 +35,19 @@ namespace zerialize {
 // input (deep nesting, or a Zera envelope whose containers refer to each other).
 inline constexpr std::size_t MaxTranslateDepth = 1024;
 
+// Most values write_value visits, for readers of formats in which containers can share
+// children: a few bytes of hostile input then describe exponentially many values.
+template<class V>
+inline std::size_t translate_budget(const V& v) {
+    if constexpr (requires { v.maxValues(); }) return v.maxValues();
+    else return std::numeric_limits<std::size_t>::max();
+}
+
 // ==== Generic bridge: Reader -> Writer ===============================
 template<class V, class W>
-inline void write_value(const V& v, W& w, std::size_t depth = 0) {
+inline void write_value(const V& v, W& w, std::size_t depth, std::size_t& budget) {
     if (depth > MaxTranslateDepth) throw DeserializationError("write_value: nested too deeply");
+    if (budget-- == 0) throw DeserializationError("write_value: more values than the message can hold");
 
     if (v.isNull())      { w.null(); return; }
     if (v.isBool())      { w.boolean(v.asBool()); return; }
@@ -67,7 +76,7 @@ inline void write_value(const V& v, W& w, std::size_t depth = 0) {
         w.begin_map(count);
         for (std::string_view k : v.mapKeys()) {
             w.key(std::string(k));
-            write_value(v[k], w, depth + 1);
+            write_value(v[k], w, depth + 1, budget);
         }
         w.end_map();
         return;
@@ -76,7 +85,7 @@ inline void write_value(const V& v, W& w, std::size_t depth = 0) {
     if (v.isArray()) {
         const std::size_t n = v.arraySize();
         w.begin_array(n);
-        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w, depth + 1);
+        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w, depth + 1, budget);
         w.end_array();
         return;
     }
@@ -85,6 +94,12 @@ inline void write_value(const V& v, W& w, std::size_t depth = 0) {
     throw std::runtime_error("write_value: unsupported source type");
 }
 
+template<class V, class W>
+inline void write_value(const V& v, W& w, std::size_t depth = 0) {
+    std::size_t budget = translate_budget(v);
+    write_value(v, w, depth, budget);
+}
+
 // ==== Convenience: convert from a source Reader to a destination Protocol
 // Returns DstP::BufferType (e.g., JsonDeserializer, FlexDeserializer, ...)
 
-- 
2.43.0


From f02fcde4c0798b58132ee2f5654848088bd9277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:59 +0000
Subject: [PATCH 29/31] fix: translate strings and blobs a CBOR message sends
 in chunks

write_value used asStringView() and asBlob() only, which refuse
indefinite-length strings; conforming CBOR from other writers could
not be translated.
---
 include/zerialize/protocols/cbor.hpp | 2 ++
 include/zerialize/translate.hpp      | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 08e3002..a656b58 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -257,6 +257,8 @@ public:
     bool isBlob()   const { auto h = head(); return h.major==2; }
     bool isMap()    const { auto h = head(); return h.major==5; }
     bool isArray()  const { auto h = head(); return h.major==4; }
+    // A string or byte string sent in chunks, which asStringView() and asBlob() cannot view.
+    bool isChunked() const { auto h = head(); return (h.major==2 || h.major==3) && h.indefinite; }
 
     // ---- scalars ----
     int8_t   asInt8()   const { auto v = asInt64();  if (v < INT8_MIN  || v > INT8_MAX)  throw DeserializationError("int8 out of range");  return (int8_t)v; }
diff --git a/include/zerialize/translate.hpp b/include/zerialize/translate.hpp
index 7cf8b8d..17b8113 100644
--- a/include/zerialize/translate.hpp
+++ b/include/zerialize/translate.hpp
@@ -59,6 +59,14 @@ inline void write_value(const V& v, W& w, std::size_t depth, std::size_t& budget
     if (v.isInt())       { w.int64(v.asInt64()); return; }
     if (v.isUInt())      { w.uint64(v.asUInt64()); return; }
     if (v.isFloat())     { w.double_(v.asDouble()); return; }
+    // Strings and blobs sent in chunks have no contiguous bytes to view, only copies.
+    if constexpr (requires { v.isChunked(); v.asBlobVec(); }) {
+        if (v.isChunked()) {
+            if (v.isString()) w.string(v.asString());
+            else w.binary(v.asBlobVec());
+            return;
+        }
+    }
     if (v.isString())    { w.string(v.asStringView()); return; }
  
     if (v.isBlob()) {
-- 
2.43.0


From 6180e81ae5d0e7de5553293dbd43f4471b0d6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:54 +0000
Subject: [PATCH 30/31] fix: make the C++20 module interfaces compile

They named zer.hpp and the Zer* entities (now zera.hpp and Zera*), comparison operators and a
tensor adaptor that no longer exist, and exported constants with internal linkage.
---
 include/zerialize/protocols/json.hpp |  4 ++--
 include/zerialize/tensor/utils.hpp   |  6 +++---
 modules/protocols/cbor.cppm          |  1 -
 modules/protocols/flex.cppm          |  1 -
 modules/protocols/json.cppm          |  2 --
 modules/protocols/zera.cppm          | 19 ++++++++-----------
 modules/tensor/xtensor.cppm          |  1 -
 7 files changed, 13 insertions(+), 21 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 77c95a0..21211bb 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -21,8 +21,8 @@
 namespace zerialize {
 namespace json {
 
-const std::string blobTag("~b");
-const std::string blobEncoding("base64");
+inline const std::string blobTag("~b");
+inline const std::string blobEncoding("base64");
 
 // A forward range of string_view over an object's keys.
 struct KeysView {
diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 4806bd8..86c4b2a 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -67,9 +67,9 @@ inline std::string_view type_name_from_code(int type_code) {
     return "unknown";
 }
 
-constexpr char ShapeKey[] = "shape";
-constexpr char DTypeKey[] = "dtype";
-constexpr char DataKey[] = "data";
+inline constexpr char ShapeKey[] = "shape";
+inline constexpr char DTypeKey[] = "dtype";
+inline constexpr char DataKey[] = "data";
 
 using TensorShapeElement = uint32_t;
 using TensorShape = std::vector<TensorShapeElement>;
diff --git a/modules/protocols/cbor.cppm b/modules/protocols/cbor.cppm
index 1b7e87a..e104487 100644
--- a/modules/protocols/cbor.cppm
+++ b/modules/protocols/cbor.cppm
@@ -15,7 +15,6 @@ export namespace zerialize {
         using zerialize::cborjc::RootSerializer;
         using zerialize::cborjc::Serializer;
         using zerialize::cborjc::CborDeserializer;
-        using zerialize::cborjc::operator==;
         #endif
     }
 }
diff --git a/modules/protocols/flex.cppm b/modules/protocols/flex.cppm
index 1cc97f4..c9ed400 100644
--- a/modules/protocols/flex.cppm
+++ b/modules/protocols/flex.cppm
@@ -17,7 +17,6 @@ export namespace zerialize {
         using zerialize::flex::FlexViewBase;
         using zerialize::flex::FlexValue;
         using zerialize::flex::FlexDeserializer;
-        using zerialize::flex::operator==;
         #endif
     }
 }
diff --git a/modules/protocols/json.cppm b/modules/protocols/json.cppm
index b990fdb..914a12c 100644
--- a/modules/protocols/json.cppm
+++ b/modules/protocols/json.cppm
@@ -18,8 +18,6 @@ export namespace zerialize {
         using zerialize::json::JsonDeserializer;
         using zerialize::json::RootSerializer;
         using zerialize::json::Serializer;
-        using zerialize::json::operator==;
-        using zerialize::json::operator!=;
         #endif
     }
 }
diff --git a/modules/protocols/zera.cppm b/modules/protocols/zera.cppm
index f9b3267..6187e65 100644
--- a/modules/protocols/zera.cppm
+++ b/modules/protocols/zera.cppm
@@ -1,21 +1,18 @@
 module;
 
-#include <zerialize/protocols/zer.hpp>
+#include <zerialize/protocols/zera.hpp>
 
 export module zerialize:zera;
 
 export namespace zerialize {
     // Built-in, dependency-free protocol.
-    using zerialize::Zer;
-    using Zera = zerialize::Zer;
+    using zerialize::Zera;
 
-    namespace zer {
-        using zerialize::zer::RootSerializer;
-        using zerialize::zer::Serializer;
-        using zerialize::zer::ZerViewBase;
-        using zerialize::zer::ZerValue;
-        using zerialize::zer::ZerDeserializer;
-        using zerialize::zer::operator==;
+    namespace zera {
+        using zerialize::zera::RootSerializer;
+        using zerialize::zera::Serializer;
+        using zerialize::zera::ZeraViewBase;
+        using zerialize::zera::ZeraValue;
+        using zerialize::zera::ZeraDeserializer;
     }
 }
-
diff --git a/modules/tensor/xtensor.cppm b/modules/tensor/xtensor.cppm
index c3eec3b..4ccaab4 100644
--- a/modules/tensor/xtensor.cppm
+++ b/modules/tensor/xtensor.cppm
@@ -14,7 +14,6 @@ export namespace xt {
 
 export namespace zerialize::xtensor {
     #ifdef ZERIALIZE_ENABLE_XTENSOR
-    using zerialize::xtensor::flextensor_adaptor;
     using zerialize::xtensor::asXTensor;
     #endif
 }
-- 
2.43.0


From cc97870c7ec814b0b986ac7c9a4569eba4a7f7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:46 +0000
Subject: [PATCH 31/31] fix: export the tensor functions from the C++20 module

The interfaces tested ZERIALIZE_ENABLE_*, which CMake never passes to the compiler; the backends are
announced with ZERIALIZE_USE_*.
---
 modules/tensor/eigen.cppm   | 6 +++---
 modules/tensor/utils.cppm   | 4 ++--
 modules/tensor/xtensor.cppm | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/modules/tensor/eigen.cppm b/modules/tensor/eigen.cppm
index 632acaf..e03a917 100644
--- a/modules/tensor/eigen.cppm
+++ b/modules/tensor/eigen.cppm
@@ -1,19 +1,19 @@
 module;
 
-#ifdef ZERIALIZE_ENABLE_EIGEN
+#ifdef ZERIALIZE_USE_EIGEN
 #include <zerialize/tensor/eigen.hpp>
 #endif
 
 export module zerialize:eigen;
 
 export namespace Eigen {
-    #ifdef ZERIALIZE_ENABLE_EIGEN
+    #ifdef ZERIALIZE_USE_EIGEN
     using Eigen::serialize;
     #endif
 }
 
 export namespace zerialize::eigen {
-    #ifdef ZERIALIZE_ENABLE_EIGEN
+    #ifdef ZERIALIZE_USE_EIGEN
     using zerialize::eigen::asEigenMatrix;
     #endif
 }
diff --git a/modules/tensor/utils.cppm b/modules/tensor/utils.cppm
index c13018b..48bf0fe 100644
--- a/modules/tensor/utils.cppm
+++ b/modules/tensor/utils.cppm
@@ -1,13 +1,13 @@
 module;
 
-#ifdef ZERIALIZE_ENABLE_XTENSOR
+#ifdef ZERIALIZE_USE_XTENSOR
 #include <zerialize/tensor/utils.hpp>
 #endif
 
 export module zerialize:utils;
 
 export namespace zerialize {
-    #ifdef ZERIALIZE_ENABLE_XTENSOR
+    #ifdef ZERIALIZE_USE_XTENSOR
     using zerialize::complex;
     using zerialize::tensor_dtype_index;
     using zerialize::tensor_dtype_name;
diff --git a/modules/tensor/xtensor.cppm b/modules/tensor/xtensor.cppm
index 4ccaab4..3281d21 100644
--- a/modules/tensor/xtensor.cppm
+++ b/modules/tensor/xtensor.cppm
@@ -1,19 +1,19 @@
 module;
 
-#ifdef ZERIALIZE_ENABLE_XTENSOR
+#ifdef ZERIALIZE_USE_XTENSOR
 #include <zerialize/tensor/xtensor.hpp>
 #endif
 
 export module zerialize:xtensor;
 
 export namespace xt {
-    #ifdef ZERIALIZE_ENABLE_XTENSOR
+    #ifdef ZERIALIZE_USE_XTENSOR
     using xt::serialize;
     #endif
 }
 
 export namespace zerialize::xtensor {
-    #ifdef ZERIALIZE_ENABLE_XTENSOR
+    #ifdef ZERIALIZE_USE_XTENSOR
     using zerialize::xtensor::asXTensor;
     #endif
 }
-- 
2.43.0

