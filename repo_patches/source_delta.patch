From 7e54f8ccb9e2c75cf5489a17ade24863621d96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:23 +0000
Subject: [PATCH 01/27] fix: a moved-from ZBuffer no longer reports bytes it
 does not have

Moving a ZBuffer that adopted a pointer left the source with a null data()
but the old size(), so buf() on it was a non-empty span over nullptr.
---
 include/zerialize/zbuffer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 103cc40..dfd5120 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -8,6 +8,7 @@
 #include <span>
 #include <variant>
 #include <functional>
+#include <utility>
 
 namespace zerialize {
 
@@ -95,6 +96,15 @@ private:
 
         // Default constructor needed for variant default construction (if needed)
         ManagedPtr() = default;
+
+        // A moved-from ManagedPtr is empty: no pointer, no size.
+        ManagedPtr(ManagedPtr&& o) noexcept
+            : ptr(std::move(o.ptr)), count(std::exchange(o.count, 0)) {}
+        ManagedPtr& operator=(ManagedPtr&& o) noexcept {
+            ptr = std::move(o.ptr);
+            count = std::exchange(o.count, 0);
+            return *this;
+        }
     };
 
     // --- Variant holding the active storage strategy ---
-- 
2.43.0


From 4750a491292e0187a5f62ca57aa325c588c69dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:13 +0000
Subject: [PATCH 02/27] fix: ZBuffer rejects an empty deleter instead of
 terminating

An empty deleter for a uint8_t* terminated the process while the constructor's
exception unwound; for char* and void* it was wrapped, accepted, and terminated
the process when the buffer was destroyed.
---
 include/zerialize/zbuffer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index dfd5120..9c64ab7 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -131,6 +131,8 @@ public:
             throw std::invalid_argument("ZBuffer: Non-zero size requires a non-null pointer");
         }
         if (!std::get<ManagedPtr>(storage_).ptr.get_deleter()) { // Check if deleter is valid (!= nullptr)
+            // Nothing can free the pointer: give it up, or unwinding would call the empty deleter.
+            (void)std::get<ManagedPtr>(storage_).ptr.release();
             throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
         }
     }
@@ -142,6 +144,8 @@ public:
         : ZBuffer(reinterpret_cast<uint8_t*>(data_to_own), size,
             // Create a lambda that captures the original char* deleter
             // and performs the cast back before calling it.
+            // An empty deleter stays empty, so that it is rejected.
+            !char_deleter ? std::function<void(uint8_t*)>() :
             [cd = std::move(char_deleter)](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) { // Avoid casting/deleting null
                     cd(reinterpret_cast<char*>(ptr_to_delete));
@@ -153,6 +157,7 @@ public:
     // Useful for C APIs returning void* (like from malloc).
     ZBuffer(void* data_to_own, size_t size, std::function<void(void*)> void_deleter)
         : ZBuffer(static_cast<uint8_t*>(data_to_own), size,
+            !void_deleter ? std::function<void(uint8_t*)>() :
             [vd = std::move(void_deleter)](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) {
                     vd(static_cast<void*>(ptr_to_delete)); // Cast back to void* for deleter
-- 
2.43.0


From 6a4d4b32f0180764a5d29af9736285716acf77bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:46 +0000
Subject: [PATCH 03/27] fix: zvec/zmap builders own their temporaries

The builders kept references to temporaries (forward_as_tuple) although the
comment says they capture by value, so a builder stored in a variable and
serialized later read dead objects.
---
 include/zerialize/zbuilders.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/zbuilders.hpp b/include/zerialize/zbuilders.hpp
index 8c64d33..22ea65f 100644
--- a/include/zerialize/zbuilders.hpp
+++ b/include/zerialize/zbuilders.hpp
@@ -55,8 +55,9 @@ struct BuilderWrapper {
 template<typename... Ts>
 constexpr auto zvec(Ts&&... xs)
 {
-    // Capture by value with perfect forwarding into a tuple.
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    // Capture by value with perfect forwarding into a tuple: temporaries are moved in
+    // (the builder may outlive the full expression), lvalues are captured by reference.
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         w.begin_array(sizeof...(Ts));
@@ -91,7 +92,7 @@ constexpr auto zmap(Ts&&... xs)
     static_assert(sizeof...(Keys) == sizeof...(Ts),
                   "zmap: number of keys must match number of values");
 
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         constexpr std::size_t N = sizeof...(Keys);
-- 
2.43.0


From c370be19dc2bd664407310b5ba5be598bd6bf509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:04 +0000
Subject: [PATCH 04/27] fix: MsgPack writer reports allocation failure instead
 of dropping data

The return codes of msgpack_pack_* were ignored, so when growing the buffer
failed serialize<MsgPack>() silently returned a message with values missing.
---
 include/zerialize/protocols/msgpack.hpp | 26 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 9127f04..978111e 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -10,6 +10,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <iterator>
+#include <new>
 #include <type_traits>
 
 #include <msgpack.h> // for the writer
@@ -517,30 +518,33 @@ public:
 
 class MsgPackSerializer {
     msgpack_packer& pk_;
+
+    // msgpack-c reports a failed (re)allocation of its buffer by a non-zero return.
+    static void check(int rc) { if (rc != 0) throw std::bad_alloc{}; }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
     // primitives
-    void null()                 { msgpack_pack_nil(&pk_); }
-    void boolean(bool v)        { v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_); }
-    void int64(std::int64_t v)  { msgpack_pack_int64(&pk_, v); }
-    void uint64(std::uint64_t v){ msgpack_pack_uint64(&pk_, v); }
-    void double_(double v)      { msgpack_pack_double(&pk_, v); }
+    void null()                 { check(msgpack_pack_nil(&pk_)); }
+    void boolean(bool v)        { check(v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_)); }
+    void int64(std::int64_t v)  { check(msgpack_pack_int64(&pk_, v)); }
+    void uint64(std::uint64_t v){ check(msgpack_pack_uint64(&pk_, v)); }
+    void double_(double v)      { check(msgpack_pack_double(&pk_, v)); }
     void string(std::string_view sv) {
-        msgpack_pack_str(&pk_, sv.size());
-        msgpack_pack_str_body(&pk_, sv.data(), sv.size());
+        check(msgpack_pack_str(&pk_, sv.size()));
+        check(msgpack_pack_str_body(&pk_, sv.data(), sv.size()));
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        msgpack_pack_bin(&pk_, b.size());
-        msgpack_pack_bin_body(&pk_, p, b.size());
+        check(msgpack_pack_bin(&pk_, b.size()));
+        check(msgpack_pack_bin_body(&pk_, p, b.size()));
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, n); }
+    void begin_array(std::size_t n) { check(msgpack_pack_array(&pk_, n)); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, n); }
+    void begin_map(std::size_t n)   { check(msgpack_pack_map(&pk_, n)); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From 069fd0cff2f09ce51fb5c79d25bd5cbef567b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:05 +0000
Subject: [PATCH 05/27] fix: MsgPack finish() keeps its buffer until the
 ZBuffer owns it

finish() cleared its pointer before constructing the ZBuffer, whose deleter
wrapper allocates; when that allocation failed the message was leaked.
---
 include/zerialize/protocols/msgpack.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 978111e..029d2c0 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -508,11 +508,10 @@ public:
 
     ZBuffer finish() {
         if (sbuf.size == 0) return ZBuffer();
-        // steal buffer
-        size_t n = sbuf.size;
-        char*  d = sbuf.data;
+        // steal buffer (only once the ZBuffer, whose construction can throw, owns it)
+        ZBuffer out(sbuf.data, sbuf.size, ZBuffer::Deleters::Free);
         sbuf.data = nullptr; sbuf.size = 0; sbuf.alloc = 0;
-        return ZBuffer(d, n, ZBuffer::Deleters::Free);
+        return out;
     }
 };
 
-- 
2.43.0


From 41a41fa8f9244a17223ce78d92227ecacff0ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:00 +0000
Subject: [PATCH 06/27] fix: MsgPack reader checks every length against the
 message

Strings, blobs, counts and skipped elements were taken at their word, so a
truncated or corrupted message was read past its end, and nested containers
recursed without limit (stack overflow).
---
 include/zerialize/protocols/msgpack.hpp | 168 ++++++++++++------------
 1 file changed, 84 insertions(+), 84 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 029d2c0..e3ee4c5 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -32,78 +32,62 @@ inline uint64_t mp_read_be64(const uint8_t* p) {
            (uint64_t(p[4]) << 24) | (uint64_t(p[5]) << 16) | (uint64_t(p[6]) << 8) | uint64_t(p[7]);
 }
 
-// Forward decl
-inline size_t mp_skip(std::span<const uint8_t>);
-
 // ===== minimal element skipper (for iterators / indexing) ====================
+// Returns the size in bytes of the element at the start of `v`, which is always
+// within `v`. Iterative, so that nesting depth in the data costs no stack.
 inline size_t mp_skip(std::span<const uint8_t> v) {
     if (v.empty()) throw DeserializationError("msgpack: empty in skip");
-    const uint8_t m = v[0];
-
-    // Single byte: nil/bool/fixint/neg fixint
-    if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) return 1;
-
-    // fixstr
-    if ((m & 0xe0) == 0xa0) return 1 + (m & 0x1f);
-    // fixarray
-    if ((m & 0xf0) == 0x90) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) { auto s = mp_skip(v.subspan(off)); off += s; }
-        return off;
-    }
-    // fixmap
-    if ((m & 0xf0) == 0x80) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) {
-            auto ks = mp_skip(v.subspan(off)); off += ks;
-            auto vs = mp_skip(v.subspan(off)); off += vs;
-        }
-        return off;
-    }
-
-    switch (m) {
-        // ints / floats
-        case 0xcc: case 0xd0: return 2;
-        case 0xcd: case 0xd1: return 3;
-        case 0xce: case 0xd2: case 0xca: return 5;
-        case 0xcf: case 0xd3: case 0xcb: return 9;
-
-        // str
-        case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return 2 + v[1]; }
-        case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return 5 + mp_read_be32(v.data()+1); }
-
-        // bin
-        case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return 2 + v[1]; }
-        case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return 5 + mp_read_be32(v.data()+1); }
-
-        // arrays
-        case 0xdc: {
-            if (v.size() < 3) throw DeserializationError("array16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
-        case 0xdd: {
-            if (v.size() < 5) throw DeserializationError("array32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
 
-        // maps
-        case 0xde: {
-            if (v.size() < 3) throw DeserializationError("map16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
-        }
-        case 0xdf: {
-            if (v.size() < 5) throw DeserializationError("map32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
+    size_t off = 0;
+    // Claim `n` more bytes of `v`; what names the marker for the error.
+    auto take = [&](size_t n, const char* what) {
+        if (v.size() - off < n) throw DeserializationError(what);
+        off += n;
+        return v.data() + (off - n);
+    };
+
+    // Every pending element takes at least one byte, so more of them than bytes left is an error.
+    uint64_t pending = 1;
+    while (pending > 0) {
+        --pending;
+        const uint8_t m = *take(1, "msgpack: truncated");
+
+        // Single byte: nil/bool/fixint/neg fixint
+        if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) continue;
+
+        if ((m & 0xe0) == 0xa0) { take(m & 0x1f, "fixstr"); continue; }       // fixstr
+        if ((m & 0xf0) == 0x90) { pending += (m & 0x0f); }                     // fixarray
+        else if ((m & 0xf0) == 0x80) { pending += 2u * (m & 0x0f); }           // fixmap
+        else switch (m) {
+            // ints / floats
+            case 0xcc: case 0xd0: take(1, "int8"); break;
+            case 0xcd: case 0xd1: take(2, "int16"); break;
+            case 0xce: case 0xd2: case 0xca: take(4, "int32/float32"); break;
+            case 0xcf: case 0xd3: case 0xcb: take(8, "int64/float64"); break;
+
+            // str
+            case 0xd9: take(*take(1, "str8"), "str8"); break;
+            case 0xda: take(mp_read_be16(take(2, "str16")), "str16"); break;
+            case 0xdb: take(mp_read_be32(take(4, "str32")), "str32"); break;
+
+            // bin
+            case 0xc4: take(*take(1, "bin8"), "bin8"); break;
+            case 0xc5: take(mp_read_be16(take(2, "bin16")), "bin16"); break;
+            case 0xc6: take(mp_read_be32(take(4, "bin32")), "bin32"); break;
+
+            // arrays
+            case 0xdc: pending += mp_read_be16(take(2, "array16")); break;
+            case 0xdd: pending += mp_read_be32(take(4, "array32")); break;
+
+            // maps
+            case 0xde: pending += 2u * uint64_t(mp_read_be16(take(2, "map16"))); break;
+            case 0xdf: pending += 2u * uint64_t(mp_read_be32(take(4, "map32"))); break;
+
+            default: throw DeserializationError("msgpack: unsupported marker");
         }
-        default: break;
+        if (pending > v.size() - off) throw DeserializationError("msgpack: truncated");
     }
-    throw DeserializationError("msgpack: unsupported marker");
+    return off;
 }
 
 // ===== Deserializer ==========================================================
@@ -113,35 +97,50 @@ class MsgPackDeserializer {
     // view over current element
     std::span<const uint8_t> view_{};
 
-    // helpers: decode headers
+    // helpers: decode headers; what they describe is always within `v`
+    static void need(std::span<const uint8_t> v, size_t n) {
+        if (v.size() < n) throw DeserializationError("msgpack: truncated");
+    }
     static void str_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); p = v.data()+1; return; }
-        if (m == 0xd9) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xda) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xdb) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
-        throw DeserializationError("msgpack: not a string");
+        size_t off = 0;
+        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); off = 1; }
+        else if (m == 0xd9) { need(v, 2); len = v[1]; off = 2; }
+        else if (m == 0xda) { need(v, 3); len = mp_read_be16(v.data()+1); off = 3; }
+        else if (m == 0xdb) { need(v, 5); len = mp_read_be32(v.data()+1); off = 5; }
+        else throw DeserializationError("msgpack: not a string");
+        need(v, off + len);
+        p = v.data() + off;
     }
     static void bin_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if (m == 0xc4) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xc5) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xc6) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
-        throw DeserializationError("msgpack: not a bin");
+        size_t off = 0;
+        if (m == 0xc4) { need(v, 2); len = v[1]; off = 2; }
+        else if (m == 0xc5) { need(v, 3); len = mp_read_be16(v.data()+1); off = 3; }
+        else if (m == 0xc6) { need(v, 5); len = mp_read_be32(v.data()+1); off = 5; }
+        else throw DeserializationError("msgpack: not a bin");
+        need(v, off + len);
+        p = v.data() + off;
     }
     static void arr_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xdc) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdd) { count = mp_read_be32(v.data()+1); off = 5; return; }
-        throw DeserializationError("msgpack: not an array");
+        if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; }
+        else if (m == 0xdc) { need(v, 3); count = mp_read_be16(v.data()+1); off = 3; }
+        else if (m == 0xdd) { need(v, 5); count = mp_read_be32(v.data()+1); off = 5; }
+        else throw DeserializationError("msgpack: not an array");
+        need(v, off + count); // an element takes at least one byte
     }
     static void map_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xde) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdf) { count = mp_read_be32(v.data()+1); off = 5; return; }
-        throw DeserializationError("msgpack: not a map");
+        if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; }
+        else if (m == 0xde) { need(v, 3); count = mp_read_be16(v.data()+1); off = 3; }
+        else if (m == 0xdf) { need(v, 5); count = mp_read_be32(v.data()+1); off = 5; }
+        else throw DeserializationError("msgpack: not a map");
+        need(v, off + 2 * count); // a key and a value take at least one byte each
     }
 
     // pretty printer
@@ -173,6 +172,7 @@ class MsgPackDeserializer {
     }
     static void dump(std::ostringstream& os, const MsgPackDeserializer& v, int pad) {
         auto ind = [&](int n){ for(int i=0;i<n;++i) os.put(' '); };
+        if (pad > 2000) throw DeserializationError("msgpack: nesting too deep to print");
         if (v.isNull()) { os << "null: null"; return; }
         if (v.isBool()) { os << "bool: " << (v.asBool()?"true":"false"); return; }
         if (v.isInt())  { os << "int: "  << v.asInt64(); return; }
-- 
2.43.0


From 9f12059b854491a2f0e09ca768dc6381443d7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:11 +0000
Subject: [PATCH 07/27] fix: integer accessors throw instead of returning a
 different number

Flex asInt8..32/asUInt8..32 truncated silently, and MsgPack asInt64/asUInt64
wrapped values that do not fit, unlike the Zera and CBOR readers.
---
 include/zerialize/protocols/flex.hpp    | 19 +++++++++++++------
 include/zerialize/protocols/msgpack.hpp | 12 ++++++++++--
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 7a4a8ab..148f7f2 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <span>
 #include <stdexcept>
+#include <utility>
 #include <iostream>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -118,6 +119,12 @@ protected:
         if (!cond) throw DeserializationError(msg);
     }
 
+    template<class To, class From>
+    To narrow(From v) const {
+        require(std::in_range<To>(v), "integer out of range");
+        return static_cast<To>(v);
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -222,14 +229,14 @@ public:
     bool isArray()  const { return ref_.IsAnyVector() && !ref_.IsMap(); }
 
     // Scalars
-    int8_t   asInt8()   const { require(isInt(), "value is not a signed integer"); return ref_.AsInt8(); }
-    int16_t  asInt16()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt16(); }
-    int32_t  asInt32()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt32(); }
+    int8_t   asInt8()   const { return narrow<int8_t>(asInt64()); }
+    int16_t  asInt16()  const { return narrow<int16_t>(asInt64()); }
+    int32_t  asInt32()  const { return narrow<int32_t>(asInt64()); }
     int64_t  asInt64()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt64(); }
 
-    uint8_t  asUInt8()  const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint8_t>(ref_.AsUInt8()); }
-    uint16_t asUInt16() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint16_t>(ref_.AsUInt16()); }
-    uint32_t asUInt32() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint32_t>(ref_.AsUInt32()); }
+    uint8_t  asUInt8()  const { return narrow<uint8_t>(asUInt64()); }
+    uint16_t asUInt16() const { return narrow<uint16_t>(asUInt64()); }
+    uint32_t asUInt32() const { return narrow<uint32_t>(asUInt64()); }
     uint64_t asUInt64() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint64_t>(ref_.AsUInt64()); }
 
     float    asFloat()  const { require(isFloat(), "value is not a float"); return static_cast<float>(ref_.AsFloat()); }
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index e3ee4c5..358f9dc 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -10,6 +10,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <iterator>
+#include <limits>
 #include <new>
 #include <type_traits>
 
@@ -303,7 +304,12 @@ public:
         if (m==0xcc){ if(view_.size()<2) throw DeserializationError("u8");  return uint8_t(view_[1]); }
         if (m==0xcd){ if(view_.size()<3) throw DeserializationError("u16"); return uint16_t(mp_read_be16(view_.data()+1)); }
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return uint32_t(mp_read_be32(view_.data()+1)); }
-        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return uint64_t(mp_read_be64(view_.data()+1)); }
+        if (m==0xcf){
+            if(view_.size()<9) throw DeserializationError("u64");
+            const uint64_t u = mp_read_be64(view_.data()+1);
+            if (u > uint64_t(std::numeric_limits<std::int64_t>::max())) throw DeserializationError("int64 out of range");
+            return int64_t(u);
+        }
         throw DeserializationError("not int");
     }
     
@@ -340,7 +346,9 @@ public:
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return mp_read_be32(view_.data()+1); }
         if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return mp_read_be64(view_.data()+1); }
         // fall back for signed fix/neg
-        return uint64_t(asInt64());
+        const int64_t val = asInt64();
+        if (val < 0) throw DeserializationError("uint64 out of range");
+        return uint64_t(val);
     }
     
     float asFloat() const {
-- 
2.43.0


From f2e1c6e759827a187d69c1723a1d5c3a38cffd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:48 +0000
Subject: [PATCH 08/27] fix: Flex writer no longer reads past the end of
 strings and keys

FlexBuffers takes the byte after a string or key as its NUL terminator, but a
string_view need not have one: the writer read out of bounds (translating from
the end of a buffer, or an empty view) and a key that is part of a longer string
was written with the text that follows it. Keys containing a NUL, which the
format cannot express, were silently cut short and now throw.
---
 include/zerialize/protocols/flex.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 148f7f2..ab59521 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -56,7 +56,9 @@ struct Serializer {
     void uint64(std::uint64_t v) { r->fbb.UInt(v); r->wrote_root_ = true; }
     void double_(double v)       { r->fbb.Double(v); r->wrote_root_ = true; }
     void string(std::string_view sv) {
-        r->fbb.String(sv.data(), sv.size()); r->wrote_root_ = true;
+        // FlexBuffers reads the byte after the last one as the terminator, which a view need not have
+        const std::string s(sv);
+        r->fbb.String(s.data(), s.size()); r->wrote_root_ = true;
     }
     void binary(std::span<const std::byte> b) {
         auto ptr = reinterpret_cast<const std::uint8_t*>(b.data());
@@ -90,8 +92,13 @@ struct Serializer {
     }
 
     void key(std::string_view k) {
-        // FlexBuffers requires a key immediately before its value
-        r->fbb.Key(k.data(), k.size());
+        // FlexBuffers keys are NUL-terminated: one with a NUL inside would be cut short
+        if (k.find('\0') != std::string_view::npos)
+            throw SerializationError("flex: key contains a NUL character");
+        // FlexBuffers requires a key immediately before its value, and reads the byte
+        // after its last one as the terminator, which a view need not have
+        const std::string s(k);
+        r->fbb.Key(s.data(), s.size());
     }
 
 private:
-- 
2.43.0


From a8e901459a76d464e214ef9d483d8b67290dff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:28 +0000
Subject: [PATCH 09/27] fix: Zera mapKeys() checks entries before reading and
 does not dangle

The key iterator read an entry's key length before checking that the entry lies
in the envelope, so a corrupted entry count read past the end of the buffer. It
also pointed at the view it came from: for (auto k : d["x"].mapKeys()) used a
destroyed temporary.
---
 include/zerialize/protocols/zera.hpp | 35 +++++++++++++++-------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b474e42..bd848a5 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -347,14 +347,15 @@ public:
     }
 
     // mapKeys() must be a forward range of string_view, zero-alloc.
+    // It carries the envelope's bounds itself, so it does not depend on the view it came from.
     struct KeysView {
-        const ZeraViewBase* self = nullptr;
-        const std::uint8_t* p = nullptr;
+        const std::uint8_t* p = nullptr;       // first entry
+        const std::uint8_t* env_end = nullptr; // end of the envelope
         std::uint32_t count = 0;
 
         struct iterator {
-            const ZeraViewBase* self = nullptr;
             const std::uint8_t* cur = nullptr;
+            const std::uint8_t* env_end = nullptr;
             std::uint32_t i = 0;
             std::uint32_t n = 0;
             using iterator_category = std::forward_iterator_tag;
@@ -363,31 +364,33 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
+            // Key length of the current entry, which is checked to lie within the envelope.
+            std::size_t entry_key_len() const {
+                const std::size_t left = static_cast<std::size_t>(env_end - cur);
+                require(left >= 4 + 16, "zera: object entry out of bounds");
+                const std::size_t key_len = read_u16_le(cur);
+                require(left >= 4 + key_len + 16, "zera: object entry out of bounds");
+                return key_len;
+            }
+
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
-                const auto key_len = read_u16_le(cur);
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4 + key_len + 16);
+                const std::size_t key_len = entry_key_len();
                 return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
             }
 
             iterator& operator++() {
                 if (i >= n) return *this;
-                const auto key_len = read_u16_le(cur);
-                const std::size_t adv = 4 + std::size_t(key_len) + 16;
-                const auto cur_ofs = std::uint32_t(cur - self->env_);
-                cur = self->env_ptr_at(cur_ofs + std::uint32_t(adv), 0);
+                cur += 4 + entry_key_len() + 16;
                 ++i;
                 return *this;
             }
             iterator operator++(int) { iterator tmp = *this; ++(*this); return tmp; }
-            friend bool operator==(const iterator& a, const iterator& b) { return a.self==b.self && a.i==b.i && a.n==b.n; }
+            friend bool operator==(const iterator& a, const iterator& b) { return a.env_end==b.env_end && a.i==b.i && a.n==b.n; }
         };
 
-        iterator begin() const { return iterator{self, p, 0, count}; }
-        iterator end() const {
-            auto it = iterator{self, p, count, count};
-            return it;
-        }
+        iterator begin() const { return iterator{p, env_end, 0, count}; }
+        iterator end() const { return iterator{p, env_end, count, count}; }
     };
 
     KeysView mapKeys() const {
@@ -397,7 +400,7 @@ public:
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
         const auto* entries = env_ptr_at(obj_ofs + 4, 0);
-        return KeysView{this, entries, count};
+        return KeysView{entries, env_ + env_size_, count};
     }
 
     bool contains(std::string_view key) const {
-- 
2.43.0


From 2c8e140120a0a50df674cc08a75f6580708852e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:28 +0000
Subject: [PATCH 10/27] fix: Zera rejects an envelope too small for the root
 value on open

env_size - 16 wrapped around for envelopes below 16 bytes.
---
 include/zerialize/protocols/zera.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index bd848a5..5c59647 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -511,7 +511,7 @@ class ZeraDeserializer final : public ZeraViewBase {
         arena_ = buf_ + h.arena_ofs;
         arena_len_ = buf.size() - h.arena_ofs;
 
-        require(h.root_ofs <= env_size_ - 16, "zera: root ValueRef out of bounds");
+        require(env_size_ >= 16 && h.root_ofs <= env_size_ - 16, "zera: root ValueRef out of bounds");
         vr_ = env_ + h.root_ofs;
     }
 
-- 
2.43.0


From adf64ebe4ebec7d10678cae58092995a074ed551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:38 +0000
Subject: [PATCH 11/27] fix: translate rejects messages nested too deep instead
 of overflowing the stack

write_value recursed as deep as the source was nested; a corrupted Zera message
can contain itself, which recursed until the process died.
---
 include/zerialize/translate.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/translate.hpp b/include/zerialize/translate.hpp
index 05f688c..66e8a91 100644
--- a/include/zerialize/translate.hpp
+++ b/include/zerialize/translate.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <cstddef>
 #include <zerialize/concepts.hpp>
+#include <zerialize/errors.hpp>
 
 namespace zerialize {
 
@@ -29,8 +31,14 @@ namespace zerialize {
  */
 
 // ==== Generic bridge: Reader -> Writer ===============================
+
+// Deepest container nesting write_value follows. A corrupted or malicious message can be
+// nested arbitrarily deep, or even contain itself; past this it is rejected.
+inline constexpr std::size_t MaxTranslateDepth = 1000;
+
 template<class V, class W>
-inline void write_value(const V& v, W& w) {
+inline void write_value(const V& v, W& w, std::size_t depth = 0) {
+    if (depth > MaxTranslateDepth) throw DeserializationError("write_value: nesting too deep");
     if (v.isNull())      { w.null(); return; }
     if (v.isBool())      { w.boolean(v.asBool()); return; }
     if (v.isInt())       { w.int64(v.asInt64()); return; }
@@ -53,7 +61,7 @@ inline void write_value(const V& v, W& w) {
         w.begin_map(count);
         for (std::string_view k : v.mapKeys()) {
             w.key(std::string(k));
-            write_value(v[k], w);
+            write_value(v[k], w, depth + 1);
         }
         w.end_map();
         return;
@@ -62,7 +70,7 @@ inline void write_value(const V& v, W& w) {
     if (v.isArray()) {
         const std::size_t n = v.arraySize();
         w.begin_array(n);
-        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w);
+        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w, depth + 1);
         w.end_array();
         return;
     }
-- 
2.43.0


From 856621eb06c46f471410ee5eb7004a70383cd4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:21 +0000
Subject: [PATCH 12/27] fix: tensor readers reject shapes whose byte size
 overflows

element_count * sizeof(T) could wrap, so a shape like [2^31, 2^30] of doubles
was accepted for an empty blob and gave a view over memory that does not exist.
---
 include/zerialize/tensor/eigen.hpp   | 5 +++++
 include/zerialize/tensor/xtensor.hpp | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 9145157..fa01002 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -3,6 +3,7 @@
 #include <array>
 #include <cstring>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <span>
 #include <type_traits>
@@ -154,6 +155,10 @@ EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& b
     };
     auto bytes = to_span(blob);
 
+    // rows and cols are 32-bit dimensions, so only the multiplication by sizeof(T) can overflow.
+    if (rows * cols > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw DeserializationError("asEigenMatrixView matrix byte size overflow");
+    }
     const std::size_t expected = rows * cols * sizeof(T);
     if (bytes.size() != expected) {
         throw DeserializationError(
diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 0a82e38..11b2361 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -147,6 +147,9 @@ XTensorView<T> asXTensorView(const Reader auto& buf) {
 
     // Validate payload size to avoid reading off the end, truncating, or leaving elements uninitialized.
     const std::size_t element_count = checked_element_count(vshape);
+    if (element_count > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw DeserializationError("tensor byte size overflow");
+    }
     const std::size_t expected_bytes = element_count * sizeof(T);
     if (bytes.size() != expected_bytes) {
         throw DeserializationError(
-- 
2.43.0


From a37a2b7c9262907c4154a70aee59e51d55a7e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:45 +0000
Subject: [PATCH 13/27] fix: column-major xtensors and xtensor views are
 written with their own elements

serialize() wrote size() elements from data() on, which for a column-major
container are in the wrong order and for a view are other elements of the
underlying container.
---
 include/zerialize/tensor/xtensor.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 11b2361..80eda5b 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -21,6 +21,13 @@ namespace xt {
 
 template <zerialize::HasDataAndSize X, zerialize::Writer W>
 void serialize(const X& t, W& w) {
+    // Elements are written in row-major order, without gaps. Where they do not already lie
+    // like that at t.data() (column-major containers, views), write a row-major copy.
+    if (t.layout() != xt::layout_type::row_major || t.data_offset() != 0) {
+        const xt::xarray<typename X::value_type, xt::layout_type::row_major> rm(t);
+        serialize(rm, w);
+        return;
+    }
     zerialize::zvec(
         zerialize::tensor_dtype_index<typename X::value_type>,
         zerialize::shape_of_sizet(t.shape()),
-- 
2.43.0


From 948c31fcf984867dc111ae98afbf70625ca04436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:46 +0000
Subject: [PATCH 14/27] fix: copies of owning readers own their own bytes

Copying a Zera, MsgPack or Flex reader that owns its bytes left the copy
pointing into the original's storage, and d = d["x"] on an owning MsgPack
reader freed the bytes the result points into.
---
 include/zerialize/protocols/flex.hpp    |  9 +++++++++
 include/zerialize/protocols/msgpack.hpp | 21 +++++++++++++++++++++
 include/zerialize/protocols/zera.hpp    | 16 ++++++++++++++++
 3 files changed, 46 insertions(+)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index ab59521..6d83a71 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -403,6 +403,15 @@ public:
     explicit FlexDeserializer(const std::byte* data, std::size_t n)
       : FlexDeserializer(reinterpret_cast<const uint8_t*>(data), n) {}
 
+    // -------- copy / move: a copy that owns its bytes refers to its own copy of them --------
+    FlexDeserializer(const FlexDeserializer& o)
+      : FlexViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) ref_ = ::flexbuffers::GetRoot(owned_);
+      }
+    FlexDeserializer& operator=(const FlexDeserializer& o) { return *this = FlexDeserializer(o); }
+    FlexDeserializer(FlexDeserializer&&) noexcept = default;
+    FlexDeserializer& operator=(FlexDeserializer&&) noexcept = default;
+
     // -------- view ctor from Reference (nested access) --------
     explicit FlexDeserializer(::flexbuffers::Reference r) : FlexViewBase(r) {}
 
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 358f9dc..2f39627 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -9,6 +9,7 @@
 #include <span>
 #include <stdexcept>
 #include <sstream>
+#include <functional>
 #include <iterator>
 #include <limits>
 #include <new>
@@ -218,6 +219,26 @@ public:
     // ---- ctors ----
     MsgPackDeserializer() = default;
 
+    // A copy that owns its bytes refers to its own copy of them.
+    MsgPackDeserializer(const MsgPackDeserializer& o)
+      : owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty())
+            view_ = std::span<const uint8_t>(owned_.data() + (o.view_.data() - o.owned_.data()), o.view_.size());
+    }
+    MsgPackDeserializer(MsgPackDeserializer&&) noexcept = default;
+    MsgPackDeserializer& operator=(const MsgPackDeserializer& o) {
+        return *this = MsgPackDeserializer(o);
+    }
+    MsgPackDeserializer& operator=(MsgPackDeserializer&& o) noexcept {
+        // Assigning an element of this very reader (d = d["x"]) keeps the bytes it lives in.
+        const bool own_element = o.owned_.empty() && !owned_.empty() &&
+            std::less_equal<const uint8_t*>{}(owned_.data(), o.view_.data()) &&
+            std::less_equal<const uint8_t*>{}(o.view_.data(), owned_.data() + owned_.size());
+        if (!own_element) owned_ = std::move(o.owned_);
+        view_ = o.view_;
+        return *this;
+    }
+
     // Non-owning view constructor (zero-copy): caller must keep `bytes` alive.
     explicit MsgPackDeserializer(std::span<const uint8_t> bytes)
       : view_(bytes) {}
diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 5c59647..7e5b856 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -518,6 +518,22 @@ class ZeraDeserializer final : public ZeraViewBase {
 public:
     ZeraDeserializer() = default;
 
+    // A copy that owns its bytes refers to its own copy of them.
+    ZeraDeserializer(const ZeraDeserializer& o)
+        : ZeraViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (owned_.empty()) return;
+        view_  = std::span<const std::uint8_t>(owned_.data(), owned_.size());
+        buf_   = owned_.data();
+        env_   = buf_ + (o.env_ - o.buf_);
+        arena_ = buf_ + (o.arena_ - o.buf_);
+        vr_    = buf_ + (o.vr_ - o.buf_);
+    }
+    ZeraDeserializer& operator=(const ZeraDeserializer& o) {
+        return *this = ZeraDeserializer(o);
+    }
+    ZeraDeserializer(ZeraDeserializer&&) noexcept = default;
+    ZeraDeserializer& operator=(ZeraDeserializer&&) noexcept = default;
+
     explicit ZeraDeserializer(const std::vector<std::uint8_t>& buf) : owned_(buf) {
         view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
         init_from(view_);
-- 
2.43.0


From 1debdf5c8a76ac30d2776da5542899d69cc9afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:19 +0000
Subject: [PATCH 15/27] fix: CBOR reader checks every length against the
 message

Lengths near 2^64 wrapped past the checks, the key iterator, asDouble(),
contains() and to_string() did not check at all, iterating the keys of an
indefinite-length map ran past its end, simple(24) values were skipped one byte
too far, and nesting recursed without limit. to_string() also used the outermost
array's size for every nested one and mishandled empty maps.
---
 include/zerialize/protocols/cbor.hpp | 176 +++++++++++++--------------
 1 file changed, 83 insertions(+), 93 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index afd4a87..bcb9489 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -94,7 +94,14 @@ class CborDeserializer {
         bool indefinite;
     };
 
-    Head read_head(std::size_t p) const {
+    // Everything below `buf.size() - p` (never `p + n`, which a corrupted length could wrap).
+    static void need(std::span<const uint8_t> buf, std::size_t p, uint64_t n, const char* msg) {
+        ensure(p <= buf.size() && n <= buf.size() - p, msg);
+    }
+
+    Head read_head(std::size_t p) const { return read_head(buf_, p); }
+
+    static Head read_head(std::span<const uint8_t> buf_, std::size_t p) {
         ensure(p < buf_.size(), "CBOR: truncated");
         uint8_t b = buf_[p];
         Head h{}; h.major = b >> 5; h.addl = b & 0x1F; h.indefinite = false; h.hlen = 1; h.val = 0;
@@ -108,6 +115,8 @@ class CborDeserializer {
                 h.hlen = 2; h.val = 0;
             } else if (h.addl == 31) {
                 h.indefinite = true;
+            } else if (h.addl > 27) {
+                throw DeserializationError("CBOR: reserved additional info");
             } else {
                 // null/true/false/simple (no body)
                 h.val = 0;
@@ -119,13 +128,20 @@ class CborDeserializer {
         else if (h.addl == 25) { ensure(p+3 <= buf_.size(), "CBOR: truncated u16"); h.val = get_be(&buf_[p+1],2); h.hlen = 3; }
         else if (h.addl == 26) { ensure(p+5 <= buf_.size(), "CBOR: truncated u32"); h.val = get_be(&buf_[p+1],4); h.hlen = 5; }
         else if (h.addl == 27) { ensure(p+9 <= buf_.size(), "CBOR: truncated u64"); h.val = get_be(&buf_[p+1],8); h.hlen = 9; }
-        else if (h.addl == 31) { h.indefinite = true; }
+        else if (h.addl == 31 && h.major >= 2 && h.major <= 5) { h.indefinite = true; }
         else { throw DeserializationError("CBOR: reserved additional info"); }
         return h;
     }
 
-    std::size_t skip(std::size_t p) const {
-        auto h = read_head(p);
+    // Deepest nesting that skip() and to_string() follow: they recurse.
+    static constexpr std::size_t MaxDepth = 1000;
+
+    std::size_t skip(std::size_t p) const { return skip(buf_, p, 0); }
+
+    // Position after the item at `p`; always within `buf`.
+    static std::size_t skip(std::span<const uint8_t> buf, std::size_t p, std::size_t depth) {
+        ensure(depth <= MaxDepth, "CBOR: nesting too deep");
+        auto h = read_head(buf, p);
         std::size_t q = p + h.hlen;
         switch (h.major) {
             case 0: // uint
@@ -134,52 +150,51 @@ class CborDeserializer {
             case 2: // bstr
             case 3: // tstr
                 if (!h.indefinite) {
-                    ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
+                    need(buf, q, h.val, "CBOR: truncated string");
                     return q + static_cast<std::size_t>(h.val);
                 } else {
                     // chunks terminated by 0xFF
                     for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef str");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        auto ch = read_head(q);
+                        ensure(q < buf.size(), "CBOR: truncated indef str");
+                        if (buf[q] == 0xFF) return q + 1;
+                        auto ch = read_head(buf, q);
                         ensure(ch.major == h.major, "CBOR: wrong chunk type");
                         ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
-                        q += ch.hlen + static_cast<std::size_t>(ch.val);
+                        q += ch.hlen;
+                        need(buf, q, ch.val, "CBOR: truncated chunk");
+                        q += static_cast<std::size_t>(ch.val);
                     }
                 }
             case 4: // array
                 if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) q = skip(q);
+                    for (uint64_t i = 0; i < h.val; ++i) q = skip(buf, q, depth + 1);
                     return q;
                 } else {
                     for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef array");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q);
+                        ensure(q < buf.size(), "CBOR: truncated indef array");
+                        if (buf[q] == 0xFF) return q + 1;
+                        q = skip(buf, q, depth + 1);
                     }
                 }
             case 5: // map
                 if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) { q = skip(q); q = skip(q); }
+                    for (uint64_t i = 0; i < h.val; ++i) { q = skip(buf, q, depth + 1); q = skip(buf, q, depth + 1); }
                     return q;
                 } else {
                     for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef map");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q); // key
-                        q = skip(q); // value
+                        ensure(q < buf.size(), "CBOR: truncated indef map");
+                        if (buf[q] == 0xFF) return q + 1;
+                        q = skip(buf, q, depth + 1); // key
+                        q = skip(buf, q, depth + 1); // value
                     }
                 }
             case 6: // tag
                 // skip tag then the tagged value
-                return skip(q);
+                return skip(buf, q, depth + 1);
             case 7: // floats/simple
-                if (h.addl == 25) { ensure(q+2 <= buf_.size(), "CBOR: truncated f16"); return q+2; }
-                if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
-                if (h.addl == 27) { ensure(q+8 <= buf_.size(), "CBOR: truncated f64"); return q+8; }
-                if (h.addl == 24) { ensure(q+1 <= buf_.size(), "CBOR: truncated simple(24)"); return q+1; }
-                // simple/bool/null (no body): header only
-                return q;
+                ensure(!h.indefinite, "CBOR: unexpected break");
+                need(buf, q, h.val, "CBOR: truncated float"); // simple/bool/null: no body
+                return q + static_cast<std::size_t>(h.val);
             default:
                 throw DeserializationError("CBOR: unknown major");
         }
@@ -260,6 +275,7 @@ public:
     double   asDouble() const {
         auto h = head(); ensure(isFloat(), "CBOR: not a float");
         std::size_t q = pos_ + h.hlen;
+        need(buf_, q, h.val, "CBOR: truncated float");
         if (h.addl == 25) { uint16_t v = (uint16_t)((buf_[q] << 8) | buf_[q+1]); return decode_f16(v); }
         if (h.addl == 26) { uint32_t v = (uint32_t)get_be(&buf_[q],4); float f; std::memcpy(&f,&v,4); return static_cast<double>(f); }
         uint64_t v = get_be(&buf_[q],8); double d; std::memcpy(&d,&v,8); return d;
@@ -270,16 +286,16 @@ public:
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         std::size_t q = pos_ + h.hlen;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
-            return std::string(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+            need(buf_, q, h.val, "CBOR: truncated string");
+            return std::string(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
         } else {
             std::string out;
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: truncated indef tstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==3 && !ch.indefinite, "CBOR: bad tstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc");
-                out.append(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(ch.val));
+                q += ch.hlen; need(buf_, q, ch.val, "CBOR: trunc");
+                out.append(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(ch.val));
                 q += ch.val;
             }
             return out;
@@ -288,15 +304,15 @@ public:
     std::string_view asStringView() const {
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         ensure(!h.indefinite, "CBOR: string is indefinite; use asString()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc tstr");
-        return std::string_view(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+        std::size_t q = pos_ + h.hlen; need(buf_, q, h.val, "CBOR: trunc tstr");
+        return std::string_view(reinterpret_cast<const char*>(buf_.data() + q), static_cast<std::size_t>(h.val));
     }
 
     std::span<const std::byte> asBlob() const {
         auto h = head(); ensure(h.major==2, "CBOR: not a byte string");
         ensure(!h.indefinite, "CBOR: chunked byte string; fetch via asBlobVec()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-        auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+        std::size_t q = pos_ + h.hlen; need(buf_, q, h.val, "CBOR: trunc bstr");
+        auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
         return { p, static_cast<std::size_t>(h.val) };
     }
     std::vector<std::byte> asBlobVec() const {
@@ -304,16 +320,16 @@ public:
         std::size_t q = pos_ + h.hlen;
         std::vector<std::byte> out;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-            auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+            need(buf_, q, h.val, "CBOR: trunc bstr");
+            auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
             out.insert(out.end(), p, p + h.val);
         } else {
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: trunc indef bstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==2 && !ch.indefinite, "CBOR: bad bstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc chunk");
-                auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+                q += ch.hlen; need(buf_, q, ch.val, "CBOR: trunc chunk");
+                auto* p = reinterpret_cast<const std::byte*>(buf_.data() + q);
                 out.insert(out.end(), p, p + ch.val);
                 q += ch.val;
             }
@@ -331,7 +347,8 @@ public:
                 auto kh = read_head(q);
                 std::string_view ksv;
                 if (kh.major==3 && !kh.indefinite) {
-                    ksv = std::string_view(reinterpret_cast<const char*>(&buf_[q+kh.hlen]), static_cast<std::size_t>(kh.val));
+                    need(buf_, q + kh.hlen, kh.val, "CBOR: truncated key");
+                    ksv = std::string_view(reinterpret_cast<const char*>(buf_.data() + q + kh.hlen), static_cast<std::size_t>(kh.val));
                 } else {
                     // fallback: decode key to string
                     CborDeserializer keyv(buf_, q);
@@ -374,50 +391,13 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
-            struct H { uint8_t major, addl; uint64_t val; std::size_t hlen; bool indefinite; };
-            static H read_head(std::span<const uint8_t> b, std::size_t p) {
-                uint8_t bb = b[p];
-                H h{}; h.major = bb>>5; h.addl=bb&0x1F; h.hlen=1; h.val=0; h.indefinite=false;
-                if (h.major==7) {
-                    if (h.addl==25) { h.val=2; }
-                    else if (h.addl==26) { h.val=4; }
-                    else if (h.addl==27) { h.val=8; }
-                    else if (h.addl==24) { h.hlen=2; }
-                    else if (h.addl==31) { h.indefinite=true; }
-                    return h;
-                }
-                if (h.addl<24) { h.val=h.addl; }
-                else if (h.addl==24) { h.val=b[p+1]; h.hlen=2; }
-                else if (h.addl==25) { h.val=(uint64_t)b[p+1]<<8 | b[p+2]; h.hlen=3; }
-                else if (h.addl==26) { h.val=((uint64_t)b[p+1]<<24)|((uint64_t)b[p+2]<<16)|((uint64_t)b[p+3]<<8)|b[p+4]; h.hlen=5; }
-                else if (h.addl==27) { h.val=((uint64_t)b[p+1]<<56)|((uint64_t)b[p+2]<<48)|((uint64_t)b[p+3]<<40)|((uint64_t)b[p+4]<<32)|((uint64_t)b[p+5]<<24)|((uint64_t)b[p+6]<<16)|((uint64_t)b[p+7]<<8)|b[p+8]; h.hlen=9; }
-                else if (h.addl==31) { h.indefinite=true; }
-                return h;
-            }
-            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) {
-                auto h = read_head(b,p); std::size_t q=p+h.hlen;
-                switch (h.major) {
-                    case 0: case 1: return q;
-                    case 2: case 3:
-                        if (!h.indefinite) return q + (std::size_t)h.val;
-                        for (;;) { if (b[q]==0xFF) return q+1; auto ch=read_head(b,q); q += ch.hlen + (std::size_t)ch.val; }
-                    case 4:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i) q=skip(b,q); return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q);}        
-                    case 5:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i){ q=skip(b,q); q=skip(b,q);} return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q); q=skip(b,q);} 
-                    case 6: return skip(b,q);
-                    case 7:
-                        if (h.addl==25) return q+2; if (h.addl==26) return q+4; if (h.addl==27) return q+8; return q;
-                }
-                return q;
-            }
+            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) { return CborDeserializer::skip(b, p, 0); }
 
             reference operator*() const {
-                auto kh = read_head(buf, q);
+                auto kh = CborDeserializer::read_head(buf, q);
                 if (kh.major==3 && !kh.indefinite) {
-                    return std::string_view(reinterpret_cast<const char*>(&buf[q+kh.hlen]), (std::size_t)kh.val);
+                    need(buf, q + kh.hlen, kh.val, "CBOR: truncated key");
+                    return std::string_view(reinterpret_cast<const char*>(buf.data() + q + kh.hlen), (std::size_t)kh.val);
                 }
                 // fallback: materialize
                 CborDeserializer v(std::span<const uint8_t>(buf.data(), buf.size()), q);
@@ -426,6 +406,7 @@ public:
             }
             iterator& operator++() {
                 if (indefinite) {
+                    ensure(q < buf.size(), "CBOR: trunc indef map");
                     if (buf[q]==0xFF) return *this; // already at end
                     q = skip(buf,q); // key
                     q = skip(buf,q); // value
@@ -442,15 +423,15 @@ public:
         };
 
         iterator begin() const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); std::size_t q = start + h.hlen; it.q = q; it.indefinite = h.indefinite; it.remaining = h.indefinite ? 0 : (uint64_t)h.val; return it;
+            iterator it; it.buf = buf; auto h = CborDeserializer::read_head(buf, start); std::size_t q = start + h.hlen; it.q = q; it.indefinite = h.indefinite; it.remaining = h.indefinite ? 0 : (uint64_t)h.val; return it;
         }
         iterator end()   const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); if (!h.indefinite) {
+            iterator it; it.buf = buf; auto h = CborDeserializer::read_head(buf, start); if (!h.indefinite) {
                 // compute end pos
                 std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
             } else {
                 // find break
-                std::size_t q = start + h.hlen; for(;;){ if (buf[q]==0xFF){ it.q=q+1; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
+                std::size_t q = start + h.hlen; for(;;){ ensure(q < buf.size(), "CBOR: trunc indef map"); if (buf[q]==0xFF){ it.q=q; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
             }
         }
     };
@@ -477,8 +458,12 @@ public:
     // ---- array interface ----
     std::size_t arraySize() const {
         auto h = head(); ensure(h.major==4, "CBOR: not an array");
-        if (!h.indefinite) return static_cast<std::size_t>(h.val);
-        std::size_t q = pos_ + h.hlen; std::size_t c=0; for(;;){ ensure(q<buf_.size(), "CBOR: trunc indef arr"); if(buf_[q]==0xFF) break; q = skip(q); ++c; } return c;
+        std::size_t q = pos_ + h.hlen; std::size_t c=0;
+        if (!h.indefinite) {
+            need(buf_, q, h.val, "CBOR: truncated array"); // an element takes at least one byte
+            return static_cast<std::size_t>(h.val);
+        }
+        for(;;){ ensure(q<buf_.size(), "CBOR: trunc indef arr"); if(buf_[q]==0xFF) break; q = skip(q); ++c; } return c;
     }
     CborDeserializer operator[](std::size_t idx) const {
         auto h = head(); ensure(h.major==4, "CBOR: not an array");
@@ -508,24 +493,29 @@ private:
         }
     }
     void dump_rec(std::ostringstream& os, std::size_t p, int pad) const {
-        auto h = read_head(p); auto t = type_code(p); std::size_t q = p + h.hlen;
+        ensure(static_cast<std::size_t>(pad) <= 2 * MaxDepth, "CBOR: nesting too deep to print");
+        auto h = read_head(p); auto t = type_code(p);
         if (h.major==0) { os << t << '|' << h.val; }
         else if (h.major==1) { long long x = -1 - (long long)h.val; os << t << '|' << x; }
         else if (h.major==7 && (h.addl==25||h.addl==26||h.addl==27)) { os << t << '|' << CborDeserializer(buf_, p).asDouble(); }
         else if (h.major==7 && (h.addl==20||h.addl==21)) { os << t << "| " << (h.addl==21?"true":"false"); }
         else if (h.major==7 && h.addl==22) { os << t << "|null"; }
         else if (h.major==3) {
-            if (!h.indefinite) { os << t << "|\"" << std::string(reinterpret_cast<const char*>(&buf_[q]), (std::size_t)h.val) << '"'; }
-            else { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
+            os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"';
         } else if (h.major==2) {
-            std::size_t total = 0; if (!h.indefinite) total = (std::size_t)h.val; else { for(;;){ if(buf_[q]==0xFF) break; auto ch = read_head(q); total += (std::size_t)ch.val; q += ch.hlen + (std::size_t)ch.val; } }
-            os << t << "[size=" << total << "]";
+            os << t << "[size=" << CborDeserializer(buf_, p).asBlobVec().size() << "]";
         } else if (h.major==4) {
-            os << t << " [\n"; std::size_t n = arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
+            os << t << " [\n"; std::size_t n = CborDeserializer(buf_, p).arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
         } else if (h.major==5) {
-            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t count = h.indefinite ? arraySize() : (std::size_t)h.val; // rough
-            std::size_t i=0; while (true){ if (h.indefinite && buf_[q2]==0xFF) { q2++; break; } indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; if (!h.indefinite && i>=count) break; }
-            indent(os, pad); os << '}';
+            os << t << " {\n"; std::size_t q = p + h.hlen;
+            for (uint64_t i=0; ; ++i) {
+                if (h.indefinite) { ensure(q < buf_.size(), "CBOR: trunc indef map"); if (buf_[q]==0xFF) break; }
+                else if (i >= h.val) break;
+                if (i > 0) os << ",\n";
+                indent(os, pad+2); os << '"' << CborDeserializer(buf_, q).asString() << "\": "; q = skip(q);
+                dump_rec(os, q, pad+2); q = skip(q);
+            }
+            os << "\n"; indent(os, pad); os << '}';
         } else {
             os << t;
         }
-- 
2.43.0


From 3ebe868df4512d31d9e9b3c372af299985d89fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:25 +0000
Subject: [PATCH 16/27] fix: CBOR unsigned integers above INT64_MAX are no
 longer read as negative

asInt64() wrapped them, and because isInt() claimed them translate() did too.
---
 include/zerialize/protocols/cbor.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index bcb9489..47deead 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -244,7 +244,7 @@ public:
     // ---- predicates ----
     bool isNull()   const { auto h = head(); return h.major==7 && h.addl==22; }
     bool isBool()   const { auto h = head(); return h.major==7 && (h.addl==20 || h.addl==21); }
-    bool isInt()    const { auto h = head(); return h.major==0 || h.major==1; }
+    bool isInt()    const { auto h = head(); return (h.major==0 && h.val <= uint64_t(INT64_MAX)) || h.major==1; }
     bool isUInt()   const { auto h = head(); return h.major==0; }
     bool isFloat()  const { auto h = head(); return h.major==7 && (h.addl==25 || h.addl==26 || h.addl==27); }
     bool isString() const { auto h = head(); return h.major==3; }
@@ -259,7 +259,10 @@ public:
     int64_t  asInt64()  const {
         auto h = head();
         ensure(h.major==0 || h.major==1, "CBOR: not an integer");
-        if (h.major==0) return static_cast<int64_t>(h.val);
+        if (h.major==0) {
+            ensure(h.val <= uint64_t(INT64_MAX), "int64 overflow");
+            return static_cast<int64_t>(h.val);
+        }
         // negative: -1 - n
         if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 underflow");
         long long x = -1 - static_cast<long long>(h.val);
-- 
2.43.0


From 5c5c04babf6e63a43561354d5a1dcc3508ffd3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:32 +0000
Subject: [PATCH 17/27] fix: copies of owning CBOR readers own their own bytes

As for the other protocols: a copy pointed into the original's storage, and
d = d["x"] freed the bytes the result points into.
---
 include/zerialize/protocols/cbor.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 47deead..28da645 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -241,6 +241,21 @@ public:
     // view ctor
     CborDeserializer(std::span<const uint8_t> buf, std::size_t start) : buf_(buf), pos_(start) {}
 
+    // ---- copy / move: a copy that owns its bytes refers to its own copy of them ----
+    CborDeserializer(const CborDeserializer& o) : buf_(o.buf_), owned_(o.owned_), pos_(o.pos_) {
+        if (!owned_.empty()) buf_ = std::span<const uint8_t>(owned_.data(), owned_.size());
+    }
+    CborDeserializer(CborDeserializer&&) noexcept = default;
+    CborDeserializer& operator=(const CborDeserializer& o) { return *this = CborDeserializer(o); }
+    CborDeserializer& operator=(CborDeserializer&& o) noexcept {
+        // Assigning an element of this very reader (d = d["x"]) keeps the bytes it lives in.
+        const bool own_element = o.owned_.empty() && !owned_.empty() && o.buf_.data() == owned_.data();
+        if (!own_element) owned_ = std::move(o.owned_);
+        buf_ = o.buf_;
+        pos_ = o.pos_;
+        return *this;
+    }
+
     // ---- predicates ----
     bool isNull()   const { auto h = head(); return h.major==7 && h.addl==22; }
     bool isBool()   const { auto h = head(); return h.major==7 && (h.addl==20 || h.addl==21); }
-- 
2.43.0


From 525265b556b810f1fef1aa593c96a7dca6a2182f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:24 +0000
Subject: [PATCH 18/27] fix: printing reports allocation failure instead of
 truncated text

std::ostringstream swallows exceptions of its buffer by default, so to_string()
and hexdump() returned silently cut text when memory ran out.
---
 include/zerialize/protocols/cbor.hpp    | 4 +++-
 include/zerialize/protocols/flex.hpp    | 1 +
 include/zerialize/protocols/msgpack.hpp | 4 +++-
 include/zerialize/protocols/zera.hpp    | 1 +
 include/zerialize/zbuffer.hpp           | 1 +
 5 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 28da645..65266d5 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -498,7 +498,9 @@ public:
 
     // ---- debug ----
     std::string to_string() const {
-        std::ostringstream os; dump_rec(os, pos_, 0); return os.str();
+        std::ostringstream os;
+        os.exceptions(std::ios_base::badbit); // allocation failures escape instead of truncating the text
+        dump_rec(os, pos_, 0); return os.str();
     }
 private:
     static void indent(std::ostringstream& os, int n){ for(int i=0;i<n;++i) os.put(' ');}    
diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 6d83a71..bd79b4e 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -323,6 +323,7 @@ public:
 
     std::string to_string() const {
         std::ostringstream os;
+        os.exceptions(std::ios_base::badbit); // allocation failures escape instead of truncating the text
         os << "Flex ";
         dump_rec(os, ref_, 0);
         return os.str();
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 2f39627..02e9149 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -516,7 +516,9 @@ public:
 
     // ---- debug ----
     std::string to_string() const {
-        std::ostringstream os; dump(os, *this, 0); return os.str();
+        std::ostringstream os;
+        os.exceptions(std::ios_base::badbit); // allocation failures escape instead of truncating the text
+        dump(os, *this, 0); return os.str();
     }
 
     // expose raw view if you need it
diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 7e5b856..8488f1f 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -428,6 +428,7 @@ public:
 
     std::string to_string() const {
         std::ostringstream os;
+        os.exceptions(std::ios_base::badbit); // allocation failures escape instead of truncating the text
         os << "Zera(";
         const auto t = tag();
         switch (t) {
diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 9c64ab7..6c4be4e 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -253,6 +253,7 @@ public:
     // Requires <iomanip> and <cctype>.
     std::string hexdump(std::size_t bytes_per_row = 16) const {
         std::ostringstream os;
+        os.exceptions(std::ios_base::badbit); // allocation failures escape instead of truncating the text
         const uint8_t* p = data();
         const std::size_t n = size();
         if (!p || n == 0) {
-- 
2.43.0


From ae69faeda2c06814162ffabb1fd5e3ab1932f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:05 +0000
Subject: [PATCH 19/27] fix: zera array element offsets do not wrap at 32 bits
 on a corrupt count

---
 include/zerialize/protocols/zera.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 8488f1f..6ed6de2 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -195,7 +195,7 @@ protected:
         return std::span<const std::byte>(reinterpret_cast<const std::byte*>(arena_ + ofs), len);
     }
 
-    const std::uint8_t* env_ptr_at(std::uint32_t ofs, std::size_t need) const {
+    const std::uint8_t* env_ptr_at(std::size_t ofs, std::size_t need) const {
         require(ofs <= env_size_, "zera: envelope offset out of bounds");
         require(need <= env_size_, "zera: envelope need out of bounds");
         require(std::size_t(ofs) + need <= env_size_, "zera: envelope span out of bounds");
@@ -462,7 +462,7 @@ inline ZeraValue ZeraViewBase::operator[](std::size_t idx) const {
     const std::uint32_t count = read_u32_le(p);
     require(idx < count, "zera: array index out of bounds");
     const std::size_t elem_ofs = std::size_t(arr_ofs) + 4 + 16 * idx;
-    const auto* vr = env_ptr_at(static_cast<std::uint32_t>(elem_ofs), 16);
+    const auto* vr = env_ptr_at(elem_ofs, 16);
     return ZeraValue(*this, vr);
 }
 
-- 
2.43.0


From 757f9c99bf3097ff0c68ca8083562ff2346e448e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:57 +0000
Subject: [PATCH 20/27] fix: a zera key() that runs out of memory leaves no
 partial entry behind

---
 include/zerialize/protocols/zera.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 6ed6de2..9441b47 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -822,11 +822,13 @@ struct Serializer {
         auto& ctx = std::get<RootSerializer::MapCtx>(r->st_.back());
         if (ctx.pending_value_patch) throw SerializationError("zera: key() called twice without value");
         if (k.size() > std::numeric_limits<std::uint16_t>::max()) throw SerializationError("zera: key too long");
-        append_u16_le(ctx.payload, static_cast<std::uint16_t>(k.size()));
-        append_u16_le(ctx.payload, 0);
-        ctx.payload.insert(ctx.payload.end(), k.begin(), k.end());
-        const std::size_t patch = ctx.payload.size();
-        ctx.payload.resize(ctx.payload.size() + 16, 0);
+        // Grow once, so that a failed allocation does not leave part of an entry behind.
+        const std::size_t entry = ctx.payload.size();
+        const std::size_t patch = entry + 4 + k.size();
+        ctx.payload.resize(patch + 16, 0);
+        ctx.payload[entry + 0] = std::uint8_t(k.size() & 0xff);
+        ctx.payload[entry + 1] = std::uint8_t((k.size() >> 8) & 0xff);
+        if (!k.empty()) std::memcpy(ctx.payload.data() + entry + 4, k.data(), k.size());
         ctx.pending_value_patch = patch;
         ++ctx.count;
     }
-- 
2.43.0


From e12947241714c5648799513e19f9fe06cff2dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:59 +0000
Subject: [PATCH 21/27] fix: refuse MessagePack lengths that do not fit 32 bits
 instead of writing them cut short

---
 include/zerialize/protocols/msgpack.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 02e9149..0644dae 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -551,6 +551,12 @@ class MsgPackSerializer {
 
     // msgpack-c reports a failed (re)allocation of its buffer by a non-zero return.
     static void check(int rc) { if (rc != 0) throw std::bad_alloc{}; }
+
+    // MessagePack lengths have at most 32 bits; msgpack-c would cut a longer one short.
+    static std::size_t length(std::size_t n) {
+        if (n > std::numeric_limits<std::uint32_t>::max()) throw SerializationError("msgpack: value too large");
+        return n;
+    }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
@@ -561,20 +567,20 @@ public:
     void uint64(std::uint64_t v){ check(msgpack_pack_uint64(&pk_, v)); }
     void double_(double v)      { check(msgpack_pack_double(&pk_, v)); }
     void string(std::string_view sv) {
-        check(msgpack_pack_str(&pk_, sv.size()));
+        check(msgpack_pack_str(&pk_, length(sv.size())));
         check(msgpack_pack_str_body(&pk_, sv.data(), sv.size()));
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        check(msgpack_pack_bin(&pk_, b.size()));
+        check(msgpack_pack_bin(&pk_, length(b.size())));
         check(msgpack_pack_bin_body(&pk_, p, b.size()));
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { check(msgpack_pack_array(&pk_, n)); }
+    void begin_array(std::size_t n) { check(msgpack_pack_array(&pk_, length(n))); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { check(msgpack_pack_map(&pk_, n)); }
+    void begin_map(std::size_t n)   { check(msgpack_pack_map(&pk_, length(n))); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From 43ca27acb49798ec7413473a3671238c4a5dcfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 22/27] fix: refuse tensor dimensions that do not fit 32 bits
 instead of writing them cut short

Shapes are written as 32-bit numbers: an empty xtensor with a dimension of 2^32
or more was written with another shape, and such an Eigen matrix could not be read back.
---
 include/zerialize/tensor/eigen.hpp |  6 +++---
 include/zerialize/tensor/utils.hpp | 10 +++++++++-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index fa01002..87e48ac 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -17,9 +17,9 @@ namespace Eigen {
 
 template <typename T, int R, int C, int Options, zerialize::Writer W>
 void serialize(const Eigen::Matrix<T, R, C, Options>& m, W& w) {
-    const std::array<std::size_t, 2> shape{
-        static_cast<std::size_t>(m.rows()),
-        static_cast<std::size_t>(m.cols())
+    const std::array<zerialize::TensorShapeElement, 2> shape{
+        zerialize::shape_element(static_cast<std::size_t>(m.rows())),
+        zerialize::shape_element(static_cast<std::size_t>(m.cols()))
     };
 
     zerialize::zvec(
diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 58e1336..f3d5fca 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -74,11 +74,19 @@ constexpr char DataKey[] = "data";
 using TensorShapeElement = uint32_t;
 using TensorShape = std::vector<TensorShapeElement>;
 
+// A dimension as it is written; larger ones cannot be read back.
+inline TensorShapeElement shape_element(std::size_t x) {
+    if (x > std::numeric_limits<TensorShapeElement>::max()) {
+        throw SerializationError("tensor dimension exceeds TensorShapeElement range");
+    }
+    return static_cast<TensorShapeElement>(x);
+}
+
 inline TensorShape shape_of_sizet(const auto& tshape) {
     TensorShape shape;
     shape.reserve(tshape.size());
     std::transform(tshape.begin(), tshape.end(), std::back_inserter(shape),
-        [](auto x) { return static_cast<TensorShapeElement>(x); });
+        [](auto x) { return shape_element(static_cast<std::size_t>(x)); });
     return shape;
 }
 
-- 
2.43.0


From 88a4f844b6d3f00c88465fdff805d70903fb8b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 23/27] fix: JSON keys may be empty or contain NUL

The empty key was taken for no key, and a key was cut at its first NUL (the
branch for newer yyjson versions passed a value where a string belongs).
---
 include/zerialize/protocols/json.hpp | 32 +++++++++-------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index c07a7ac..92a212f 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -242,6 +242,7 @@ struct RootSerializer {
         enum K { Arr, Obj } k;
         yyjson_mut_val* node;        // array or object node
         std::string pending_key;     // for objects: set by key(), consumed by next value
+        bool has_key = false;        // pending_key is set (it may be empty)
     };
     std::vector<Ctx> st;
 
@@ -319,7 +320,7 @@ struct Serializer {
     }
     void end_map() {
         ensure_in(RootSerializer::Ctx::Obj, "end_map");
-        if (!r->st.back().pending_key.empty())
+        if (r->st.back().has_key)
             throw std::logic_error("end_map() while awaiting value for key()");
         r->st.pop_back();
     }
@@ -327,9 +328,10 @@ struct Serializer {
     void key(std::string_view k) {
         ensure_in(RootSerializer::Ctx::Obj, "key");
         auto& c = r->st.back();
-        if (!c.pending_key.empty())
+        if (c.has_key)
             throw std::logic_error("key() called twice without value");
         c.pending_key.assign(k.data(), k.size());
+        c.has_key = true;
      }
 
 private:
@@ -353,30 +355,16 @@ private:
                 throw std::bad_alloc{};
         } else {
 
-            // current: c.pending_key holds a std::string we set in key()
-            // auto& c = r->st.back();
-            if (c.pending_key.empty())
+            if (!c.has_key)
                 throw std::logic_error("value added to object without key()");
-    
-            // optional sanity check during debug
-            #ifndef NDEBUG
-            if (c.pending_key.find('\0') != std::string::npos) {
-                throw std::logic_error("embedded NUL in key() input");
-            }
-            #endif
-    
-            // EITHER use the convenience helper if your yyjson has it:
-            #if defined(YYJSON_VERSION_HEX) && (YYJSON_VERSION_HEX >= 0x000e00) // 0.14.0+
-            if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key.c_str(), v))
-                throw std::bad_alloc{};
-            #else
-            // OR the portable two-step using a *cpy* string node (always null-terminated):
-            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key.c_str());
+
+            // copied into the document, with its length: a key may contain any character
+            yyjson_mut_val* k = yyjson_mut_strncpy(doc(), c.pending_key.data(), c.pending_key.size());
             if (!k || !yyjson_mut_obj_add(c.node, k, v))
                 throw std::bad_alloc{};
-            #endif
-    
+
             c.pending_key.clear();
+            c.has_key = false;
     }
     }
 
-- 
2.43.0


From ad4814c22b7ee3b238e2fd82d8b9eee6a0832e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 24/27] fix: JSON strings are copied into the document

The writer kept a pointer to the caller's characters until finish(), so
temporaries were read after they were gone; an empty view without data was refused.
---
 include/zerialize/protocols/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 92a212f..b9111f3 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -285,7 +285,8 @@ struct Serializer {
     void uint64(std::uint64_t v){ push_value(yyjson_mut_uint(doc(), v)); }
     void double_(double v)      { push_value(yyjson_mut_real(doc(), v)); }
     void string(std::string_view sv) {
-        push_value(yyjson_mut_strn(doc(), sv.data(), sv.size()));
+        // copied: the caller's characters need not outlive this call
+        push_value(yyjson_mut_strncpy(doc(), sv.empty() ? "" : sv.data(), sv.size()));
     }
     // Encode binary as array of 0..255
     void binary(std::span<const std::byte> b) {
-- 
2.43.0


From 55c5b10102799fb658ac61b2d50bc7a852360376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 25/27] fix: the JSON writer frees its document when
 serialization does not finish

---
 include/zerialize/protocols/json.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index b9111f3..4e097b9 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -249,6 +249,11 @@ struct RootSerializer {
     RootSerializer() : doc(yyjson_mut_doc_new(nullptr)) {
         if (!doc) throw std::bad_alloc{};
     }
+    ~RootSerializer() {
+        if (doc) yyjson_mut_doc_free(doc);
+    }
+    RootSerializer(const RootSerializer&) = delete;
+    RootSerializer& operator=(const RootSerializer&) = delete;
 
     // Consume and produce the final buffer.
     ZBuffer finish() {
-- 
2.43.0


From d6f036190bc08af07311727e75826ee6a31a3024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 26/27] fix: JSON integer accessors throw instead of returning
 a different number

As in the other readers: narrow accessors truncated, and integers above
INT64_MAX were reported as signed and read as negative.
---
 include/zerialize/protocols/json.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 4e097b9..b7569a8 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -8,6 +8,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <type_traits>
+#include <utility>
 #include <yyjson.h>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -93,6 +94,12 @@ class JsonDeserializer {
             throw DeserializationError(std::string("Value is not a ") + what);
     }
 
+    template<class To, class From>
+    static To narrow(From v) {
+        ensure(std::in_range<To>(v), "integer out of range");
+        return static_cast<To>(v);
+    }
+
 public:
     // --- ctors: root (owning) ---
     explicit JsonDeserializer(std::string_view json) {
@@ -141,7 +148,7 @@ public:
     // --- predicates (strict bool) ---
     bool isNull()   const { return cur_ && yyjson_is_null(cur_); }
     bool isBool()   const { return cur_ && yyjson_is_bool(cur_); }
-    bool isInt()    const { return cur_ && yyjson_is_int(cur_); }
+    bool isInt()    const { return cur_ && yyjson_is_int(cur_) && !(yyjson_is_uint(cur_) && !std::in_range<int64_t>(yyjson_get_uint(cur_))); }
     bool isUInt()   const { return cur_ && yyjson_is_uint(cur_); }
     bool isFloat()  const { return cur_ && yyjson_is_real(cur_); }
     bool isString() const { return cur_ && yyjson_is_str(cur_); }
@@ -156,14 +163,14 @@ public:
     }
 
     // --- scalars ---
-    int8_t   asInt8()   const { check(yyjson_is_int,  "signed integer"); return static_cast<int8_t>(yyjson_get_sint(cur_)); }
-    int16_t  asInt16()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int16_t>(yyjson_get_sint(cur_)); }
-    int32_t  asInt32()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int32_t>(yyjson_get_sint(cur_)); }
-    int64_t  asInt64()  const { check(yyjson_is_int,  "signed integer"); return yyjson_get_sint(cur_); }
-
-    uint8_t  asUInt8()  const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint8_t>(yyjson_get_uint(cur_)); }
-    uint16_t asUInt16() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint16_t>(yyjson_get_uint(cur_)); }
-    uint32_t asUInt32() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint32_t>(yyjson_get_uint(cur_)); }
+    int8_t   asInt8()   const { return narrow<int8_t>(asInt64()); }
+    int16_t  asInt16()  const { return narrow<int16_t>(asInt64()); }
+    int32_t  asInt32()  const { return narrow<int32_t>(asInt64()); }
+    int64_t  asInt64()  const { ensure(isInt(), "Value is not a signed integer"); return yyjson_get_sint(cur_); }
+
+    uint8_t  asUInt8()  const { return narrow<uint8_t>(asUInt64()); }
+    uint16_t asUInt16() const { return narrow<uint16_t>(asUInt64()); }
+    uint32_t asUInt32() const { return narrow<uint32_t>(asUInt64()); }
     uint64_t asUInt64() const { check(yyjson_is_uint, "unsigned integer"); return yyjson_get_uint(cur_); }
 
     float    asFloat()  const { check(yyjson_is_real, "float");  return static_cast<float>(yyjson_get_real(cur_)); }
-- 
2.43.0


From dc31eecc9c4bfc041d4c4618536f673ac272c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 27/27] fix: JSON finish() keeps its text until the ZBuffer
 owns it

---
 include/zerialize/protocols/json.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index b7569a8..17f5edb 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -7,6 +7,8 @@
 #include <iterator>
 #include <cstddef>
 #include <cstdint>
+#include <cstdlib>
+#include <memory>
 #include <type_traits>
 #include <utility>
 #include <yyjson.h>
@@ -278,10 +280,14 @@ struct RootSerializer {
         }
 
         // The returned buffer 's' is allocated via malloc and independent of the document.
-        // Hand ownership directly to ZBuffer to avoid a copy.
+        // Hand ownership directly to ZBuffer to avoid a copy
+        // (only once the ZBuffer, whose construction can throw, owns it).
+        std::unique_ptr<char, decltype(&std::free)> text(s, &std::free);
         yyjson_mut_doc_free(doc);
         doc = nullptr;
-        return ZBuffer(static_cast<void*>(s), len, ZBuffer::Deleters::Free);
+        ZBuffer out(static_cast<void*>(s), len, ZBuffer::Deleters::Free);
+        text.release();
+        return out;
     }
 };
 
-- 
2.43.0

