From 7b1b807228385f5f8fa7b415af89c2e0f4af61dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:20 +0000
Subject: [PATCH 01/36] fix: zera mapKeys() read past the envelope and dangled
 for temporary views

The keys iterator read a key length before checking that the entry lies in
the envelope, and kept a pointer to the (possibly temporary) view object it
was created from.
---
 include/zerialize/protocols/zera.hpp | 34 +++++++++++++++++-----------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b474e42..bc8182f 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -347,13 +347,15 @@ public:
     }
 
     // mapKeys() must be a forward range of string_view, zero-alloc.
+    // It refers to the message bytes only (not to the view it came from), so it
+    // stays valid for as long as the backing buffer does.
     struct KeysView {
-        const ZeraViewBase* self = nullptr;
+        std::span<const std::uint8_t> env{};
         const std::uint8_t* p = nullptr;
         std::uint32_t count = 0;
 
         struct iterator {
-            const ZeraViewBase* self = nullptr;
+            std::span<const std::uint8_t> env{};
             const std::uint8_t* cur = nullptr;
             std::uint32_t i = 0;
             std::uint32_t n = 0;
@@ -363,29 +365,35 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
+            // Length of the key at `cur`, once the whole entry is known to be in bounds.
+            std::uint16_t checked_key_len() const {
+                const std::size_t avail = env.size() - static_cast<std::size_t>(cur - env.data());
+                ZeraViewBase::require(avail >= 4, "zera: object entry out of bounds");
+                const std::uint16_t key_len = read_u16_le(cur);
+                ZeraViewBase::require(avail >= 4 + std::size_t(key_len) + 16, "zera: object entry out of bounds");
+                return key_len;
+            }
+
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
-                const auto key_len = read_u16_le(cur);
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4 + key_len + 16);
-                return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
+                return std::string_view(reinterpret_cast<const char*>(cur + 4), checked_key_len());
             }
 
             iterator& operator++() {
                 if (i >= n) return *this;
-                const auto key_len = read_u16_le(cur);
-                const std::size_t adv = 4 + std::size_t(key_len) + 16;
-                const auto cur_ofs = std::uint32_t(cur - self->env_);
-                cur = self->env_ptr_at(cur_ofs + std::uint32_t(adv), 0);
+                cur += 4 + std::size_t(checked_key_len()) + 16;
                 ++i;
                 return *this;
             }
             iterator operator++(int) { iterator tmp = *this; ++(*this); return tmp; }
-            friend bool operator==(const iterator& a, const iterator& b) { return a.self==b.self && a.i==b.i && a.n==b.n; }
+            friend bool operator==(const iterator& a, const iterator& b) {
+                return a.env.data()==b.env.data() && a.i==b.i && a.n==b.n;
+            }
         };
 
-        iterator begin() const { return iterator{self, p, 0, count}; }
+        iterator begin() const { return iterator{env, p, 0, count}; }
         iterator end() const {
-            auto it = iterator{self, p, count, count};
+            auto it = iterator{env, p, count, count};
             return it;
         }
     };
@@ -397,7 +405,7 @@ public:
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
         const auto* entries = env_ptr_at(obj_ofs + 4, 0);
-        return KeysView{this, entries, count};
+        return KeysView{std::span<const std::uint8_t>(env_, env_size_), entries, count};
     }
 
     bool contains(std::string_view key) const {
-- 
2.43.0


From c5b18833355da8fa842b7dee30f326921a098e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:13 +0000
Subject: [PATCH 02/36] fix: copying an owning reader left the copy pointing
 into the original

The implicit copy operations of the Zera, Flex, MsgPack and CBOR readers
copied the owned bytes but kept pointers into the source object's bytes, so
a copy dangled once the original was destroyed or reassigned.
---
 include/zerialize/protocols/cbor.hpp    | 15 +++++++++++++++
 include/zerialize/protocols/flex.hpp    | 13 +++++++++++++
 include/zerialize/protocols/msgpack.hpp | 11 +++++++++++
 include/zerialize/protocols/zera.hpp    | 16 ++++++++++++++++
 4 files changed, 55 insertions(+)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index afd4a87..7c1c443 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -207,6 +207,21 @@ class CborDeserializer {
 public:
     // ---- ctors ----
     CborDeserializer() = default;
+
+    // A copy of an owning reader owns its own bytes and refers to those; a copy
+    // of a non-owning reader refers to the same external bytes.
+    CborDeserializer(const CborDeserializer& o)
+        : buf_(o.buf_), owned_(o.owned_), pos_(o.pos_)
+    {
+        if (!owned_.empty()) buf_ = std::span<const uint8_t>(owned_.data(), owned_.size());
+    }
+    CborDeserializer(CborDeserializer&&) noexcept = default;
+    CborDeserializer& operator=(const CborDeserializer& o) {
+        if (this != &o) *this = CborDeserializer(o);
+        return *this;
+    }
+    CborDeserializer& operator=(CborDeserializer&&) noexcept = default;
+
     explicit CborDeserializer(std::span<const uint8_t> bytes) : buf_(bytes), pos_(0) {}
     explicit CborDeserializer(const std::vector<uint8_t>& buf)
         : owned_(buf.begin(), buf.end())
diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 7a4a8ab..5bd2f8b 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -364,6 +364,19 @@ protected:
     // No duplicate helpers here; FlexViewBase handles formatting/debug.
 
 public:
+    // A copy of an owning reader owns its own bytes and refers to those; a copy
+    // of a non-owning reader refers to the same external bytes.
+    FlexDeserializer(const FlexDeserializer& o)
+      : FlexViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) ref_ = ::flexbuffers::GetRoot(owned_);
+      }
+    FlexDeserializer(FlexDeserializer&&) noexcept = default;
+    FlexDeserializer& operator=(const FlexDeserializer& o) {
+        if (this != &o) *this = FlexDeserializer(o);
+        return *this;
+    }
+    FlexDeserializer& operator=(FlexDeserializer&&) noexcept = default;
+
     // -------- constructors (owning) --------
     explicit FlexDeserializer(const std::vector<uint8_t>& buf)
       : FlexViewBase(), owned_(buf) {
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 9127f04..8f4159e 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -216,6 +216,17 @@ public:
     // ---- ctors ----
     MsgPackDeserializer() = default;
 
+    // A copy of an owning reader owns its own bytes and refers to those; a copy
+    // of a non-owning reader refers to the same external bytes.
+    MsgPackDeserializer(const MsgPackDeserializer& o)
+      : owned_(o.owned_), view_(owned_.empty() ? o.view_ : std::span<const uint8_t>(owned_)) {}
+    MsgPackDeserializer(MsgPackDeserializer&&) noexcept = default;
+    MsgPackDeserializer& operator=(const MsgPackDeserializer& o) {
+        if (this != &o) *this = MsgPackDeserializer(o);
+        return *this;
+    }
+    MsgPackDeserializer& operator=(MsgPackDeserializer&&) noexcept = default;
+
     // Non-owning view constructor (zero-copy): caller must keep `bytes` alive.
     explicit MsgPackDeserializer(std::span<const uint8_t> bytes)
       : view_(bytes) {}
diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index bc8182f..81635c2 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -523,6 +523,22 @@ class ZeraDeserializer final : public ZeraViewBase {
 public:
     ZeraDeserializer() = default;
 
+    // A copy of an owning reader owns its own bytes and refers to those; a copy
+    // of a non-owning reader refers to the same external bytes.
+    ZeraDeserializer(const ZeraDeserializer& o)
+        : ZeraViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) {
+            view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
+            init_from(view_);
+        }
+    }
+    ZeraDeserializer(ZeraDeserializer&&) noexcept = default;
+    ZeraDeserializer& operator=(const ZeraDeserializer& o) {
+        if (this != &o) *this = ZeraDeserializer(o);
+        return *this;
+    }
+    ZeraDeserializer& operator=(ZeraDeserializer&&) noexcept = default;
+
     explicit ZeraDeserializer(const std::vector<std::uint8_t>& buf) : owned_(buf) {
         view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
         init_from(view_);
-- 
2.43.0


From f2f2346f078b3a8bc75492789fe385e5ecb0047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:27 +0000
Subject: [PATCH 03/36] fix: msgpack reader read past the end of truncated or
 corrupt messages

Headers, string/bin payloads and skipped elements were not checked against
the bytes present, and mp_skip() recursed once per nesting level, so a short
malicious message could also exhaust the stack.
---
 include/zerialize/protocols/msgpack.hpp | 171 ++++++++++++------------
 1 file changed, 85 insertions(+), 86 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 8f4159e..3ead7a7 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -34,75 +34,65 @@ inline uint64_t mp_read_be64(const uint8_t* p) {
 // Forward decl
 inline size_t mp_skip(std::span<const uint8_t>);
 
+// Throws unless `v` holds at least `n` bytes.
+inline void mp_need(std::span<const uint8_t> v, size_t n, const char* what) {
+    if (v.size() < n) throw DeserializationError(std::string("msgpack: truncated ") + what);
+}
+
 // ===== minimal element skipper (for iterators / indexing) ====================
+// Returns the encoded size of the element at the front of `v`, which is checked to
+// lie entirely within `v`. Iterative, so nesting depth costs no stack.
 inline size_t mp_skip(std::span<const uint8_t> v) {
     if (v.empty()) throw DeserializationError("msgpack: empty in skip");
-    const uint8_t m = v[0];
-
-    // Single byte: nil/bool/fixint/neg fixint
-    if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) return 1;
-
-    // fixstr
-    if ((m & 0xe0) == 0xa0) return 1 + (m & 0x1f);
-    // fixarray
-    if ((m & 0xf0) == 0x90) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) { auto s = mp_skip(v.subspan(off)); off += s; }
-        return off;
-    }
-    // fixmap
-    if ((m & 0xf0) == 0x80) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) {
-            auto ks = mp_skip(v.subspan(off)); off += ks;
-            auto vs = mp_skip(v.subspan(off)); off += vs;
-        }
-        return off;
-    }
-
-    switch (m) {
-        // ints / floats
-        case 0xcc: case 0xd0: return 2;
-        case 0xcd: case 0xd1: return 3;
-        case 0xce: case 0xd2: case 0xca: return 5;
-        case 0xcf: case 0xd3: case 0xcb: return 9;
-
-        // str
-        case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return 2 + v[1]; }
-        case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return 5 + mp_read_be32(v.data()+1); }
-
-        // bin
-        case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return 2 + v[1]; }
-        case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return 5 + mp_read_be32(v.data()+1); }
-
-        // arrays
-        case 0xdc: {
-            if (v.size() < 3) throw DeserializationError("array16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
-        case 0xdd: {
-            if (v.size() < 5) throw DeserializationError("array32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
-
-        // maps
-        case 0xde: {
-            if (v.size() < 3) throw DeserializationError("map16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
-        }
-        case 0xdf: {
-            if (v.size() < 5) throw DeserializationError("map32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
+    size_t   off = 0;       // bytes consumed so far
+    uint64_t pending = 1;   // elements still to be skipped
+
+    while (pending > 0) {
+        --pending;
+        const auto rest = v.subspan(off);
+        mp_need(rest, 1, "element");
+        const uint8_t m = rest[0];
+
+        size_t   len = 1;   // header + scalar/str/bin payload
+        uint64_t kids = 0;  // nested elements that follow
+
+        if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) {
+            // Single byte: nil/bool/fixint/neg fixint
+        } else if ((m & 0xe0) == 0xa0) { len = 1 + size_t(m & 0x1f);      // fixstr
+        } else if ((m & 0xf0) == 0x90) { kids = m & 0x0f;                 // fixarray
+        } else if ((m & 0xf0) == 0x80) { kids = 2 * uint64_t(m & 0x0f);   // fixmap
+        } else switch (m) {
+            // ints / floats
+            case 0xcc: case 0xd0: len = 2; break;
+            case 0xcd: case 0xd1: len = 3; break;
+            case 0xce: case 0xd2: case 0xca: len = 5; break;
+            case 0xcf: case 0xd3: case 0xcb: len = 9; break;
+
+            // str
+            case 0xd9: mp_need(rest, 2, "str8");  len = 2 + size_t(rest[1]); break;
+            case 0xda: mp_need(rest, 3, "str16"); len = 3 + size_t(mp_read_be16(rest.data()+1)); break;
+            case 0xdb: mp_need(rest, 5, "str32"); len = 5 + size_t(mp_read_be32(rest.data()+1)); break;
+
+            // bin
+            case 0xc4: mp_need(rest, 2, "bin8");  len = 2 + size_t(rest[1]); break;
+            case 0xc5: mp_need(rest, 3, "bin16"); len = 3 + size_t(mp_read_be16(rest.data()+1)); break;
+            case 0xc6: mp_need(rest, 5, "bin32"); len = 5 + size_t(mp_read_be32(rest.data()+1)); break;
+
+            // arrays
+            case 0xdc: mp_need(rest, 3, "array16"); len = 3; kids = mp_read_be16(rest.data()+1); break;
+            case 0xdd: mp_need(rest, 5, "array32"); len = 5; kids = mp_read_be32(rest.data()+1); break;
+
+            // maps
+            case 0xde: mp_need(rest, 3, "map16"); len = 3; kids = 2 * uint64_t(mp_read_be16(rest.data()+1)); break;
+            case 0xdf: mp_need(rest, 5, "map32"); len = 5; kids = 2 * uint64_t(mp_read_be32(rest.data()+1)); break;
+
+            default: throw DeserializationError("msgpack: unsupported marker");
         }
-        default: break;
+        mp_need(rest, len, "element");
+        off += len;
+        pending += kids;
     }
-    throw DeserializationError("msgpack: unsupported marker");
+    return off;
 }
 
 // ===== Deserializer ==========================================================
@@ -112,35 +102,44 @@ class MsgPackDeserializer {
     // view over current element
     std::span<const uint8_t> view_{};
 
-    // helpers: decode headers
+    // helpers: decode headers (checked against the bytes actually present)
+    static uint8_t marker(std::span<const uint8_t> v) { mp_need(v, 1, "value"); return v[0]; }
     static void str_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
-        const uint8_t m = v[0];
-        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); p = v.data()+1; return; }
-        if (m == 0xd9) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xda) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xdb) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
-        throw DeserializationError("msgpack: not a string");
+        const uint8_t m = marker(v);
+        size_t hdr = 0;
+        if ((m & 0xe0) == 0xa0) { hdr = 1; len = (m & 0x1f); }
+        else if (m == 0xd9) { hdr = 2; mp_need(v, hdr, "str8");  len = v[1]; }
+        else if (m == 0xda) { hdr = 3; mp_need(v, hdr, "str16"); len = mp_read_be16(v.data()+1); }
+        else if (m == 0xdb) { hdr = 5; mp_need(v, hdr, "str32"); len = mp_read_be32(v.data()+1); }
+        else throw DeserializationError("msgpack: not a string");
+        mp_need(v, hdr + len, "string");
+        p = v.data() + hdr;
     }
     static void bin_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
-        const uint8_t m = v[0];
-        if (m == 0xc4) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xc5) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xc6) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
-        throw DeserializationError("msgpack: not a bin");
+        const uint8_t m = marker(v);
+        size_t hdr = 0;
+        if (m == 0xc4) { hdr = 2; mp_need(v, hdr, "bin8");  len = v[1]; }
+        else if (m == 0xc5) { hdr = 3; mp_need(v, hdr, "bin16"); len = mp_read_be16(v.data()+1); }
+        else if (m == 0xc6) { hdr = 5; mp_need(v, hdr, "bin32"); len = mp_read_be32(v.data()+1); }
+        else throw DeserializationError("msgpack: not a bin");
+        mp_need(v, hdr + len, "bin");
+        p = v.data() + hdr;
     }
     static void arr_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
-        const uint8_t m = v[0];
-        if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xdc) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdd) { count = mp_read_be32(v.data()+1); off = 5; return; }
-        throw DeserializationError("msgpack: not an array");
+        const uint8_t m = marker(v);
+        if ((m & 0xf0) == 0x90) { off = 1; count = (m & 0x0f); }
+        else if (m == 0xdc) { off = 3; mp_need(v, off, "array16"); count = mp_read_be16(v.data()+1); }
+        else if (m == 0xdd) { off = 5; mp_need(v, off, "array32"); count = mp_read_be32(v.data()+1); }
+        else throw DeserializationError("msgpack: not an array");
+        mp_need(v, off + count, "array"); // each element takes at least one byte
     }
     static void map_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
-        const uint8_t m = v[0];
-        if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xde) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdf) { count = mp_read_be32(v.data()+1); off = 5; return; }
-        throw DeserializationError("msgpack: not a map");
+        const uint8_t m = marker(v);
+        if ((m & 0xf0) == 0x80) { off = 1; count = (m & 0x0f); }
+        else if (m == 0xde) { off = 3; mp_need(v, off, "map16"); count = mp_read_be16(v.data()+1); }
+        else if (m == 0xdf) { off = 5; mp_need(v, off, "map32"); count = mp_read_be32(v.data()+1); }
+        else throw DeserializationError("msgpack: not a map");
+        mp_need(v, off + 2 * count, "map"); // each key and value takes at least one byte
     }
 
     // pretty printer
-- 
2.43.0


From 56157b601e7868ae7d90a70e21f2b5cc79a57b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:27 +0000
Subject: [PATCH 04/36] fix: msgpack integer accessors wrapped values that do
 not fit

asInt64() of a uint64 above INT64_MAX and asUInt64() of a negative integer
returned a different number (and the narrower accessors then accepted it)
instead of throwing as they do for every other out-of-range value.
---
 include/zerialize/protocols/msgpack.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 3ead7a7..202e4dc 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -10,6 +10,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 #include <msgpack.h> // for the writer
@@ -312,7 +313,12 @@ public:
         if (m==0xcc){ if(view_.size()<2) throw DeserializationError("u8");  return uint8_t(view_[1]); }
         if (m==0xcd){ if(view_.size()<3) throw DeserializationError("u16"); return uint16_t(mp_read_be16(view_.data()+1)); }
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return uint32_t(mp_read_be32(view_.data()+1)); }
-        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return uint64_t(mp_read_be64(view_.data()+1)); }
+        if (m==0xcf){
+            if(view_.size()<9) throw DeserializationError("u64");
+            const uint64_t u = mp_read_be64(view_.data()+1);
+            if (u > uint64_t(std::numeric_limits<std::int64_t>::max())) throw DeserializationError("int64 out of range");
+            return int64_t(u);
+        }
         throw DeserializationError("not int");
     }
     
@@ -349,7 +355,9 @@ public:
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return mp_read_be32(view_.data()+1); }
         if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return mp_read_be64(view_.data()+1); }
         // fall back for signed fix/neg
-        return uint64_t(asInt64());
+        const std::int64_t i = asInt64();
+        if (i < 0) throw DeserializationError("uint64 out of range");
+        return uint64_t(i);
     }
     
     float asFloat() const {
-- 
2.43.0


From b2b3d058f578d1d42aac9efaf54f8a1af245bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:35 +0000
Subject: [PATCH 05/36] fix: flex integer accessors truncated values and
 refused the other signedness

asInt8() of 300 returned 44; and an int (e.g. the literal 37 of the README
example) could not be read with asUInt16(), unlike with the other protocols.
---
 include/zerialize/protocols/flex.hpp | 30 ++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 5bd2f8b..9066abb 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -8,6 +8,7 @@
 #include <span>
 #include <stdexcept>
 #include <iostream>
+#include <utility>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
 
@@ -118,6 +119,14 @@ protected:
         if (!cond) throw DeserializationError(msg);
     }
 
+    template<class T>
+    T checked_int() const {
+        require(isInt() || isUInt(), "value is not an integer");
+        const bool fits = isUInt() ? std::in_range<T>(ref_.AsUInt64()) : std::in_range<T>(ref_.AsInt64());
+        require(fits, "integer value out of range");
+        return isUInt() ? static_cast<T>(ref_.AsUInt64()) : static_cast<T>(ref_.AsInt64());
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -221,16 +230,17 @@ public:
     bool isMap()    const { return ref_.IsMap(); }
     bool isArray()  const { return ref_.IsAnyVector() && !ref_.IsMap(); }
 
-    // Scalars
-    int8_t   asInt8()   const { require(isInt(), "value is not a signed integer"); return ref_.AsInt8(); }
-    int16_t  asInt16()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt16(); }
-    int32_t  asInt32()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt32(); }
-    int64_t  asInt64()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt64(); }
-
-    uint8_t  asUInt8()  const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint8_t>(ref_.AsUInt8()); }
-    uint16_t asUInt16() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint16_t>(ref_.AsUInt16()); }
-    uint32_t asUInt32() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint32_t>(ref_.AsUInt32()); }
-    uint64_t asUInt64() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint64_t>(ref_.AsUInt64()); }
+    // Scalars: any stored integer can be read through any integer accessor that can
+    // represent its value; everything else throws.
+    int8_t   asInt8()   const { return checked_int<int8_t>(); }
+    int16_t  asInt16()  const { return checked_int<int16_t>(); }
+    int32_t  asInt32()  const { return checked_int<int32_t>(); }
+    int64_t  asInt64()  const { return checked_int<int64_t>(); }
+
+    uint8_t  asUInt8()  const { return checked_int<uint8_t>(); }
+    uint16_t asUInt16() const { return checked_int<uint16_t>(); }
+    uint32_t asUInt32() const { return checked_int<uint32_t>(); }
+    uint64_t asUInt64() const { return checked_int<uint64_t>(); }
 
     float    asFloat()  const { require(isFloat(), "value is not a float"); return static_cast<float>(ref_.AsFloat()); }
     double   asDouble() const { require(isFloat(), "value is not a float"); return ref_.AsDouble(); }
-- 
2.43.0


From 96a124302082ce25a21d001ae83b73318c2df3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 06/36] fix: flex writer read one byte past string_views that
 are not NUL-terminated

FlexBuffers' Key(ptr,len) and String(ptr,len) copy len+1 bytes. For a view
into a larger string the stored key also lacked its terminator, so the key
read back had extra characters.
---
 include/zerialize/protocols/flex.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 9066abb..a43430b 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -56,7 +56,9 @@ struct Serializer {
     void uint64(std::uint64_t v) { r->fbb.UInt(v); r->wrote_root_ = true; }
     void double_(double v)       { r->fbb.Double(v); r->wrote_root_ = true; }
     void string(std::string_view sv) {
-        r->fbb.String(sv.data(), sv.size()); r->wrote_root_ = true;
+        // FlexBuffers copies one byte past the end (the terminating NUL), which a
+        // string_view does not guarantee to be there.
+        r->fbb.String(std::string(sv)); r->wrote_root_ = true;
     }
     void binary(std::span<const std::byte> b) {
         auto ptr = reinterpret_cast<const std::uint8_t*>(b.data());
@@ -91,7 +93,8 @@ struct Serializer {
 
     void key(std::string_view k) {
         // FlexBuffers requires a key immediately before its value
-        r->fbb.Key(k.data(), k.size());
+        // and, like String(), copies the terminating NUL of its argument.
+        r->fbb.Key(std::string(k));
     }
 
 private:
-- 
2.43.0


From ec74074028e356613f5500844dec5672560ff83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:40 +0000
Subject: [PATCH 07/36] fix: json and cbor readers wrapped or truncated
 integers that do not fit

A uint64 above INT64_MAX answered isInt() and asInt64() returned a negative
number, so translating such a value to another protocol corrupted it; the
narrow JSON accessors truncated.
---
 include/zerialize/protocols/cbor.hpp |  7 +++--
 include/zerialize/protocols/json.hpp | 38 ++++++++++++++++++++--------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 7c1c443..8cd47b7 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -244,7 +244,7 @@ public:
     // ---- predicates ----
     bool isNull()   const { auto h = head(); return h.major==7 && h.addl==22; }
     bool isBool()   const { auto h = head(); return h.major==7 && (h.addl==20 || h.addl==21); }
-    bool isInt()    const { auto h = head(); return h.major==0 || h.major==1; }
+    bool isInt()    const { auto h = head(); return h.major==1 || (h.major==0 && h.val <= uint64_t(INT64_MAX)); }
     bool isUInt()   const { auto h = head(); return h.major==0; }
     bool isFloat()  const { auto h = head(); return h.major==7 && (h.addl==25 || h.addl==26 || h.addl==27); }
     bool isString() const { auto h = head(); return h.major==3; }
@@ -259,7 +259,10 @@ public:
     int64_t  asInt64()  const {
         auto h = head();
         ensure(h.major==0 || h.major==1, "CBOR: not an integer");
-        if (h.major==0) return static_cast<int64_t>(h.val);
+        if (h.major==0) {
+            if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 overflow");
+            return static_cast<int64_t>(h.val);
+        }
         // negative: -1 - n
         if (h.val > uint64_t(INT64_MAX)) throw DeserializationError("int64 underflow");
         long long x = -1 - static_cast<long long>(h.val);
diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index c07a7ac..b4d9c12 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -5,9 +5,11 @@
 #include <span>
 #include <set>
 #include <iterator>
+#include <limits>
 #include <cstddef>
 #include <cstdint>
 #include <type_traits>
+#include <utility>
 #include <yyjson.h>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -93,6 +95,22 @@ class JsonDeserializer {
             throw DeserializationError(std::string("Value is not a ") + what);
     }
 
+    // JSON integers above INT64_MAX exist only as unsigned values.
+    bool exceeds_int64() const {
+        return yyjson_is_uint(cur_) &&
+               yyjson_get_uint(cur_) > static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+    }
+    template<class T> T checked_sint() const {
+        check(yyjson_is_int, "signed integer");
+        ensure(!exceeds_int64() && std::in_range<T>(yyjson_get_sint(cur_)), "Integer value out of range");
+        return static_cast<T>(yyjson_get_sint(cur_));
+    }
+    template<class T> T checked_uint() const {
+        check(yyjson_is_uint, "unsigned integer");
+        ensure(std::in_range<T>(yyjson_get_uint(cur_)), "Integer value out of range");
+        return static_cast<T>(yyjson_get_uint(cur_));
+    }
+
 public:
     // --- ctors: root (owning) ---
     explicit JsonDeserializer(std::string_view json) {
@@ -141,7 +159,7 @@ public:
     // --- predicates (strict bool) ---
     bool isNull()   const { return cur_ && yyjson_is_null(cur_); }
     bool isBool()   const { return cur_ && yyjson_is_bool(cur_); }
-    bool isInt()    const { return cur_ && yyjson_is_int(cur_); }
+    bool isInt()    const { return cur_ && yyjson_is_int(cur_) && !exceeds_int64(); }
     bool isUInt()   const { return cur_ && yyjson_is_uint(cur_); }
     bool isFloat()  const { return cur_ && yyjson_is_real(cur_); }
     bool isString() const { return cur_ && yyjson_is_str(cur_); }
@@ -156,15 +174,15 @@ public:
     }
 
     // --- scalars ---
-    int8_t   asInt8()   const { check(yyjson_is_int,  "signed integer"); return static_cast<int8_t>(yyjson_get_sint(cur_)); }
-    int16_t  asInt16()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int16_t>(yyjson_get_sint(cur_)); }
-    int32_t  asInt32()  const { check(yyjson_is_int,  "signed integer"); return static_cast<int32_t>(yyjson_get_sint(cur_)); }
-    int64_t  asInt64()  const { check(yyjson_is_int,  "signed integer"); return yyjson_get_sint(cur_); }
-
-    uint8_t  asUInt8()  const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint8_t>(yyjson_get_uint(cur_)); }
-    uint16_t asUInt16() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint16_t>(yyjson_get_uint(cur_)); }
-    uint32_t asUInt32() const { check(yyjson_is_uint, "unsigned integer"); return static_cast<uint32_t>(yyjson_get_uint(cur_)); }
-    uint64_t asUInt64() const { check(yyjson_is_uint, "unsigned integer"); return yyjson_get_uint(cur_); }
+    int8_t   asInt8()   const { return checked_sint<int8_t>(); }
+    int16_t  asInt16()  const { return checked_sint<int16_t>(); }
+    int32_t  asInt32()  const { return checked_sint<int32_t>(); }
+    int64_t  asInt64()  const { return checked_sint<int64_t>(); }
+
+    uint8_t  asUInt8()  const { return checked_uint<uint8_t>(); }
+    uint16_t asUInt16() const { return checked_uint<uint16_t>(); }
+    uint32_t asUInt32() const { return checked_uint<uint32_t>(); }
+    uint64_t asUInt64() const { return checked_uint<uint64_t>(); }
 
     float    asFloat()  const { check(yyjson_is_real, "float");  return static_cast<float>(yyjson_get_real(cur_)); }
     double   asDouble() const { check(yyjson_is_real, "float");  return yyjson_get_real(cur_); }
-- 
2.43.0


From 0dfae6c9512ecd703cc51d23912c0b6d4d938780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:42 +0000
Subject: [PATCH 08/36] fix: cbor reader read past the end of malformed
 messages and could not list keys of indefinite maps

Lengths were added to offsets without overflow checks, float bodies, map keys
and everything in KeysView were unchecked, and skipping recursed once per
nesting level. skip() also stepped one byte too far over simple(24) values,
and the end() of an indefinite-length map was never reached by iteration.
---
 include/zerialize/protocols/cbor.hpp | 256 +++++++++++++--------------
 1 file changed, 120 insertions(+), 136 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 8cd47b7..fbd7b91 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -94,17 +94,17 @@ class CborDeserializer {
         bool indefinite;
     };
 
-    Head read_head(std::size_t p) const {
-        ensure(p < buf_.size(), "CBOR: truncated");
-        uint8_t b = buf_[p];
-        Head h{}; h.major = b >> 5; h.addl = b & 0x1F; h.indefinite = false; h.hlen = 1; h.val = 0;
+    static Head read_head(std::span<const uint8_t> b, std::size_t p) {
+        ensure(p < b.size(), "CBOR: truncated");
+        const uint8_t ib = b[p];
+        Head h{}; h.major = ib >> 5; h.addl = ib & 0x1F; h.indefinite = false; h.hlen = 1; h.val = 0;
         if (h.major == 7) {
             // simple/float encoding: header is 1 byte for floats; body size depends on addl
             if (h.addl == 25) { h.val = 2; }           // half (2 bytes)
             else if (h.addl == 26) { h.val = 4; }      // float32
             else if (h.addl == 27) { h.val = 8; }      // float64
             else if (h.addl == 24) {                   // simple value (next 1 byte)
-                ensure(p+2 <= buf_.size(), "CBOR: truncated simple(24)");
+                ensure(b.size() - p >= 2, "CBOR: truncated simple(24)");
                 h.hlen = 2; h.val = 0;
             } else if (h.addl == 31) {
                 h.indefinite = true;
@@ -114,76 +114,93 @@ class CborDeserializer {
             }
             return h;
         }
+        auto arg = [&](std::size_t n, const char* msg) {
+            ensure(b.size() - p >= 1 + n, msg);
+            h.val = get_be(b.data() + p + 1, n); h.hlen = 1 + n;
+        };
         if (h.addl < 24) { h.val = h.addl; }
-        else if (h.addl == 24) { ensure(p+2 <= buf_.size(), "CBOR: truncated u8"); h.val = buf_[p+1]; h.hlen = 2; }
-        else if (h.addl == 25) { ensure(p+3 <= buf_.size(), "CBOR: truncated u16"); h.val = get_be(&buf_[p+1],2); h.hlen = 3; }
-        else if (h.addl == 26) { ensure(p+5 <= buf_.size(), "CBOR: truncated u32"); h.val = get_be(&buf_[p+1],4); h.hlen = 5; }
-        else if (h.addl == 27) { ensure(p+9 <= buf_.size(), "CBOR: truncated u64"); h.val = get_be(&buf_[p+1],8); h.hlen = 9; }
-        else if (h.addl == 31) { h.indefinite = true; }
+        else if (h.addl == 24) { arg(1, "CBOR: truncated u8"); }
+        else if (h.addl == 25) { arg(2, "CBOR: truncated u16"); }
+        else if (h.addl == 26) { arg(4, "CBOR: truncated u32"); }
+        else if (h.addl == 27) { arg(8, "CBOR: truncated u64"); }
+        else if (h.addl == 31 && h.major >= 2 && h.major <= 5) { h.indefinite = true; }
         else { throw DeserializationError("CBOR: reserved additional info"); }
         return h;
     }
-
-    std::size_t skip(std::size_t p) const {
-        auto h = read_head(p);
-        std::size_t q = p + h.hlen;
-        switch (h.major) {
-            case 0: // uint
-            case 1: // negint
-                return q;
-            case 2: // bstr
-            case 3: // tstr
-                if (!h.indefinite) {
-                    ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
-                    return q + static_cast<std::size_t>(h.val);
-                } else {
-                    // chunks terminated by 0xFF
-                    for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef str");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        auto ch = read_head(q);
-                        ensure(ch.major == h.major, "CBOR: wrong chunk type");
-                        ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
-                        q += ch.hlen + static_cast<std::size_t>(ch.val);
-                    }
-                }
-            case 4: // array
-                if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) q = skip(q);
-                    return q;
-                } else {
-                    for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef array");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q);
+    Head read_head(std::size_t p) const { return read_head(buf_, p); }
+
+    // Position just past the item that starts at `p`, which is checked to lie entirely
+    // within `b`. Iterative, so nesting depth costs no stack.
+    static std::size_t skip(std::span<const uint8_t> b, std::size_t p) {
+        // One level per open indefinite-length container (plus the outermost one):
+        // `pending` items still have to be skipped before its next break is expected.
+        struct Level { bool map; std::size_t pending; };
+        std::vector<Level> levels;
+        Level cur{false, 1};
+        std::size_t q = p;
+        for (;;) {
+            if (cur.pending == 0) {
+                if (levels.empty()) return q;
+                ensure(q < b.size(), "CBOR: truncated indefinite-length item");
+                if (b[q] == 0xFF) { ++q; cur = levels.back(); levels.pop_back(); continue; }
+                cur.pending = cur.map ? 2 : 1;
+            }
+            --cur.pending;
+            const auto h = read_head(b, q);
+            q += h.hlen;
+            const std::size_t left = b.size() - q;
+            switch (h.major) {
+                case 0: // uint
+                case 1: // negint
+                    break;
+                case 2: // bstr
+                case 3: // tstr
+                    if (!h.indefinite) {
+                        ensure(h.val <= left, "CBOR: truncated string");
+                        q += static_cast<std::size_t>(h.val);
+                    } else {
+                        // chunks terminated by 0xFF
+                        for (;;) {
+                            ensure(q < b.size(), "CBOR: truncated indef str");
+                            if (b[q] == 0xFF) { ++q; break; }
+                            const auto ch = read_head(b, q);
+                            ensure(ch.major == h.major, "CBOR: wrong chunk type");
+                            ensure(!ch.indefinite, "CBOR: nested indef chunks not allowed");
+                            q += ch.hlen;
+                            ensure(ch.val <= b.size() - q, "CBOR: truncated chunk");
+                            q += static_cast<std::size_t>(ch.val);
+                        }
                     }
-                }
-            case 5: // map
-                if (!h.indefinite) {
-                    for (uint64_t i = 0; i < h.val; ++i) { q = skip(q); q = skip(q); }
-                    return q;
-                } else {
-                    for (;;) {
-                        ensure(q < buf_.size(), "CBOR: truncated indef map");
-                        if (buf_[q] == 0xFF) return q + 1;
-                        q = skip(q); // key
-                        q = skip(q); // value
+                    break;
+                case 4: // array
+                case 5: // map
+                    if (h.indefinite) {
+                        levels.push_back(cur);
+                        cur = Level{h.major == 5, 0};
+                    } else {
+                        const std::size_t per = h.major == 5 ? 2 : 1;
+                        ensure(h.val <= left / per, "CBOR: truncated container");
+                        cur.pending += per * static_cast<std::size_t>(h.val);
                     }
-                }
-            case 6: // tag
-                // skip tag then the tagged value
-                return skip(q);
-            case 7: // floats/simple
-                if (h.addl == 25) { ensure(q+2 <= buf_.size(), "CBOR: truncated f16"); return q+2; }
-                if (h.addl == 26) { ensure(q+4 <= buf_.size(), "CBOR: truncated f32"); return q+4; }
-                if (h.addl == 27) { ensure(q+8 <= buf_.size(), "CBOR: truncated f64"); return q+8; }
-                if (h.addl == 24) { ensure(q+1 <= buf_.size(), "CBOR: truncated simple(24)"); return q+1; }
-                // simple/bool/null (no body): header only
-                return q;
-            default:
-                throw DeserializationError("CBOR: unknown major");
+                    break;
+                case 6: // tag: skip the tagged value too
+                    ++cur.pending;
+                    break;
+                default: // 7: floats/simple
+                    ensure(h.addl != 31, "CBOR: unexpected break");
+                    ensure(h.val <= left, "CBOR: truncated float");
+                    q += static_cast<std::size_t>(h.val);
+                    break;
+            }
         }
     }
+    std::size_t skip(std::size_t p) const { return skip(buf_, p); }
+
+    // Bytes [q, q+n) of the message, checked.
+    const uint8_t* bytes_at(std::size_t q, uint64_t n, const char* msg) const {
+        ensure(q <= buf_.size() && n <= buf_.size() - q, msg);
+        return buf_.data() + q;
+    }
 
     Head head() const { return read_head(pos_); }
 
@@ -277,10 +294,10 @@ public:
     float    asFloat()  const { return static_cast<float>(asDouble()); }
     double   asDouble() const {
         auto h = head(); ensure(isFloat(), "CBOR: not a float");
-        std::size_t q = pos_ + h.hlen;
-        if (h.addl == 25) { uint16_t v = (uint16_t)((buf_[q] << 8) | buf_[q+1]); return decode_f16(v); }
-        if (h.addl == 26) { uint32_t v = (uint32_t)get_be(&buf_[q],4); float f; std::memcpy(&f,&v,4); return static_cast<double>(f); }
-        uint64_t v = get_be(&buf_[q],8); double d; std::memcpy(&d,&v,8); return d;
+        const uint8_t* p = bytes_at(pos_ + h.hlen, h.val, "CBOR: truncated float");
+        if (h.addl == 25) { return decode_f16(static_cast<uint16_t>(get_be(p,2))); }
+        if (h.addl == 26) { uint32_t v = (uint32_t)get_be(p,4); float f; std::memcpy(&f,&v,4); return static_cast<double>(f); }
+        uint64_t v = get_be(p,8); double d; std::memcpy(&d,&v,8); return d;
     }
     bool     asBool()   const { auto h = head(); ensure(h.major==7 && (h.addl==20 || h.addl==21), "CBOR: not a bool"); return h.addl==21; }
 
@@ -288,17 +305,18 @@ public:
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         std::size_t q = pos_ + h.hlen;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: truncated string");
-            return std::string(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+            auto* p = bytes_at(q, h.val, "CBOR: truncated string");
+            return std::string(reinterpret_cast<const char*>(p), static_cast<std::size_t>(h.val));
         } else {
             std::string out;
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: truncated indef tstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==3 && !ch.indefinite, "CBOR: bad tstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc");
-                out.append(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(ch.val));
-                q += ch.val;
+                q += ch.hlen;
+                auto* p = bytes_at(q, ch.val, "CBOR: trunc");
+                out.append(reinterpret_cast<const char*>(p), static_cast<std::size_t>(ch.val));
+                q += static_cast<std::size_t>(ch.val);
             }
             return out;
         }
@@ -306,15 +324,14 @@ public:
     std::string_view asStringView() const {
         auto h = head(); ensure(h.major==3, "CBOR: not a string");
         ensure(!h.indefinite, "CBOR: string is indefinite; use asString()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc tstr");
-        return std::string_view(reinterpret_cast<const char*>(&buf_[q]), static_cast<std::size_t>(h.val));
+        auto* p = bytes_at(pos_ + h.hlen, h.val, "CBOR: trunc tstr");
+        return std::string_view(reinterpret_cast<const char*>(p), static_cast<std::size_t>(h.val));
     }
 
     std::span<const std::byte> asBlob() const {
         auto h = head(); ensure(h.major==2, "CBOR: not a byte string");
         ensure(!h.indefinite, "CBOR: chunked byte string; fetch via asBlobVec()");
-        std::size_t q = pos_ + h.hlen; ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-        auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+        auto* p = reinterpret_cast<const std::byte*>(bytes_at(pos_ + h.hlen, h.val, "CBOR: trunc bstr"));
         return { p, static_cast<std::size_t>(h.val) };
     }
     std::vector<std::byte> asBlobVec() const {
@@ -322,18 +339,17 @@ public:
         std::size_t q = pos_ + h.hlen;
         std::vector<std::byte> out;
         if (!h.indefinite) {
-            ensure(q + h.val <= buf_.size(), "CBOR: trunc bstr");
-            auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+            auto* p = reinterpret_cast<const std::byte*>(bytes_at(q, h.val, "CBOR: trunc bstr"));
             out.insert(out.end(), p, p + h.val);
         } else {
             for (;;) {
                 ensure(q < buf_.size(), "CBOR: trunc indef bstr");
                 if (buf_[q] == 0xFF) break;
                 auto ch = read_head(q); ensure(ch.major==2 && !ch.indefinite, "CBOR: bad bstr chunk");
-                q += ch.hlen; ensure(q + ch.val <= buf_.size(), "CBOR: trunc chunk");
-                auto* p = reinterpret_cast<const std::byte*>(&buf_[q]);
+                q += ch.hlen;
+                auto* p = reinterpret_cast<const std::byte*>(bytes_at(q, ch.val, "CBOR: trunc chunk"));
                 out.insert(out.end(), p, p + ch.val);
-                q += ch.val;
+                q += static_cast<std::size_t>(ch.val);
             }
         }
         return out;
@@ -349,7 +365,8 @@ public:
                 auto kh = read_head(q);
                 std::string_view ksv;
                 if (kh.major==3 && !kh.indefinite) {
-                    ksv = std::string_view(reinterpret_cast<const char*>(&buf_[q+kh.hlen]), static_cast<std::size_t>(kh.val));
+                    auto* kp = bytes_at(q + kh.hlen, kh.val, "CBOR: truncated key");
+                    ksv = std::string_view(reinterpret_cast<const char*>(kp), static_cast<std::size_t>(kh.val));
                 } else {
                     // fallback: decode key to string
                     CborDeserializer keyv(buf_, q);
@@ -392,58 +409,17 @@ public:
             using difference_type   = std::ptrdiff_t;
             using reference         = std::string_view;
 
-            struct H { uint8_t major, addl; uint64_t val; std::size_t hlen; bool indefinite; };
-            static H read_head(std::span<const uint8_t> b, std::size_t p) {
-                uint8_t bb = b[p];
-                H h{}; h.major = bb>>5; h.addl=bb&0x1F; h.hlen=1; h.val=0; h.indefinite=false;
-                if (h.major==7) {
-                    if (h.addl==25) { h.val=2; }
-                    else if (h.addl==26) { h.val=4; }
-                    else if (h.addl==27) { h.val=8; }
-                    else if (h.addl==24) { h.hlen=2; }
-                    else if (h.addl==31) { h.indefinite=true; }
-                    return h;
-                }
-                if (h.addl<24) { h.val=h.addl; }
-                else if (h.addl==24) { h.val=b[p+1]; h.hlen=2; }
-                else if (h.addl==25) { h.val=(uint64_t)b[p+1]<<8 | b[p+2]; h.hlen=3; }
-                else if (h.addl==26) { h.val=((uint64_t)b[p+1]<<24)|((uint64_t)b[p+2]<<16)|((uint64_t)b[p+3]<<8)|b[p+4]; h.hlen=5; }
-                else if (h.addl==27) { h.val=((uint64_t)b[p+1]<<56)|((uint64_t)b[p+2]<<48)|((uint64_t)b[p+3]<<40)|((uint64_t)b[p+4]<<32)|((uint64_t)b[p+5]<<24)|((uint64_t)b[p+6]<<16)|((uint64_t)b[p+7]<<8)|b[p+8]; h.hlen=9; }
-                else if (h.addl==31) { h.indefinite=true; }
-                return h;
-            }
-            static std::size_t skip(std::span<const uint8_t> b, std::size_t p) {
-                auto h = read_head(b,p); std::size_t q=p+h.hlen;
-                switch (h.major) {
-                    case 0: case 1: return q;
-                    case 2: case 3:
-                        if (!h.indefinite) return q + (std::size_t)h.val;
-                        for (;;) { if (b[q]==0xFF) return q+1; auto ch=read_head(b,q); q += ch.hlen + (std::size_t)ch.val; }
-                    case 4:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i) q=skip(b,q); return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q);}        
-                    case 5:
-                        if (!h.indefinite) { for (uint64_t i=0;i<h.val;++i){ q=skip(b,q); q=skip(b,q);} return q; }
-                        for(;;){ if(b[q]==0xFF) return q+1; q=skip(b,q); q=skip(b,q);} 
-                    case 6: return skip(b,q);
-                    case 7:
-                        if (h.addl==25) return q+2; if (h.addl==26) return q+4; if (h.addl==27) return q+8; return q;
-                }
-                return q;
-            }
-
             reference operator*() const {
                 auto kh = read_head(buf, q);
-                if (kh.major==3 && !kh.indefinite) {
-                    return std::string_view(reinterpret_cast<const char*>(&buf[q+kh.hlen]), (std::size_t)kh.val);
-                }
+                CborDeserializer v(buf, q);
+                if (kh.major==3 && !kh.indefinite) return v.asStringView();
                 // fallback: materialize
-                CborDeserializer v(std::span<const uint8_t>(buf.data(), buf.size()), q);
                 scratch = v.asString();
                 return std::string_view(scratch);
             }
             iterator& operator++() {
                 if (indefinite) {
+                    ensure(q < buf.size(), "CBOR: trunc indef map");
                     if (buf[q]==0xFF) return *this; // already at end
                     q = skip(buf,q); // key
                     q = skip(buf,q); // value
@@ -460,16 +436,20 @@ public:
         };
 
         iterator begin() const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); std::size_t q = start + h.hlen; it.q = q; it.indefinite = h.indefinite; it.remaining = h.indefinite ? 0 : (uint64_t)h.val; return it;
+            iterator it; it.buf = buf; auto h = read_head(buf, start); std::size_t q = start + h.hlen; it.q = q; it.indefinite = h.indefinite; it.remaining = h.indefinite ? 0 : (uint64_t)h.val; return it;
         }
         iterator end()   const {
-            iterator it; it.buf = buf; auto h = iterator::read_head(buf, start); if (!h.indefinite) {
+            iterator it; it.buf = buf; auto h = read_head(buf, start);
+            std::size_t q = start + h.hlen; it.indefinite = h.indefinite; it.remaining = 0;
+            if (!h.indefinite) {
                 // compute end pos
-                std::size_t q = start + h.hlen; for (uint64_t i=0;i<h.val;++i){ q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.q = q; it.indefinite=false; it.remaining=0; return it;
+                for (uint64_t i=0;i<h.val;++i){ q = skip(buf,q); q = skip(buf,q);}
             } else {
-                // find break
-                std::size_t q = start + h.hlen; for(;;){ if (buf[q]==0xFF){ it.q=q+1; break; } q = iterator::skip(buf,q); q = iterator::skip(buf,q);} it.indefinite=true; return it;
+                // find break (the end position is the break itself)
+                for(;;){ ensure(q < buf.size(), "CBOR: trunc indef map"); if (buf[q]==0xFF) break; q = skip(buf,q); q = skip(buf,q);}
             }
+            it.q = q;
+            return it;
         }
     };
 
@@ -495,7 +475,11 @@ public:
     // ---- array interface ----
     std::size_t arraySize() const {
         auto h = head(); ensure(h.major==4, "CBOR: not an array");
-        if (!h.indefinite) return static_cast<std::size_t>(h.val);
+        if (!h.indefinite) {
+            // each element takes at least one byte
+            ensure(h.val <= buf_.size() - (pos_ + h.hlen), "CBOR: truncated array");
+            return static_cast<std::size_t>(h.val);
+        }
         std::size_t q = pos_ + h.hlen; std::size_t c=0; for(;;){ ensure(q<buf_.size(), "CBOR: trunc indef arr"); if(buf_[q]==0xFF) break; q = skip(q); ++c; } return c;
     }
     CborDeserializer operator[](std::size_t idx) const {
-- 
2.43.0


From e5b512376fe9882a716cf1cd2dcba40bb03c0c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:42 +0000
Subject: [PATCH 09/36] fix: cbor to_string() failed on nested arrays and on
 empty or indefinite maps

dump_rec() asked the root value, not the one being printed, for its array
size, printed an entry of an empty map, and used arraySize() on a map.
---
 include/zerialize/protocols/cbor.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index fbd7b91..7378f2a 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -516,17 +516,14 @@ private:
         else if (h.major==7 && (h.addl==25||h.addl==26||h.addl==27)) { os << t << '|' << CborDeserializer(buf_, p).asDouble(); }
         else if (h.major==7 && (h.addl==20||h.addl==21)) { os << t << "| " << (h.addl==21?"true":"false"); }
         else if (h.major==7 && h.addl==22) { os << t << "|null"; }
-        else if (h.major==3) {
-            if (!h.indefinite) { os << t << "|\"" << std::string(reinterpret_cast<const char*>(&buf_[q]), (std::size_t)h.val) << '"'; }
-            else { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
-        } else if (h.major==2) {
-            std::size_t total = 0; if (!h.indefinite) total = (std::size_t)h.val; else { for(;;){ if(buf_[q]==0xFF) break; auto ch = read_head(q); total += (std::size_t)ch.val; q += ch.hlen + (std::size_t)ch.val; } }
-            os << t << "[size=" << total << "]";
-        } else if (h.major==4) {
-            os << t << " [\n"; std::size_t n = arraySize(); std::size_t e = p + h.hlen; for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, e, pad+2); if (i+1<n) os << ","; os << "\n"; e = skip(e);} indent(os, pad); os << ']';
+        else if (h.major==3) { os << t << "|\"" << CborDeserializer(buf_, p).asString() << '"'; }
+        else if (h.major==2) { os << t << "[size=" << CborDeserializer(buf_, p).asBlobVec().size() << "]"; }
+        else if (h.major==4) {
+            os << t << " [\n"; const std::size_t n = CborDeserializer(buf_, p).arraySize();
+            for (std::size_t i=0;i<n;++i){ indent(os, pad+2); dump_rec(os, q, pad+2); if (i+1<n) os << ","; os << "\n"; q = skip(q);} indent(os, pad); os << ']';
         } else if (h.major==5) {
-            os << t << " {\n"; std::size_t q2 = p + h.hlen; std::size_t count = h.indefinite ? arraySize() : (std::size_t)h.val; // rough
-            std::size_t i=0; while (true){ if (h.indefinite && buf_[q2]==0xFF) { q2++; break; } indent(os, pad+2); os << '"' << CborDeserializer(buf_, q2).asString() << "\": "; q2 = skip(q2); dump_rec(os, q2, pad+2); q2 = skip(q2); if (++i < count) os << ","; os << "\n"; if (!h.indefinite && i>=count) break; }
+            os << t << " {\n"; std::size_t n = 0; for (auto k : CborDeserializer(buf_, p).mapKeys()) { (void)k; ++n; }
+            for (std::size_t i=0;i<n;++i){ indent(os, pad+2); os << '"' << CborDeserializer(buf_, q).asString() << "\": "; q = skip(q); dump_rec(os, q, pad+2); q = skip(q); if (i+1<n) os << ","; os << "\n"; }
             indent(os, pad); os << '}';
         } else {
             os << t;
-- 
2.43.0


From ec51b40247497e7ba3ae922715b00c1bfee5867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:14 +0000
Subject: [PATCH 10/36] fix: xt::serialize wrote the wrong elements for
 column-major arrays and views

It wrote size() elements from data() on, ignoring the layout, strides and
offset of its argument.
---
 include/zerialize/tensor/xtensor.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 0a82e38..6d81dfa 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -21,6 +21,24 @@ namespace xt {
 
 template <zerialize::HasDataAndSize X, zerialize::Writer W>
 void serialize(const X& t, W& w) {
+    // The payload is the elements in row-major order, back to back. Column-major
+    // arrays and views with an offset or gaps are first evaluated into that form.
+    if constexpr (requires { t.strides(); t.data_offset(); }) {
+        const auto& shape = t.shape();
+        const auto& strides = t.strides();
+        bool dense = t.data_offset() == 0;
+        std::size_t step = 1;
+        for (std::size_t i = shape.size(); dense && i-- > 0; ) {
+            const auto dim = static_cast<std::size_t>(shape[i]);
+            dense = dim == 1 || strides[i] == static_cast<std::ptrdiff_t>(step);
+            step *= dim;
+        }
+        if (!dense && t.size() > 0) {
+            const xt::xarray<typename X::value_type, xt::layout_type::row_major> copy(t);
+            serialize(copy, w);
+            return;
+        }
+    }
     zerialize::zvec(
         zerialize::tensor_dtype_index<typename X::value_type>,
         zerialize::shape_of_sizet(t.shape()),
-- 
2.43.0


From 88a5b51a785d7f28b07af44bf4cce7371d199083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:14 +0000
Subject: [PATCH 11/36] fix: tensor size checks could be passed by a shape
 whose byte size wraps to 0

E.g. a double matrix of shape [2^31, 2^30] with an empty blob was accepted
and viewed as if its elements were there.
---
 include/zerialize/tensor/eigen.hpp   | 8 +++++---
 include/zerialize/tensor/xtensor.hpp | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 9145157..20675aa 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -154,10 +154,12 @@ EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& b
     };
     auto bytes = to_span(blob);
 
-    const std::size_t expected = rows * cols * sizeof(T);
-    if (bytes.size() != expected) {
+    // rows and cols are 32-bit, so their product fits; times sizeof(T) it might not.
+    const std::size_t expected = rows * cols;
+    if (bytes.size() % sizeof(T) != 0 || bytes.size() / sizeof(T) != expected) {
         throw DeserializationError(
-            "asEigenMatrixView expected " + std::to_string(expected) + " bytes, but found " + std::to_string(bytes.size())
+            "asEigenMatrixView expected " + std::to_string(expected) + " elements of " + std::to_string(sizeof(T)) +
+            " bytes, but found " + std::to_string(bytes.size()) + " bytes"
         );
     }
 
diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 6d81dfa..a4347cf 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -165,10 +165,11 @@ XTensorView<T> asXTensorView(const Reader auto& buf) {
 
     // Validate payload size to avoid reading off the end, truncating, or leaving elements uninitialized.
     const std::size_t element_count = checked_element_count(vshape);
-    const std::size_t expected_bytes = element_count * sizeof(T);
-    if (bytes.size() != expected_bytes) {
+    // (compared by division: element_count * sizeof(T) could wrap around)
+    if (bytes.size() % sizeof(T) != 0 || bytes.size() / sizeof(T) != element_count) {
         throw DeserializationError(
-            "asXTensorView expected " + std::to_string(expected_bytes) + " bytes, but found " + std::to_string(bytes.size())
+            "asXTensorView expected " + std::to_string(element_count) + " elements of " + std::to_string(sizeof(T)) +
+            " bytes, but found " + std::to_string(bytes.size()) + " bytes"
         );
     }
 
-- 
2.43.0


From ab3b69d419bdbae9d645d8a32391be11f5f0ab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:29 +0000
Subject: [PATCH 12/36] fix: isTensor() threw for integers outside int8 and did
 not compile for map tensors

It is a predicate: a first element of 300 makes the value not a tensor. The
TensorIsMap form initialised a std::set from a key range, which is ill-formed
(and <set> was not included).
---
 include/zerialize/tensor/utils.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 58e1336..6a3cd55 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <zerialize/zerialize.hpp>
+#include <algorithm>
 #include <complex>
+#include <iterator>
 #include <limits>
 
 // boooo... xtensor dependency...
@@ -139,16 +141,15 @@ template <typename T, bool TensorIsMap=false>
 bool isTensor(const Reader auto& buf) {
     if constexpr (TensorIsMap) {
         if (!buf.isMap()) return false;
-        std::set<std::string_view> keys = buf.mapKeys();
         return 
-            keys.contains(ShapeKey) && buf[ShapeKey].isArray() && 
-            keys.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt8() == tensor_dtype_index<T> &&
-            keys.contains(DataKey) && buf[DataKey].isBlob();
+            buf.contains(ShapeKey) && buf[ShapeKey].isArray() && 
+            buf.contains(DTypeKey) && buf[DTypeKey].isInt() && buf[DTypeKey].asInt64() == tensor_dtype_index<T> &&
+            buf.contains(DataKey) && buf[DataKey].isBlob();
     } else {
         if (!buf.isArray()) return false;
         if (buf.arraySize() < 3) return false;
         return 
-            buf[0].isInt() && buf[0].asInt8() == tensor_dtype_index<T> &&
+            buf[0].isInt() && buf[0].asInt64() == tensor_dtype_index<T> &&
             buf[1].isArray() && 
             buf[2].isBlob();
     }
-- 
2.43.0


From 82eb0564ffa5e816c69fc5836c613ce453ac1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:25 +0000
Subject: [PATCH 13/36] fix: ZBuffer aborted on an empty deleter and kept its
 size after being moved from

The documented invalid_argument for an empty deleter was thrown after the
pointer had been handed to a unique_ptr, whose destructor then called the
empty function during unwinding (std::terminate); for char*/void* pointers
the empty deleter was hidden by its wrapper. A moved-from managed buffer
reported size() > 0 with data() == nullptr. Also include what is used.
---
 include/zerialize/zbuffer.hpp | 48 +++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 103cc40..91d7c62 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -2,8 +2,14 @@
 
 #include <iomanip>
 #include <cctype>
+#include <cstddef>
+#include <cstdint>
+#include <cstdlib>
+#include <memory>
+#include <stdexcept>
 #include <string>
 #include <sstream>
+#include <utility>
 #include <vector>
 #include <span>
 #include <variant>
@@ -95,11 +101,31 @@ private:
 
         // Default constructor needed for variant default construction (if needed)
         ManagedPtr() = default;
+
+        // A moved-from buffer is empty.
+        ManagedPtr(ManagedPtr&& o) noexcept
+            : ptr(std::move(o.ptr)), count(std::exchange(o.count, 0)) {}
+        ManagedPtr& operator=(ManagedPtr&& o) noexcept {
+            ptr = std::move(o.ptr);
+            count = std::exchange(o.count, 0);
+            return *this;
+        }
     };
 
     // --- Variant holding the active storage strategy ---
     std::variant<Ownedvector, ManagedPtr> storage_;
 
+    // Adapts a deleter for T* to uint8_t*; an empty one stays empty.
+    template<class T>
+    static std::function<void(uint8_t*)> wrap_deleter(std::function<void(T*)> d) {
+        if (!d) return nullptr;
+        return [d = std::move(d)](uint8_t* ptr_to_delete) {
+            if (ptr_to_delete) { // Avoid casting/deleting null
+                d(static_cast<T*>(static_cast<void*>(ptr_to_delete)));
+            }
+        };
+    }
+
 public:
     // --- Constructors ---
 
@@ -114,40 +140,30 @@ public:
 
     // Constructor taking ownership of a raw uint8_t* pointer with a custom deleter.
     // The deleter MUST correctly free the provided pointer.
+    // If the arguments are invalid, throws without taking ownership.
     ZBuffer(uint8_t* data_to_own, size_t size, std::function<void(uint8_t*)> deleter)
-        : storage_(std::in_place_type<ManagedPtr>, data_to_own, size, std::move(deleter))
+        : storage_(std::in_place_type<Ownedvector>)
     {
         if (size > 0 && data_to_own == nullptr) {
             throw std::invalid_argument("ZBuffer: Non-zero size requires a non-null pointer");
         }
-        if (!std::get<ManagedPtr>(storage_).ptr.get_deleter()) { // Check if deleter is valid (!= nullptr)
+        if (!deleter) { // Check if deleter is valid (!= nullptr)
             throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
         }
+        storage_.emplace<ManagedPtr>(data_to_own, size, std::move(deleter));
     }
 
     // Constructor taking ownership of a raw char* pointer with a custom deleter.
     // The provided deleter should expect a char*.
     ZBuffer(char* data_to_own, size_t size, std::function<void(char*)> char_deleter)
         // Delegate to the uint8_t* constructor, wrapping the deleter
-        : ZBuffer(reinterpret_cast<uint8_t*>(data_to_own), size,
-            // Create a lambda that captures the original char* deleter
-            // and performs the cast back before calling it.
-            [cd = std::move(char_deleter)](uint8_t* ptr_to_delete) {
-                if (ptr_to_delete) { // Avoid casting/deleting null
-                    cd(reinterpret_cast<char*>(ptr_to_delete));
-                }
-            }) // End of arguments to delegating constructor
+        : ZBuffer(reinterpret_cast<uint8_t*>(data_to_own), size, wrap_deleter<char>(std::move(char_deleter)))
     {}
 
     // Constructor taking ownership of a raw void* pointer with a custom *void* deleter
     // Useful for C APIs returning void* (like from malloc).
     ZBuffer(void* data_to_own, size_t size, std::function<void(void*)> void_deleter)
-        : ZBuffer(static_cast<uint8_t*>(data_to_own), size,
-            [vd = std::move(void_deleter)](uint8_t* ptr_to_delete) {
-                if (ptr_to_delete) {
-                    vd(static_cast<void*>(ptr_to_delete)); // Cast back to void* for deleter
-                }
-            })
+        : ZBuffer(static_cast<uint8_t*>(data_to_own), size, wrap_deleter<void>(std::move(void_deleter)))
     {}
 
     // Delete copy constructor and assignment - ZBuffer manages unique ownership
-- 
2.43.0


From 0c7f16bbd4cef0145a2926dc2b06adb87c34b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:57 +0000
Subject: [PATCH 14/36] fix: nested standard containers did not compile with
 the Zera and Flex writers

A container overload only saw those declared above it (std::vector<std::map>,
std::list<std::vector>, ...); argument-dependent lookup does not reach
namespace zerialize for writers that live in a nested namespace.
---
 include/zerialize/internals/serializers.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/internals/serializers.hpp b/include/zerialize/internals/serializers.hpp
index ad2b73e..696b401 100644
--- a/include/zerialize/internals/serializers.hpp
+++ b/include/zerialize/internals/serializers.hpp
@@ -52,7 +52,14 @@ template<Writer W> void serialize(const std::string& v, W& w) { w.string(v); }
 template<Writer W> void serialize(const std::vector<std::byte>& v, W& w) { w.binary(v); }
 template<Writer W> void serialize(std::span<const std::byte> v, W& w) { w.binary(v); }
 
-// Containers
+// Containers. All are declared first, so that each can hold any of the others.
+template<Writer W, class T> void serialize(const std::list<T>& l, W& w);
+template<Writer W, class T> void serialize(const std::vector<T>& vec, W& w);
+template<Writer W, class T, size_t N> void serialize(const std::array<T, N>& arr, W& w);
+template<Writer W, class T> void serialize(std::initializer_list<T> list, W& w);
+template<Writer W, class K, class V> void serialize(const std::map<K, V>& map, W& w);
+template<Writer W, class K, class V> void serialize(const std::unordered_map<K, V>& map, W& w);
+
 template<Writer W, class T>
 void serialize(const std::list<T>& l, W& w) {
     w.begin_array(l.size());
-- 
2.43.0


From 09d973efd06619218c150c643080d034666feef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 15/36] fix: stored zvec/zmap builders referred to destroyed
 temporaries

'auto b = zvec(std::string("x"), zmap<"k">(1)); serialize<P>(b);' kept
references to its temporary arguments, contrary to the comment.
---
 include/zerialize/zbuilders.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/zbuilders.hpp b/include/zerialize/zbuilders.hpp
index 8c64d33..ac1f2e1 100644
--- a/include/zerialize/zbuilders.hpp
+++ b/include/zerialize/zbuilders.hpp
@@ -55,8 +55,9 @@ struct BuilderWrapper {
 template<typename... Ts>
 constexpr auto zvec(Ts&&... xs)
 {
-    // Capture by value with perfect forwarding into a tuple.
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    // Capture temporaries by value (lvalues by reference), so that the builder can be
+    // stored and outlive the full expression that created it.
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         w.begin_array(sizeof...(Ts));
@@ -91,7 +92,7 @@ constexpr auto zmap(Ts&&... xs)
     static_assert(sizeof...(Keys) == sizeof...(Ts),
                   "zmap: number of keys must match number of values");
 
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         constexpr std::size_t N = sizeof...(Keys);
-- 
2.43.0


From 228e5f329ddd4641636675d9d083d6e01ebe8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 16/36] fix: json writer rejected the empty object key

The empty string doubled as the 'no key pending' marker, so {"": 1} could be
neither written nor translated to JSON.
---
 include/zerialize/protocols/json.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index b4d9c12..d590603 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -8,8 +8,10 @@
 #include <limits>
 #include <cstddef>
 #include <cstdint>
+#include <optional>
 #include <type_traits>
 #include <utility>
+#include <vector>
 #include <yyjson.h>
 #include <zerialize/zbuffer.hpp>
 #include <zerialize/errors.hpp>
@@ -259,7 +261,7 @@ struct RootSerializer {
     struct Ctx {
         enum K { Arr, Obj } k;
         yyjson_mut_val* node;        // array or object node
-        std::string pending_key;     // for objects: set by key(), consumed by next value
+        std::optional<std::string> pending_key{}; // for objects: set by key(), consumed by next value
     };
     std::vector<Ctx> st;
 
@@ -337,7 +339,7 @@ struct Serializer {
     }
     void end_map() {
         ensure_in(RootSerializer::Ctx::Obj, "end_map");
-        if (!r->st.back().pending_key.empty())
+        if (r->st.back().pending_key)
             throw std::logic_error("end_map() while awaiting value for key()");
         r->st.pop_back();
     }
@@ -345,9 +347,9 @@ struct Serializer {
     void key(std::string_view k) {
         ensure_in(RootSerializer::Ctx::Obj, "key");
         auto& c = r->st.back();
-        if (!c.pending_key.empty())
+        if (c.pending_key)
             throw std::logic_error("key() called twice without value");
-        c.pending_key.assign(k.data(), k.size());
+        c.pending_key.emplace(k);
      }
 
 private:
@@ -373,28 +375,28 @@ private:
 
             // current: c.pending_key holds a std::string we set in key()
             // auto& c = r->st.back();
-            if (c.pending_key.empty())
+            if (!c.pending_key)
                 throw std::logic_error("value added to object without key()");
     
             // optional sanity check during debug
             #ifndef NDEBUG
-            if (c.pending_key.find('\0') != std::string::npos) {
+            if (c.pending_key->find('\0') != std::string::npos) {
                 throw std::logic_error("embedded NUL in key() input");
             }
             #endif
     
             // EITHER use the convenience helper if your yyjson has it:
             #if defined(YYJSON_VERSION_HEX) && (YYJSON_VERSION_HEX >= 0x000e00) // 0.14.0+
-            if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key.c_str(), v))
+            if (!yyjson_mut_obj_add_str(doc(), c.node, c.pending_key->c_str(), v))
                 throw std::bad_alloc{};
             #else
             // OR the portable two-step using a *cpy* string node (always null-terminated):
-            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key.c_str());
+            yyjson_mut_val* k = yyjson_mut_strcpy(doc(), c.pending_key->c_str());
             if (!k || !yyjson_mut_obj_add(c.node, k, v))
                 throw std::bad_alloc{};
             #endif
     
-            c.pending_key.clear();
+            c.pending_key.reset();
     }
     }
 
-- 
2.43.0


From ec16d1dea8763e6a0b30610deca4642cf4630a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 17/36] fix: json writer kept pointers to the caller's strings
 until finish()

A serialize() overload that emits a temporary string, or translate() from a
reader returning a temporary, wrote whatever was at that address later.
---
 include/zerialize/protocols/json.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index d590603..7c02456 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -304,7 +304,9 @@ struct Serializer {
     void uint64(std::uint64_t v){ push_value(yyjson_mut_uint(doc(), v)); }
     void double_(double v)      { push_value(yyjson_mut_real(doc(), v)); }
     void string(std::string_view sv) {
-        push_value(yyjson_mut_strn(doc(), sv.data(), sv.size()));
+        // Copied: the document is only written out by finish(), when the caller's
+        // characters may be gone.
+        push_value(yyjson_mut_strncpy(doc(), sv.data(), sv.size()));
     }
     // Encode binary as array of 0..255
     void binary(std::span<const std::byte> b) {
-- 
2.43.0


From fa35184eca341817a08f24b101e9129d5e93de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:33 +0000
Subject: [PATCH 18/36] fix: json writer leaked its document when serialization
 threw

---
 include/zerialize/protocols/json.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 7c02456..68fb8ec 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -269,6 +269,10 @@ struct RootSerializer {
         if (!doc) throw std::bad_alloc{};
     }
 
+    ~RootSerializer() { if (doc) yyjson_mut_doc_free(doc); }
+    RootSerializer(const RootSerializer&) = delete;
+    RootSerializer& operator=(const RootSerializer&) = delete;
+
     // Consume and produce the final buffer.
     ZBuffer finish() {
         if (!root) {
-- 
2.43.0


From 23105659da2cde9d868fc204e323ac0f9dbdde24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:59 +0000
Subject: [PATCH 19/36] fix: json writer threw bad_alloc for a
 default-constructed (null) string_view

---
 include/zerialize/protocols/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 68fb8ec..b623b83 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -310,7 +310,7 @@ struct Serializer {
     void string(std::string_view sv) {
         // Copied: the document is only written out by finish(), when the caller's
         // characters may be gone.
-        push_value(yyjson_mut_strncpy(doc(), sv.data(), sv.size()));
+        push_value(yyjson_mut_strncpy(doc(), sv.empty() ? "" : sv.data(), sv.size()));
     }
     // Encode binary as array of 0..255
     void binary(std::span<const std::byte> b) {
-- 
2.43.0


From fbadec4c17c8da0ae21b6ec14f0cbc641d606c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:14 +0000
Subject: [PATCH 20/36] fix: translating a deeply nested or self-referential
 message overflowed the stack

A 60-byte Zera message whose array contains itself crashed translate().
---
 include/zerialize/translate.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/translate.hpp b/include/zerialize/translate.hpp
index 05f688c..bbc6b2f 100644
--- a/include/zerialize/translate.hpp
+++ b/include/zerialize/translate.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <zerialize/concepts.hpp>
+#include <zerialize/errors.hpp>
 
 namespace zerialize {
 
@@ -29,8 +30,14 @@ namespace zerialize {
  */
 
 // ==== Generic bridge: Reader -> Writer ===============================
+// Nesting deeper than this is refused: a (corrupt or malicious) message can be nested
+// without bound, or even contain itself, and the walk below is recursive.
+inline constexpr std::size_t MaxTranslateDepth = 1024;
+
 template<class V, class W>
-inline void write_value(const V& v, W& w) {
+inline void write_value(const V& v, W& w, std::size_t depth = 0) {
+    if (depth > MaxTranslateDepth) throw DeserializationError("write_value: value is nested too deeply");
+
     if (v.isNull())      { w.null(); return; }
     if (v.isBool())      { w.boolean(v.asBool()); return; }
     if (v.isInt())       { w.int64(v.asInt64()); return; }
@@ -53,7 +60,7 @@ inline void write_value(const V& v, W& w) {
         w.begin_map(count);
         for (std::string_view k : v.mapKeys()) {
             w.key(std::string(k));
-            write_value(v[k], w);
+            write_value(v[k], w, depth + 1);
         }
         w.end_map();
         return;
@@ -62,7 +69,7 @@ inline void write_value(const V& v, W& w) {
     if (v.isArray()) {
         const std::size_t n = v.arraySize();
         w.begin_array(n);
-        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w);
+        for (std::size_t i = 0; i < n; ++i) write_value(v[i], w, depth + 1);
         w.end_array();
         return;
     }
-- 
2.43.0


From c67b36d576aa8a3e1d4992041d6313da8c4c848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:28 +0000
Subject: [PATCH 21/36] fix: msgpack writer ignored failed writes and returned
 a truncated message

When the buffer could not grow, the value was dropped silently.
---
 include/zerialize/protocols/msgpack.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 202e4dc..7386706 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -535,30 +535,33 @@ public:
 
 class MsgPackSerializer {
     msgpack_packer& pk_;
+
+    // msgpack-c reports a failed write (out of memory) by a non-zero result.
+    static void check(int rc) { if (rc != 0) throw SerializationError("msgpack: write failed (out of memory)"); }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
     // primitives
-    void null()                 { msgpack_pack_nil(&pk_); }
-    void boolean(bool v)        { v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_); }
-    void int64(std::int64_t v)  { msgpack_pack_int64(&pk_, v); }
-    void uint64(std::uint64_t v){ msgpack_pack_uint64(&pk_, v); }
-    void double_(double v)      { msgpack_pack_double(&pk_, v); }
+    void null()                 { check(msgpack_pack_nil(&pk_)); }
+    void boolean(bool v)        { check(v ? msgpack_pack_true(&pk_) : msgpack_pack_false(&pk_)); }
+    void int64(std::int64_t v)  { check(msgpack_pack_int64(&pk_, v)); }
+    void uint64(std::uint64_t v){ check(msgpack_pack_uint64(&pk_, v)); }
+    void double_(double v)      { check(msgpack_pack_double(&pk_, v)); }
     void string(std::string_view sv) {
-        msgpack_pack_str(&pk_, sv.size());
-        msgpack_pack_str_body(&pk_, sv.data(), sv.size());
+        check(msgpack_pack_str(&pk_, sv.size()));
+        check(msgpack_pack_str_body(&pk_, sv.data(), sv.size()));
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        msgpack_pack_bin(&pk_, b.size());
-        msgpack_pack_bin_body(&pk_, p, b.size());
+        check(msgpack_pack_bin(&pk_, b.size()));
+        check(msgpack_pack_bin_body(&pk_, p, b.size()));
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, n); }
+    void begin_array(std::size_t n) { check(msgpack_pack_array(&pk_, n)); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, n); }
+    void begin_map(std::size_t n)   { check(msgpack_pack_map(&pk_, n)); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From e394dbbd7c55267290e59d8e47f9040a53527672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:06 +0000
Subject: [PATCH 22/36] fix: dynamic.hpp did not compile when included before
 zerialize.hpp, as the README does

---
 include/zerialize/dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zerialize/dynamic.hpp b/include/zerialize/dynamic.hpp
index 3eda3c4..8fb79e6 100644
--- a/include/zerialize/dynamic.hpp
+++ b/include/zerialize/dynamic.hpp
@@ -14,6 +14,7 @@
 #include <functional>
 
 #include <zerialize/concepts.hpp>
+#include <zerialize/internals/serializers.hpp>
 
 namespace zerialize::dyn {
 
-- 
2.43.0


From 682ce666c12ad9e3641ea03dab7ef5555c36f228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:03 +0000
Subject: [PATCH 23/36] fix: zera reader truncated envelope offsets to 32 bits,
 so a huge index read an unrelated value

---
 include/zerialize/protocols/zera.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 81635c2..3f6015f 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -195,10 +195,10 @@ protected:
         return std::span<const std::byte>(reinterpret_cast<const std::byte*>(arena_ + ofs), len);
     }
 
-    const std::uint8_t* env_ptr_at(std::uint32_t ofs, std::size_t need) const {
+    const std::uint8_t* env_ptr_at(std::size_t ofs, std::size_t need) const {
         require(ofs <= env_size_, "zera: envelope offset out of bounds");
         require(need <= env_size_, "zera: envelope need out of bounds");
-        require(std::size_t(ofs) + need <= env_size_, "zera: envelope span out of bounds");
+        require(need <= env_size_ - ofs, "zera: envelope span out of bounds");
         return env_ + ofs;
     }
 
@@ -416,14 +416,14 @@ public:
         const std::uint32_t count = read_u32_le(p);
         std::size_t ofs = obj_ofs + 4;
         for (std::uint32_t i = 0; i < count; ++i) {
-            const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+            const auto* e = env_ptr_at(ofs, 4);
             const std::uint16_t key_len = read_u16_le(e);
             (void)read_u16_le(e + 2); // reserved
-            const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
+            const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
             if (key_len == key.size() &&
                 std::memcmp(key_bytes, key.data(), key.size()) == 0) return true;
             ofs += 4 + std::size_t(key_len) + 16;
-            (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+            (void)env_ptr_at(ofs, 0);
         }
         return false;
     }
@@ -466,7 +466,7 @@ inline ZeraValue ZeraViewBase::operator[](std::size_t idx) const {
     const std::uint32_t count = read_u32_le(p);
     require(idx < count, "zera: array index out of bounds");
     const std::size_t elem_ofs = std::size_t(arr_ofs) + 4 + 16 * idx;
-    const auto* vr = env_ptr_at(static_cast<std::uint32_t>(elem_ofs), 16);
+    const auto* vr = env_ptr_at(elem_ofs, 16);
     return ZeraValue(*this, vr);
 }
 
@@ -478,16 +478,16 @@ inline ZeraValue ZeraViewBase::operator[](std::string_view key) const {
     const std::uint32_t count = read_u32_le(p);
     std::size_t ofs = obj_ofs + 4;
     for (std::uint32_t i = 0; i < count; ++i) {
-        const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+        const auto* e = env_ptr_at(ofs, 4);
         const std::uint16_t key_len = read_u16_le(e);
         (void)read_u16_le(e + 2); // reserved
-        const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
-        const auto* value_vr = env_ptr_at(static_cast<std::uint32_t>(ofs + 4 + key_len), 16);
+        const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
+        const auto* value_vr = env_ptr_at(ofs + 4 + key_len, 16);
         if (key_len == key.size() && std::memcmp(key_bytes, key.data(), key.size()) == 0) {
             return ZeraValue(*this, value_vr);
         }
         ofs += 4 + std::size_t(key_len) + 16;
-        (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+        (void)env_ptr_at(ofs, 0);
     }
     throw DeserializationError("zera: key not found: " + std::string(key));
 }
-- 
2.43.0


From 6132efe988d48b3957c71b2594eb5d35ac37a7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:27 +0000
Subject: [PATCH 24/36] fix: flex reader saw typed and fixed-size typed vectors
 as empty arrays and key values as nothing

---
 include/zerialize/protocols/flex.hpp | 39 ++++++++++++++++++----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index a43430b..eaaf5cf 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -130,6 +130,15 @@ protected:
         return isUInt() ? static_cast<T>(ref_.AsUInt64()) : static_cast<T>(ref_.AsInt64());
     }
 
+    // Calls f with the elements of an array value, whichever of the FlexBuffers
+    // vector encodings (untyped, typed, fixed-size typed) it is stored as.
+    template<class F>
+    static auto with_elements(const ::flexbuffers::Reference& r, F&& f) {
+        if (r.IsTypedVector())      return f(r.AsTypedVector());
+        if (r.IsFixedTypedVector()) return f(r.AsFixedTypedVector());
+        return f(r.AsVector());
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -165,7 +174,7 @@ protected:
         if (r.IsInt())    return "int";
         if (r.IsUInt())   return "uint";
         if (r.IsFloat())  return "float";
-        if (r.IsString()) return "str";
+        if (r.IsString() || r.IsKey()) return "str";
         if (r.IsBlob())   return "blob";
         if (r.IsMap())    return "map";
         if (r.IsAnyVector()) return "arr";
@@ -184,7 +193,7 @@ protected:
             os << t << "|" << r.AsUInt64();
         } else if (r.IsFloat()) {
             os << t << "|" << r.AsDouble();
-        } else if (r.IsString()) {
+        } else if (r.IsString() || r.IsKey()) {
             auto sv = r.AsString();
             os << t << "|\"" << json_escape(std::string_view(sv.c_str(), sv.size())) << '"';
         } else if (r.IsBlob()) {
@@ -207,13 +216,14 @@ protected:
             os << '}';
         } else if (r.IsAnyVector()) {
             os << t << " [\n";
-            auto v = r.AsVector();
-            for (size_t i = 0; i < v.size(); ++i) {
-                indent(os, pad + 2);
-                dump_rec(os, v[i], pad + 2);
-                if (i + 1 < v.size()) os << ',';
-                os << '\n';
-            }
+            with_elements(r, [&](const auto& v) {
+                for (size_t i = 0; i < v.size(); ++i) {
+                    indent(os, pad + 2);
+                    dump_rec(os, v[i], pad + 2);
+                    if (i + 1 < v.size()) os << ',';
+                    os << '\n';
+                }
+            });
             indent(os, pad);
             os << ']';
         } else {
@@ -228,7 +238,7 @@ public:
     bool isInt()    const { return ref_.IsInt(); }
     bool isUInt()   const { return ref_.IsUInt(); }
     bool isFloat()  const { return ref_.IsFloat(); }
-    bool isString() const { return ref_.IsString(); }
+    bool isString() const { return ref_.IsString() || ref_.IsKey(); } // keys are NUL-terminated strings
     bool isBlob()   const { return ref_.IsBlob(); }
     bool isMap()    const { return ref_.IsMap(); }
     bool isArray()  const { return ref_.IsAnyVector() && !ref_.IsMap(); }
@@ -313,7 +323,7 @@ public:
 
     std::size_t arraySize() const {
         require(isArray(), "not an array");
-        return ref_.AsVector().size();
+        return with_elements(ref_, [](const auto& v) -> std::size_t { return v.size(); });
     }
 
     // Declarations (defined after FlexValue is declared)
@@ -360,9 +370,10 @@ inline FlexValue FlexViewBase::operator[](std::string_view key) const {
 
 inline FlexValue FlexViewBase::operator[](std::size_t idx) const {
     require(isArray(), "not an array");
-    auto v = ref_.AsVector();
-    require(idx < v.size(), "index out of bounds");
-    return FlexValue(v[idx]);
+    return with_elements(ref_, [&](const auto& v) {
+        require(idx < v.size(), "index out of bounds");
+        return FlexValue(v[idx]);
+    });
 }
 
 class FlexDeserializer : public FlexViewBase {
-- 
2.43.0


From c66b9958ce0585d4a91fa85a60cc1f5fb328f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:43 +0000
Subject: [PATCH 25/36] fix: printing a deeply nested message overflowed the
 stack

---
 include/zerialize/errors.hpp            | 3 +++
 include/zerialize/protocols/cbor.hpp    | 1 +
 include/zerialize/protocols/flex.hpp    | 1 +
 include/zerialize/protocols/msgpack.hpp | 1 +
 4 files changed, 6 insertions(+)

diff --git a/include/zerialize/errors.hpp b/include/zerialize/errors.hpp
index d00fade..e347466 100644
--- a/include/zerialize/errors.hpp
+++ b/include/zerialize/errors.hpp
@@ -8,6 +8,9 @@
 
 namespace zerialize {
 
+// Values nested deeper than this are elided by the readers' to_string().
+inline constexpr int MaxPrintDepth = 1024;
+
 class SerializationError : public std::runtime_error {
 public:
     SerializationError(const std::string& msg) : std::runtime_error(msg) { }
diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 7378f2a..9c0b578 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -510,6 +510,7 @@ private:
         }
     }
     void dump_rec(std::ostringstream& os, std::size_t p, int pad) const {
+        if (pad > 2 * MaxPrintDepth) { os << "..."; return; } // do not exhaust the stack
         auto h = read_head(p); auto t = type_code(p); std::size_t q = p + h.hlen;
         if (h.major==0) { os << t << '|' << h.val; }
         else if (h.major==1) { long long x = -1 - (long long)h.val; os << t << '|' << x; }
diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index eaaf5cf..737482f 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -182,6 +182,7 @@ protected:
     }
 
     static void dump_rec(std::ostringstream& os, const ::flexbuffers::Reference& r, int pad) {
+        if (pad > 2 * MaxPrintDepth) { os << "..."; return; } // do not exhaust the stack
         auto t = type_code(r);
         if (r.IsNull()) {
             os << t << "|null";
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 7386706..cc130a0 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -172,6 +172,7 @@ class MsgPackDeserializer {
     }
     static void dump(std::ostringstream& os, const MsgPackDeserializer& v, int pad) {
         auto ind = [&](int n){ for(int i=0;i<n;++i) os.put(' '); };
+        if (pad > 2 * MaxPrintDepth) { os << "..."; return; } // do not exhaust the stack
         if (v.isNull()) { os << "null: null"; return; }
         if (v.isBool()) { os << "bool: " << (v.asBool()?"true":"false"); return; }
         if (v.isInt())  { os << "int: "  << v.asInt64(); return; }
-- 
2.43.0


From 9b830bd07e4c0edb79e9aa96f0e41aa398fa6651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:58 +0000
Subject: [PATCH 26/36] fix: refuse to serialize tensor dimensions that do not
 fit the shape's element type

---
 include/zerialize/tensor/utils.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 6a3cd55..30f03b9 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -80,7 +80,12 @@ inline TensorShape shape_of_sizet(const auto& tshape) {
     TensorShape shape;
     shape.reserve(tshape.size());
     std::transform(tshape.begin(), tshape.end(), std::back_inserter(shape),
-        [](auto x) { return static_cast<TensorShapeElement>(x); });
+        [](auto x) {
+            if (static_cast<std::size_t>(x) > std::numeric_limits<TensorShapeElement>::max()) {
+                throw SerializationError("tensor dimension exceeds TensorShapeElement range");
+            }
+            return static_cast<TensorShapeElement>(x);
+        });
     return shape;
 }
 
-- 
2.43.0


From 56375e1fdd90e54e940f7b18cdd3d44a1c8e7031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:58 +0000
Subject: [PATCH 27/36] fix: reject empty tensors whose other extents overflow
 xtensor's strides

---
 include/zerialize/tensor/xtensor.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index a4347cf..116905f 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -110,16 +110,18 @@ private:
 // Multiply all dimensions (with overflow checking) to get total element count.
 // This is used for validating that the blob size matches prod(shape) * sizeof(T).
 inline std::size_t checked_element_count(const TensorShape& shape) {
+    // The extents besides a zero one count as well: xtensor multiplies them (as ptrdiff_t) into strides.
     std::size_t count = 1;
+    bool empty = false;
     for (auto d : shape) {
         const std::size_t dim = static_cast<std::size_t>(d);
-        if (dim == 0) return 0;
-        if (count > (std::numeric_limits<std::size_t>::max() / dim)) {
+        if (dim == 0) { empty = true; continue; }
+        if (count > (static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / dim)) {
             throw DeserializationError("tensor element count overflow");
         }
         count *= dim;
     }
-    return count;
+    return empty ? 0 : count;
 }
 
 // Normalize the protocol-specific blob representation into a `std::span<const std::byte>`.
-- 
2.43.0


From ab18178af363641a38bbbc42e7826c1c48855ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:53 +0000
Subject: [PATCH 28/36] fix: adapt tensor views with size_t extents (a 32-bit
 zero extent overflowed xtensor's strides)

---
 include/zerialize/tensor/xtensor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 116905f..74a0025 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -81,7 +81,8 @@ public:
     // If the view is not zero-copy, it adapts the owned array storage.
     auto tensor() const {
         T* ptr = owned_ ? const_cast<T*>(owned_->data()) : const_cast<T*>(reinterpret_cast<const T*>(bytes_.data()));
-        return xt::adapt(ptr, element_count_, xt::no_ownership(), shape_);
+        // size_t extents: xtensor computes (extent - 1) * stride, which for a 32-bit zero extent is huge.
+        return xt::adapt(ptr, element_count_, xt::no_ownership(), shape_as_sizet());
     }
 
     // Returns an owning xarray (copying if this is backed by a span).
-- 
2.43.0


From 5b4b9b5a902b548e3b90a2ebf6ed69ee5eba3393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:16 +0000
Subject: [PATCH 29/36] fix: JSON finish() accepted unterminated containers and
 dangling keys as complete messages

---
 include/zerialize/protocols/json.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index b623b83..0bcc176 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -275,6 +275,7 @@ struct RootSerializer {
 
     // Consume and produce the final buffer.
     ZBuffer finish() {
+        if (!st.empty()) throw std::logic_error("finish() called with unterminated container");
         if (!root) {
             root = yyjson_mut_null(doc);
             yyjson_mut_doc_set_root(doc, root);
-- 
2.43.0


From d145e48eb020c5cf444679553017f62cb02a7e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:39 +0000
Subject: [PATCH 30/36] fix: msgpack finish() leaked the message when the
 buffer object could not be allocated

---
 include/zerialize/protocols/msgpack.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index cc130a0..2fea883 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -526,11 +526,10 @@ public:
 
     ZBuffer finish() {
         if (sbuf.size == 0) return ZBuffer();
-        // steal buffer
-        size_t n = sbuf.size;
-        char*  d = sbuf.data;
+        // steal buffer (sbuf keeps it if the ZBuffer cannot be made)
+        ZBuffer out(sbuf.data, sbuf.size, ZBuffer::Deleters::Free);
         sbuf.data = nullptr; sbuf.size = 0; sbuf.alloc = 0;
-        return ZBuffer(d, n, ZBuffer::Deleters::Free);
+        return out;
     }
 };
 
-- 
2.43.0


From 8d34ba5d996560f5e0434ff3a4cb5dfd53e8e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:53 +0000
Subject: [PATCH 31/36] fix: printing a message truncated the text silently
 when memory ran out

---
 include/zerialize/protocols/cbor.hpp    | 4 +++-
 include/zerialize/protocols/flex.hpp    | 1 +
 include/zerialize/protocols/msgpack.hpp | 4 +++-
 include/zerialize/protocols/zera.hpp    | 1 +
 include/zerialize/zbuffer.hpp           | 1 +
 5 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 9c0b578..2d98a1a 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -497,7 +497,9 @@ public:
 
     // ---- debug ----
     std::string to_string() const {
-        std::ostringstream os; dump_rec(os, pos_, 0); return os.str();
+        std::ostringstream os;
+        os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
+        dump_rec(os, pos_, 0); return os.str();
     }
 private:
     static void indent(std::ostringstream& os, int n){ for(int i=0;i<n;++i) os.put(' ');}    
diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 737482f..9c26c69 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -333,6 +333,7 @@ public:
 
     std::string to_string() const {
         std::ostringstream os;
+        os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
         os << "Flex ";
         dump_rec(os, ref_, 0);
         return os.str();
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 2fea883..b0e8782 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -505,7 +505,9 @@ public:
 
     // ---- debug ----
     std::string to_string() const {
-        std::ostringstream os; dump(os, *this, 0); return os.str();
+        std::ostringstream os;
+        os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
+        dump(os, *this, 0); return os.str();
     }
 
     // expose raw view if you need it
diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 3f6015f..2ddf955 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -433,6 +433,7 @@ public:
 
     std::string to_string() const {
         std::ostringstream os;
+        os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
         os << "Zera(";
         const auto t = tag();
         switch (t) {
diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 91d7c62..1717984 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -254,6 +254,7 @@ public:
     // Requires <iomanip> and <cctype>.
     std::string hexdump(std::size_t bytes_per_row = 16) const {
         std::ostringstream os;
+        os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
         const uint8_t* p = data();
         const std::size_t n = size();
         if (!p || n == 0) {
-- 
2.43.0


From d7f7810c0c0432256fb5f868d4a0b4f1c145dd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:24 +0000
Subject: [PATCH 32/36] fix: json finish() leaked the text when the buffer
 object could not be allocated

---
 include/zerialize/protocols/json.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/protocols/json.hpp b/include/zerialize/protocols/json.hpp
index 0bcc176..3d9f2c7 100644
--- a/include/zerialize/protocols/json.hpp
+++ b/include/zerialize/protocols/json.hpp
@@ -8,6 +8,8 @@
 #include <limits>
 #include <cstddef>
 #include <cstdint>
+#include <cstdlib>
+#include <memory>
 #include <optional>
 #include <type_traits>
 #include <utility>
@@ -293,7 +295,10 @@ struct RootSerializer {
         // Hand ownership directly to ZBuffer to avoid a copy.
         yyjson_mut_doc_free(doc);
         doc = nullptr;
-        return ZBuffer(static_cast<void*>(s), len, ZBuffer::Deleters::Free);
+        std::unique_ptr<char, decltype(&std::free)> text(s, &std::free); // until ZBuffer has it
+        ZBuffer out(static_cast<void*>(s), len, ZBuffer::Deleters::Free);
+        text.release();
+        return out;
     }
 };
 
-- 
2.43.0


From 4939e75e79493624b13aa8daa214f37de69fe0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:26 +0000
Subject: [PATCH 33/36] fix: dumps printed their numbers in the global locale

---
 include/zerialize/protocols/cbor.hpp    | 1 +
 include/zerialize/protocols/flex.hpp    | 1 +
 include/zerialize/protocols/msgpack.hpp | 1 +
 include/zerialize/protocols/zera.hpp    | 1 +
 include/zerialize/zbuffer.hpp           | 1 +
 5 files changed, 5 insertions(+)

diff --git a/include/zerialize/protocols/cbor.hpp b/include/zerialize/protocols/cbor.hpp
index 2d98a1a..7862f75 100644
--- a/include/zerialize/protocols/cbor.hpp
+++ b/include/zerialize/protocols/cbor.hpp
@@ -498,6 +498,7 @@ public:
     // ---- debug ----
     std::string to_string() const {
         std::ostringstream os;
+        os.imbue(std::locale::classic()); // the same in every locale
         os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
         dump_rec(os, pos_, 0); return os.str();
     }
diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 9c26c69..1ea6f05 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -333,6 +333,7 @@ public:
 
     std::string to_string() const {
         std::ostringstream os;
+        os.imbue(std::locale::classic()); // the same in every locale
         os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
         os << "Flex ";
         dump_rec(os, ref_, 0);
diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index b0e8782..d70991a 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -506,6 +506,7 @@ public:
     // ---- debug ----
     std::string to_string() const {
         std::ostringstream os;
+        os.imbue(std::locale::classic()); // the same in every locale
         os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
         dump(os, *this, 0); return os.str();
     }
diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 2ddf955..e35df21 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -433,6 +433,7 @@ public:
 
     std::string to_string() const {
         std::ostringstream os;
+        os.imbue(std::locale::classic()); // the same in every locale
         os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
         os << "Zera(";
         const auto t = tag();
diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 1717984..dbfc6e5 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -254,6 +254,7 @@ public:
     // Requires <iomanip> and <cctype>.
     std::string hexdump(std::size_t bytes_per_row = 16) const {
         std::ostringstream os;
+        os.imbue(std::locale::classic()); // the same in every locale
         os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
         const uint8_t* p = data();
         const std::size_t n = size();
-- 
2.43.0


From ef9b180e5d7ba2cee51b01370d8581782960b44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 34/36] fix: flex debugging dump showed typed vectors as empty
 and indirect scalars as unknown

---
 include/zerialize/protocols/flex.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 1ea6f05..855a523 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -499,7 +499,8 @@ namespace debugging {
         std::cout << "}";
     }
 
-    static void print_vector(flexbuffers::Vector v, int indent) {
+    template<class Elements>
+    static void print_vector(const Elements& v, int indent) {
         std::cout << "[\n";
         for (size_t i = 0; i < v.size(); ++i) {
             print_indent(indent + 2);
@@ -520,9 +521,12 @@ namespace debugging {
         switch (r.GetType()) {
             case T::FBT_NULL:   std::cout << "null"; break;
             case T::FBT_BOOL:   std::cout << (r.AsBool() ? "true" : "false"); break;
-            case T::FBT_INT:    std::cout << r.AsInt64(); break;
-            case T::FBT_UINT:   std::cout << r.AsUInt64(); break;
-            case T::FBT_FLOAT:  std::cout << r.AsDouble(); break;
+            case T::FBT_INT:
+            case T::FBT_INDIRECT_INT:   std::cout << r.AsInt64(); break;
+            case T::FBT_UINT:
+            case T::FBT_INDIRECT_UINT:  std::cout << r.AsUInt64(); break;
+            case T::FBT_FLOAT:
+            case T::FBT_INDIRECT_FLOAT: std::cout << r.AsDouble(); break;
 
             // String may return a char* via .str(); wrap it so quoted works everywhere
             case T::FBT_STRING:
@@ -539,11 +543,6 @@ namespace debugging {
                 break;
 
             case T::FBT_VECTOR:
-            case T::FBT_VECTOR_INT:
-            case T::FBT_VECTOR_UINT:
-            case T::FBT_VECTOR_FLOAT:
-            case T::FBT_VECTOR_BOOL:
-            case T::FBT_VECTOR_KEY:
                 print_vector(r.AsVector(), indent);
                 break;
 
@@ -552,7 +551,10 @@ namespace debugging {
                 break;
 
             default:
-                std::cout << "<unknown>";
+                // typed vectors, of any or of a fixed size (AsVector() of one is empty)
+                if (r.IsTypedVector())           print_vector(r.AsTypedVector(), indent);
+                else if (r.IsFixedTypedVector()) print_vector(r.AsFixedTypedVector(), indent);
+                else                             std::cout << "<unknown>";
                 break;
         }
     }
-- 
2.43.0


From 7e6dda62a5f6a3a803cdcc996f6a461e44f092cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:19 +0000
Subject: [PATCH 35/36] fix: hexdump with zero bytes per row never ended

---
 include/zerialize/zbuffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index dbfc6e5..35d9b90 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -253,6 +253,9 @@ public:
     // Pretty hexdump (like `hexdump -C`): offset, hex, and ASCII column.
     // Requires <iomanip> and <cctype>.
     std::string hexdump(std::size_t bytes_per_row = 16) const {
+        if (bytes_per_row == 0) {
+            bytes_per_row = 16; // a row of no bytes would never get to the end
+        }
         std::ostringstream os;
         os.imbue(std::locale::classic()); // the same in every locale
         os.exceptions(std::ios::badbit); // out of memory: throw, do not truncate
-- 
2.43.0


From c225f0d4729b8fe779a783a828146e4855537e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 36/36] fix: fixed-size row vectors could not be read without
 naming their storage order

---
 include/zerialize/tensor/eigen.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 20675aa..95a59d8 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -33,6 +33,11 @@ void serialize(const Eigen::Matrix<T, R, C, Options>& m, W& w) {
 namespace zerialize {
 namespace eigen {
 
+// The storage order of a matrix when none is asked for: as in Eigen itself, which
+// has row vectors in row-major order only.
+template <int NRows, int NCols>
+inline constexpr int DefaultOptions = (NRows == 1 && NCols != 1) ? Eigen::RowMajor : Eigen::ColMajor;
+
 // A small "owned-or-view" wrapper for an Eigen matrix deserialized from a tensor.
 //
 // Motivation:
@@ -46,7 +51,7 @@ namespace eigen {
 //
 // Lifetime note: if `owned_` is empty, the returned object references the underlying reader storage;
 // callers must keep the reader/buffer alive as long as they use `.map()`.
-template <typename T, int NRows = Eigen::Dynamic, int NCols = Eigen::Dynamic, int Options = Eigen::ColMajor>
+template <typename T, int NRows = Eigen::Dynamic, int NCols = Eigen::Dynamic, int Options = DefaultOptions<NRows, NCols>>
 class EigenMatrixView {
 public:
     using MatrixType = Eigen::Matrix<T, NRows, NCols, Options | Eigen::DontAlign>;
@@ -102,7 +107,7 @@ private:
     std::size_t cols_ = 0;
 };
 
-template <typename T, int NRows, int NCols, bool TensorIsMap = false, int Options = Eigen::ColMajor>
+template <typename T, int NRows, int NCols, bool TensorIsMap = false, int Options = DefaultOptions<NRows, NCols>>
 EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& buf) {
     using ViewType = EigenMatrixView<T, NRows, NCols, Options>;
     using MatrixType = typename ViewType::MatrixType;
@@ -210,7 +215,7 @@ EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& b
 }
 
 // Deserialize an eigen matrix/map
-template <typename T, int NRows, int NCols, bool TensorIsMap=false, int Options=Eigen::ColMajor>
+template <typename T, int NRows, int NCols, bool TensorIsMap=false, int Options=DefaultOptions<NRows, NCols>>
 Eigen::Matrix<T, NRows, NCols, Options | Eigen::DontAlign> 
 //auto 
 asEigenMatrix(const Reader auto& buf) {
-- 
2.43.0

