From 01208235c054f18c1a4e8c3d49aca2ff9a38803b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:08 +0000
Subject: [PATCH 001/130] fix: deduce the index pack of from_index

The helper behind from_index declared its pack as int while it is
called with std::index_sequence, so no call could be compiled.
---
 src/hstd/stdlib/DynVariant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/DynVariant.hpp b/src/hstd/stdlib/DynVariant.hpp
index 3972ebe..3be70a7 100644
--- a/src/hstd/stdlib/DynVariant.hpp
+++ b/src/hstd/stdlib/DynVariant.hpp
@@ -125,7 +125,7 @@ decltype(auto) dyn_visit(Visitor&& vis, dyn_variant<Tag> const& v) {
         std::forward<Visitor>(vis), v, std::make_index_sequence<Tag::type_count>{});
 }
 
-template <typename Tag, typename Factory, int... Is>
+template <typename Tag, typename Factory, std::size_t... Is>
 dyn_variant<Tag> from_index_impl(
     int       index,
     Factory&& factory,
-- 
2.43.0


From 546634bfbeddd8b53e91ad8f9d132b5e960a3c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:48 +0000
Subject: [PATCH 002/130] fix: make neighbour access usable on const
 enumeration items

The const overloads of prev and next call a non-const helper and could
not be instantiated.
---
 src/hstd/stdlib/Enumerate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Enumerate.hpp b/src/hstd/stdlib/Enumerate.hpp
index 4e2e562..11f3a3f 100644
--- a/src/hstd/stdlib/Enumerate.hpp
+++ b/src/hstd/stdlib/Enumerate.hpp
@@ -34,7 +34,7 @@ class enumerator_impl {
                      - iterator_ref.skip_last;
             }
 
-            void check_offset(int offset) {
+            void check_offset(int offset) const {
                 int pos = index() + offset;
                 if (pos < 0 || size() <= pos) {
                     throw std::domain_error(
-- 
2.43.0


From 5560994d4d027d0635da4851f301536ea99fea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:48 +0000
Subject: [PATCH 003/130] fix: bounds check the previous element in the right
 direction

prev(n) validated the position n steps ahead, so it threw on the last
items and read before the range on the first ones.
---
 src/hstd/stdlib/Enumerate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/Enumerate.hpp b/src/hstd/stdlib/Enumerate.hpp
index 11f3a3f..3728e67 100644
--- a/src/hstd/stdlib/Enumerate.hpp
+++ b/src/hstd/stdlib/Enumerate.hpp
@@ -44,7 +44,7 @@ class enumerator_impl {
             }
 
             it_reference prev(int offset = 1) const {
-                check_offset(offset);
+                check_offset(-offset);
                 return *(iterator_ref.it - offset);
             }
 
@@ -54,7 +54,7 @@ class enumerator_impl {
             }
 
             it_reference prev(int offset = 1) {
-                check_offset(offset);
+                check_offset(-offset);
                 return *(iterator_ref.it - offset);
             }
 
-- 
2.43.0


From 59c9d5294227eb837fa60387361fdc12bcadf5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:17:48 +0000
Subject: [PATCH 004/130] fix: enumerate nothing when the skips overlap

With skip_first + skip_last larger than the sequence, end() lay before
begin() and iteration ran off the sequence.
---
 src/hstd/stdlib/Enumerate.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/Enumerate.hpp b/src/hstd/stdlib/Enumerate.hpp
index 3728e67..8847fd0 100644
--- a/src/hstd/stdlib/Enumerate.hpp
+++ b/src/hstd/stdlib/Enumerate.hpp
@@ -113,8 +113,9 @@ class enumerator_impl {
     }
 
     enumerate_iterator end() {
-        auto end = base_end;
-        std::advance(end, -std::clamp(skip_last_base, 0, base_size()));
+        auto end  = base_end;
+        int  left = base_size() - std::clamp(skip_first_base, 0, base_size());
+        std::advance(end, -std::clamp(skip_last_base, 0, left));
         return enumerate_iterator{
             .idx        = -1,
             .it         = end,
-- 
2.43.0


From 56029335585c51ab6a8280c37318fa7bc539b5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:02 +0000
Subject: [PATCH 005/130] fix: escape object keys in compact JSON output

Keys of objects broken over several lines were copied verbatim, so a
quote, backslash or control character in a key gave invalid JSON.
---
 src/hstd/stdlib/Json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Json.cpp b/src/hstd/stdlib/Json.cpp
index 5502dbc..95398b6 100644
--- a/src/hstd/stdlib/Json.cpp
+++ b/src/hstd/stdlib/Json.cpp
@@ -87,7 +87,7 @@ std::string hstd::to_compact_json(json const& j, JsonFormatOptions const& option
                     for (auto const& [key, sub] : items) {
                         result += "\n";
                         result += std::string(indent, ' ');
-                        result += "\"" + key + "\": ";
+                        result += json(key).dump() + ": ";
                         result += format(indent + options.indent, sub);
                         if (i < j.size() - 1) { result += ","; }
                         ++i;
-- 
2.43.0


From d04ff5b1a78d0d16823fdab09270f2509128cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:02 +0000
Subject: [PATCH 006/130] fix: print null values that do not fit the width

A null close to the right margin was rendered as an empty string.
---
 src/hstd/stdlib/Json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/Json.cpp b/src/hstd/stdlib/Json.cpp
index 95398b6..3bbe11b 100644
--- a/src/hstd/stdlib/Json.cpp
+++ b/src/hstd/stdlib/Json.cpp
@@ -41,6 +41,7 @@ std::string hstd::to_compact_json(json const& j, JsonFormatOptions const& option
 
                     break;
                 }
+                case json::value_t::null:
                 case json::value_t::boolean:
                 case json::value_t::number_float:
                 case json::value_t::number_integer:
-- 
2.43.0


From 0512b633d923ea3a13174752cc81b2059df17bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:52 +0000
Subject: [PATCH 007/130] fix: keep the ordinals of integers wider than int

---
 src/hstd/system/basic_templates.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/system/basic_templates.hpp b/src/hstd/system/basic_templates.hpp
index 7002f53..2ab51e9 100644
--- a/src/hstd/system/basic_templates.hpp
+++ b/src/hstd/system/basic_templates.hpp
@@ -69,7 +69,7 @@ struct value_domain<T> {
     static inline T             high() { return std::numeric_limits<T>::max(); }
     static inline T             succ(T const& val) { return val + 1; }
     static inline T             prev(T const& val) { return val - 1; }
-    static inline long long int ord(T const& val) { return static_cast<int>(val); }
+    static inline long long int ord(T const& val) { return static_cast<long long int>(val); }
 };
 
 template <typename T>
-- 
2.43.0


From 5fd2dceaf1baeb2d7d988fe988fd4e47c04bfcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:00 +0000
Subject: [PATCH 008/130] fix: saturate at the domain bounds for every operand

---
 src/hstd/system/basic_templates.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/hstd/system/basic_templates.hpp b/src/hstd/system/basic_templates.hpp
index 2ab51e9..a2acebd 100644
--- a/src/hstd/system/basic_templates.hpp
+++ b/src/hstd/system/basic_templates.hpp
@@ -125,27 +125,25 @@ struct value_domain_ungapped {
 
 template <std::integral T, std::integral Other>
 T saturating_add(T value, Other change) {
-    T res = value + change;
-    // Can only happen due to overflow
-    if (res < value) { res = value_domain<T>::high(); }
+    T res;
+    if (__builtin_add_overflow(value, change, &res)) {
+        res = change < 0 ? value_domain<T>::low() : value_domain<T>::high();
+    }
     return res;
 }
 
 template <std::integral T, std::integral Other>
 T saturating_sub(T value, Other change) {
-    T res = value - change;
-    // Can only happen due to overflow
-    if (value < res) { res = value_domain<T>::low(); }
+    T res;
+    if (__builtin_sub_overflow(value, change, &res)) {
+        res = change < 0 ? value_domain<T>::high() : value_domain<T>::low();
+    }
     return res;
 }
 
 template <std::integral T, std::integral Other>
 T saturating_add_any(T value, Other change) {
-    if (0 <= change) {
-        return saturating_add(value, change);
-    } else {
-        return saturating_sub(value, std::abs(change));
-    }
+    return saturating_add(value, change);
 }
 
 
-- 
2.43.0


From 8b397fe15430530ac81cb132ae6c42cc1c4fcea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:20 +0000
Subject: [PATCH 009/130] fix: order vectors by their first differing element

---
 src/hstd/stdlib/Vec.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/Vec.hpp b/src/hstd/stdlib/Vec.hpp
index 99f69d0..b01154d 100644
--- a/src/hstd/stdlib/Vec.hpp
+++ b/src/hstd/stdlib/Vec.hpp
@@ -33,6 +33,7 @@ bool itemwise_less_than(
                     );
          ++i) {
         if (cmp(lhs.at(i), rhs.at(i))) { return true; }
+        if (cmp(rhs.at(i), lhs.at(i))) { return false; }
     }
     return lhs.size() < rhs.size();
 }
-- 
2.43.0


From 39cf1e2d914fbf7ba1bf1937fd685522b21c3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:20 +0000
Subject: [PATCH 010/130] fix: take four elements for sliding windows of four

---
 src/hstd/stdlib/Ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Ranges.hpp b/src/hstd/stdlib/Ranges.hpp
index 7af716a..36b2b2c 100644
--- a/src/hstd/stdlib/Ranges.hpp
+++ b/src/hstd/stdlib/Ranges.hpp
@@ -177,7 +177,7 @@ inline auto rv_sliding_tuple3 //
 
 
 inline auto rv_sliding_tuple4 //
-    = hstd::rv::sliding(3) | hstd::rv::transform([](auto const& it) {
+    = hstd::rv::sliding(4) | hstd::rv::transform([](auto const& it) {
           return std::tuple(it[0], it[1], it[2], it[3]);
       });
 
-- 
2.43.0


From 0ab18368b5f77bb6c84b0dbc6238cf4a5580542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:20 +0000
Subject: [PATCH 011/130] fix: reject slices that end before they start

---
 src/hstd/stdlib/Slice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Slice.hpp b/src/hstd/stdlib/Slice.hpp
index 733041c..491e873 100644
--- a/src/hstd/stdlib/Slice.hpp
+++ b/src/hstd/stdlib/Slice.hpp
@@ -223,7 +223,8 @@ Pair<int, int> getSpan(
     }
 
     if (checkRange
-        && !((0 <= startPos && startPos < size) && (0 <= endPos && endPos < size))) {
+        && !((0 <= startPos && startPos < size) && (0 <= endPos && endPos < size)
+             && startPos <= endPos + 1)) {
         throw hstd::range_error::init(
             fmt::format(
                 "Container index is out of range: real span range is "
-- 
2.43.0


From 295d8078b1eabf7b75cdad45ebe44a97f67ac7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:20 +0000
Subject: [PATCH 012/130] fix: splice const vectors

---
 src/hstd/stdlib/Vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Vec.hpp b/src/hstd/stdlib/Vec.hpp
index b01154d..d7f21fc 100644
--- a/src/hstd/stdlib/Vec.hpp
+++ b/src/hstd/stdlib/Vec.hpp
@@ -403,7 +403,7 @@ class [[refl(R"({
     }
 
     static void Splice_Impl1(Vec<T>& result, Vec<T> const& arg) {
-        result.append(std::forward<Vec<T>>(arg));
+        result.append(arg);
     }
 
     static void Splice_Impl1(Vec<T>& result, Vec<T>&& arg) { result.append(arg); }
-- 
2.43.0


From 19e91044431288aec897e52eac7eeb502928e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:20 +0000
Subject: [PATCH 013/130] fix: keep the span size when moving its end with a
 fixed size

---
 src/hstd/stdlib/Span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/Span.hpp b/src/hstd/stdlib/Span.hpp
index 07fceb6..1d5b5e9 100644
--- a/src/hstd/stdlib/Span.hpp
+++ b/src/hstd/stdlib/Span.hpp
@@ -101,7 +101,7 @@ class Span : public std::span<T> {
         bool fixSize = false) {
         if (fixSize) {
             auto data = dataAtOffset(steps);
-            *this     = Span<T>(data, clampSize(size() + steps, data, maxEnd));
+            *this     = Span<T>(data, clampSize(size(), data, maxEnd));
         } else {
             *this = Span<T>(data(), clampSize(size() + steps, data(), maxEnd));
         }
-- 
2.43.0


From d134f0307fe73744fc379db0d30bd86abd45406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:20 +0000
Subject: [PATCH 014/130] fix: store and list all values of signed and shifted
 domains in integer sets

---
 src/hstd/stdlib/IntSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/IntSet.hpp b/src/hstd/stdlib/IntSet.hpp
index 4bfd621..eb30692 100644
--- a/src/hstd/stdlib/IntSet.hpp
+++ b/src/hstd/stdlib/IntSet.hpp
@@ -23,7 +23,7 @@ T value_from_bitset_index(int index);
 
 template <typename T>
 T value_from_bitset_index(int index) {
-    return static_cast<T>(index);
+    return static_cast<T>(static_cast<int>(value_domain<T>::low()) + index);
 }
 
 /*!
@@ -71,7 +71,7 @@ struct [[refl(R"({
     // added purely for footgun reasons.
   private:
     constexpr static inline std::size_t toIdx(T const& value) {
-        return value_domain<T>::ord(value);
+        return value_domain<T>::ord(value) - value_domain<T>::ord(value_domain<T>::low());
     }
 
     constexpr void buildSet(Ref<IntSet<T>> result) {}
-- 
2.43.0


From beb63007a093f0d126ac6a6268ef5d70daeff5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:20 +0000
Subject: [PATCH 015/130] fix: complement integer sets within their domain

---
 src/hstd/stdlib/IntSet.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/IntSet.hpp b/src/hstd/stdlib/IntSet.hpp
index eb30692..b7d8f9c 100644
--- a/src/hstd/stdlib/IntSet.hpp
+++ b/src/hstd/stdlib/IntSet.hpp
@@ -135,7 +135,13 @@ struct [[refl(R"({
 
     /// Return complement of the set that contains all values that were not
     /// placed in the original set.
-    IntSet<T> operator~() { return {.values = ~values}; }
+    IntSet<T> operator~() const {
+        IntSet<T> result;
+        for (std::size_t i = 0; i <= toIdx(value_domain<T>::high()); ++i) {
+            result.values.set(i, !values.test(i));
+        }
+        return result;
+    }
 
     int  size() const { return values.count(); }
     bool empty() const { return size() == 0; }
-- 
2.43.0


From 58aef31200d3bc18ceb1e81a5e724682a98c6e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:20 +0000
Subject: [PATCH 016/130] fix: compare hashed sets by inclusion

---
 src/hstd/stdlib/Set.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hstd/stdlib/Set.hpp b/src/hstd/stdlib/Set.hpp
index 20cbe76..5968d8e 100644
--- a/src/hstd/stdlib/Set.hpp
+++ b/src/hstd/stdlib/Set.hpp
@@ -30,6 +30,12 @@ struct UnorderedSet
 
 
     inline bool contains(T const& key) const { return count(key) != 0; }
+    bool        contains(UnorderedSet<T> const& other) const {
+        for (const auto& it : other) {
+            if (!contains(it)) { return false; }
+        }
+        return true;
+    }
     void        incl(T const& value) { insert(value); }
     void        excl(T const& value) { erase(value); }
 
-- 
2.43.0


From 18cde9664c1b378455a7441bfd9c61b51d5451c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:36 +0000
Subject: [PATCH 017/130] fix: list the described values of enumerations with
 gaps from integer sets

---
 src/hstd/stdlib/IntSet.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/IntSet.hpp b/src/hstd/stdlib/IntSet.hpp
index b7d8f9c..0c892a3 100644
--- a/src/hstd/stdlib/IntSet.hpp
+++ b/src/hstd/stdlib/IntSet.hpp
@@ -23,7 +23,11 @@ T value_from_bitset_index(int index);
 
 template <typename T>
 T value_from_bitset_index(int index) {
-    return static_cast<T>(static_cast<int>(value_domain<T>::low()) + index);
+    if constexpr (requires { value_domain<T>::D[index]; }) {
+        return value_domain<T>::D[index];
+    } else {
+        return static_cast<T>(static_cast<int>(value_domain<T>::low()) + index);
+    }
 }
 
 /*!
-- 
2.43.0


From e2d6443ad34f08560369cc5ae5559c381d343017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:00:46 +0000
Subject: [PATCH 018/130] fix: use the custom hash of hashed maps in every
 operation

---
 src/hstd/stdlib/Map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/Map.hpp b/src/hstd/stdlib/Map.hpp
index e9afba3..1540fe2 100644
--- a/src/hstd/stdlib/Map.hpp
+++ b/src/hstd/stdlib/Map.hpp
@@ -77,9 +77,9 @@ struct [[refl(R"({
     }
 })")]] UnorderedMap
     : public std::unordered_map<K, V, Hash>
-    , public MapBase<UnorderedMap<K, V>, K, V> {
+    , public MapBase<UnorderedMap<K, V, Hash>, K, V> {
     using Base = std::unordered_map<K, V, Hash>;
-    using API  = MapBase<UnorderedMap<K, V>, K, V>;
+    using API  = MapBase<UnorderedMap<K, V, Hash>, K, V>;
     using API::contains;
     using API::get;
     using API::keys;
-- 
2.43.0


From 08ba13d02f2c2e58a868667420b5a793454e21ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:23 +0000
Subject: [PATCH 019/130] fix: order the ends of character slices by their
 position in the character domain

---
 src/hstd/stdlib/Slice.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/hstd/stdlib/Slice.hpp b/src/hstd/stdlib/Slice.hpp
index 491e873..27f972c 100644
--- a/src/hstd/stdlib/Slice.hpp
+++ b/src/hstd/stdlib/Slice.hpp
@@ -25,14 +25,27 @@ struct Slice;
 template <typename T>
 constexpr Slice<T> slice(T const& first, T const& last);
 
+/// \brief Position order of the slice boundaries. Characters are ordered in
+/// the `0..255` domain regardless of the signedness of `char`.
+template <typename T>
+constexpr bool slice_less_equal(T const& lhs, T const& rhs) {
+    if constexpr (std::is_same_v<T, char>) {
+        return static_cast<unsigned char>(lhs) <= static_cast<unsigned char>(rhs);
+    } else {
+        return lhs <= rhs;
+    }
+}
+
 template <typename T>
 struct Slice : public HSlice<T, T> {
     using HSlice<T, T>::first;
     using HSlice<T, T>::last;
     using HSlice<T, T>::operator==;
 
-    bool     contains(T val) const { return first <= val && val <= last; }
-    bool     isValid() const { return first <= last; }
+    bool     contains(T val) const {
+        return slice_less_equal<T>(first, val) && slice_less_equal<T>(val, last);
+    }
+    bool     isValid() const { return slice_less_equal<T>(first, last); }
     bool     isPoint() const { return first == last; }
     Slice<T> narrow(Slice<T> const& other) {
         return slice(
@@ -134,7 +147,7 @@ struct Slice : public HSlice<T, T> {
 /// Return homogeneous inclusive slice of values
 template <typename T>
 constexpr Slice<T> slice(T const& first, T const& last) {
-    if (!(first <= last)) {
+    if (!slice_less_equal<T>(first, last)) {
         if constexpr (std::is_integral_v<T> && sizeof(T) <= sizeof(u64)) {
             if constexpr (std::is_signed_v<T>) {
                 throw hstd::range_error::init(
-- 
2.43.0


From 99a7c4feb6d2d0f16f2aa1afc7189b5770b748d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:15 +0000
Subject: [PATCH 020/130] fix: iterate key-indexed arrays over exactly the key
 domain

---
 src/hstd/stdlib/Array.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hstd/stdlib/Array.hpp b/src/hstd/stdlib/Array.hpp
index b91236e..ad85874 100644
--- a/src/hstd/stdlib/Array.hpp
+++ b/src/hstd/stdlib/Array.hpp
@@ -101,15 +101,13 @@ struct TypArray : public Array<Val, pow_v<2, 8 * sizeof(Key)>::res> {
 
 
     generator<Pair<Key, Val const*>> pairs() const {
-        for (auto i = value_domain<Key>::low(); i <= value_domain<Key>::high();
-             i      = value_domain<Key>::succ(i)) {
+        for (auto i : sliceT<Key>()) {
             co_yield {i, &this->operator[](i)};
         }
     }
 
     generator<Pair<Key, Val*>> pairs() {
-        for (auto i = value_domain<Key>::low(); i <= value_domain<Key>::high();
-             i      = value_domain<Key>::succ(i)) {
+        for (auto i : sliceT<Key>()) {
             co_yield {i, &this->operator[](i)};
         }
     }
-- 
2.43.0


From 85a407f1831cf19fb87a442c5b06c52c350b7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:04:32 +0000
Subject: [PATCH 021/130] fix: insert into order-preserving two-way maps

---
 src/hstd/ext/bimap_wrap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/bimap_wrap.hpp b/src/hstd/ext/bimap_wrap.hpp
index 89aaf29..de616dc 100644
--- a/src/hstd/ext/bimap_wrap.hpp
+++ b/src/hstd/ext/bimap_wrap.hpp
@@ -225,7 +225,7 @@ class StableNto1Bimap
             throw hstd::runtime_error::init(
                 "add_unique failed: Left key already exists.");
         }
-        this->bimap.insert({left, right});
+        this->bimap.left.push_back({left, right});
     }
 
     bool contains_left(L const& leftKey) const {
-- 
2.43.0


From dc92a1af0c5be568991365af3f9f3a2e454a95c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:08 +0000
Subject: [PATCH 022/130] fix: sort equal ranges of a range tree with a strict
 order

---
 src/hstd/stdlib/RangeTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/RangeTree.hpp b/src/hstd/stdlib/RangeTree.hpp
index 95bae8a..eb07790 100644
--- a/src/hstd/stdlib/RangeTree.hpp
+++ b/src/hstd/stdlib/RangeTree.hpp
@@ -117,7 +117,7 @@ class RangeTree {
                 // When lhs completely contains rhs, sort lhs first.
                 return rhs.range.last < lhs.range.last;
             } else {
-                return true;
+                return false;
             }
         });
 
-- 
2.43.0


From db063a93b9bdfa0ff197b0d059efcedbc2055553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:08 +0000
Subject: [PATCH 023/130] fix: keep a final annotated segment of one element

---
 src/hstd/stdlib/RangeSegmentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/RangeSegmentation.cpp b/src/hstd/stdlib/RangeSegmentation.cpp
index e01faba..862215f 100644
--- a/src/hstd/stdlib/RangeSegmentation.cpp
+++ b/src/hstd/stdlib/RangeSegmentation.cpp
@@ -80,7 +80,7 @@ Vec<SequenceAnnotation> hstd::annotateSequence(
         }
     }
 
-    if (lastStart < last && !prevKind.empty()) {
+    if (lastStart <= last && !prevKind.empty()) {
         result.push_back(
             SequenceAnnotation{
                 .first       = lastStart,
-- 
2.43.0


From dcea66331521ae289822c1b5fd24dd803825ddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:08 +0000
Subject: [PATCH 024/130] fix: do not shift by the full width for identifiers
 without a mask

---
 src/hstd/stdlib/dod_base.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 4e874d6..2e7cf08 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -108,7 +108,7 @@ struct [[nodiscard]] Id {
     constexpr int getMaskSize() const { return mask_size; }
     /// \brief Get unmasked *value* (do not confuse with index)
     inline IdType getUnmasked() const {
-        if (mask_size == 0) {
+        if constexpr (mask_size == 0) {
             return value;
         } else {
             return value & ~(~IdType(0) << mask_offset);
@@ -119,13 +119,21 @@ struct [[nodiscard]] Id {
     /// \brief Get mask value
     inline MaskType getMask() const {
 #pragma clang diagnostic ignored "-Wshift-count-overflow"
-        return (value & (~IdType(0) << mask_offset)) >> mask_offset;
+        if constexpr (mask_size == 0) {
+            return 0;
+        } else {
+            return (value & (~IdType(0) << mask_offset)) >> mask_offset;
+        }
     }
 
     /// \brief Get direct value of the mask, with right-padded zeroes that
     /// were occupied by the value.
     inline MaskType getMaskUnshifed() const {
-        return (value & (~IdType(0) << mask_offset));
+        if constexpr (mask_size == 0) {
+            return 0;
+        } else {
+            return (value & (~IdType(0) << mask_offset));
+        }
     }
 
     /// \brief Set unmasked portion of the value
-- 
2.43.0


From 40a759551d5c5339ef0303eb2837a4a45a79f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:08 +0000
Subject: [PATCH 025/130] fix: keep the mask of an identifier when its index
 part is set

---
 src/hstd/stdlib/dod_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 2e7cf08..26fa5c2 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -137,7 +137,7 @@ struct [[nodiscard]] Id {
     }
 
     /// \brief Set unmasked portion of the value
-    inline void setUnmasked(IdType base) { value = getMask() | base; }
+    inline void setUnmasked(IdType base) { value = getMaskUnshifed() | base; }
 
     /// \brief Set mask for the ID
     inline void setMask(MaskType mask) {
-- 
2.43.0


From 0f3b219fe5b7712f5cc64171006514505451cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:08 +0000
Subject: [PATCH 026/130] fix: format nil identifiers

---
 src/hstd/stdlib/dod_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 26fa5c2..07d9223 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -220,7 +220,8 @@ struct [[nodiscard]] Id {
 
     /// \brief Write strig representation of the ID into output stream
     std::string format(FormatConfig const& conf = FormatConfig{}) const {
-        return detail::format_id(getMask(), getIndex(), mask_size, conf, isNil());
+        return detail::format_id(
+            getMask(), isNil() ? 0 : getIndex(), mask_size, conf, isNil());
     }
 
   public:
-- 
2.43.0


From b79c83f7163ed5769d0f36ccca09ade109c340c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:32 +0000
Subject: [PATCH 027/130] fix: point at the last stored value from the high
 identifier of a store

---
 src/hstd/stdlib/dod_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 07d9223..0ac4e4d 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -434,7 +434,7 @@ struct Store {
 
     /// \brief Last element stored in the store (by index)
     Id back() const { return Id::FromValue(content.size()); }
-    Id high() const { return Id::FromValue(content.size() - 1); }
+    Id high() const { return Id::FromValue(content.size()); }
 
     /// \brief Mutable reference of the value at specific *index* (don't
     /// confuse with ID)
-- 
2.43.0


From 0d4e500de018372584f5537557f3846ba1f2c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:32 +0000
Subject: [PATCH 028/130] fix: access store values by a slice of identifiers

---
 src/hstd/stdlib/dod_base.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index 0ac4e4d..b7693bd 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -447,7 +447,8 @@ struct Store {
     /// \note Both start and end ID should ideally have the same store
     /// index, otherwise this method does not make a lot of sense.
     std::span<T> at(HSlice<Id, Id> slice) {
-        return content.at(slice(slice.first.getIndex(), slice.last.getIndex()));
+        return content.at(
+            hstd::slice(slice.first.getIntIndex(), slice.last.getIntIndex()));
     }
 
 
-- 
2.43.0


From 4ecc9a77ea9dd5be2c84f24dc3cb7807ff0658e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:32 +0000
Subject: [PATCH 029/130] fix: report store insertions past the end instead of
 dropping the value

---
 src/hstd/stdlib/dod_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index b7693bd..b19d089 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -489,8 +489,8 @@ struct Store {
         } else if (id.getIndex() < content.size()) {
             content[id.getIndex()] = value;
         } else {
-            // IMPLEMENT either raise exception or come up with some other
-            // way of handing
+            throw hstd::range_error::init(
+                "Cannot insert value with ID past the end of the store");
         }
     }
 };
-- 
2.43.0


From 413d2065abbaab5e1ff50591405deaf06ba1b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:32 +0000
Subject: [PATCH 030/130] fix: forget the replaced value when inserting over an
 interned one

---
 src/hstd/stdlib/dod_base_intern.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/dod_base_intern.hpp b/src/hstd/stdlib/dod_base_intern.hpp
index 39625af..cb0f785 100644
--- a/src/hstd/stdlib/dod_base_intern.hpp
+++ b/src/hstd/stdlib/dod_base_intern.hpp
@@ -61,6 +61,7 @@ struct InternStore {
         if (!contains(value)) {
             LOGIC_ASSERTION_CHECK(
                 !id.isNil(), "cannot use nil ID for interned store key");
+            if (content.contains(id)) { id_map.erase(content.at(id)); }
             content.insert(id, value);
             id_map.insert({value, id});
         }
-- 
2.43.0


From 7aa85bb3a087b63226b1100ad6ed5b9c9b80e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:09:32 +0000
Subject: [PATCH 031/130] fix: saturate identifier increments below the mask
 bits

---
 src/hstd/stdlib/dod_base.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/hstd/stdlib/dod_base.hpp b/src/hstd/stdlib/dod_base.hpp
index b19d089..7794335 100644
--- a/src/hstd/stdlib/dod_base.hpp
+++ b/src/hstd/stdlib/dod_base.hpp
@@ -116,6 +116,15 @@ struct [[nodiscard]] Id {
     }
 
 
+    /// \brief Largest unmasked value that does not reach into the mask bits
+    static inline IdType getUnmaskedHigh() {
+        if constexpr (mask_size == 0) {
+            return value_domain<IdType>::high();
+        } else {
+            return ~(~IdType(0) << mask_offset);
+        }
+    }
+
     /// \brief Get mask value
     inline MaskType getMask() const {
 #pragma clang diagnostic ignored "-Wshift-count-overflow"
@@ -306,7 +315,9 @@ Id operator--(Id& id, int) {
 /// \brief Saturated in-place pre-increment of the ID
 template <IsIdType Id>
 Id& operator++(Id& id) {
-    id.setValue(id.getMaskUnshifed() | saturating_add(id.getUnmasked(), 1));
+    id.setValue(
+        id.getMaskUnshifed()
+        | std::min(saturating_add(id.getUnmasked(), 1), Id::getUnmaskedHigh()));
     return id;
 }
 
@@ -320,14 +331,17 @@ auto operator-(Id lhs, Id rhs) {
 template <IsIdType Id>
 Id operator+(Id id, int extent) {
     return Id::FromValue(
-        id.getMaskUnshifed() | saturating_add_any(id.getUnmasked(), extent));
+        id.getMaskUnshifed()
+        | std::min(saturating_add_any(id.getUnmasked(), extent), Id::getUnmaskedHigh()));
 }
 
 /// \brief Saturated in-place post-increment of the ID
 template <IsIdType Id>
 Id operator++(Id& id, int) {
     Id res = id;
-    id.setValue(id.getMaskUnshifed() | saturating_add(id.getUnmasked(), 1));
+    id.setValue(
+        id.getMaskUnshifed()
+        | std::min(saturating_add(id.getUnmasked(), 1), Id::getUnmaskedHigh()));
     return res;
 }
 
-- 
2.43.0


From 0fba7c8ca2fdc75acd62fd9ad1ab2c4a5b7456cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:16:26 +0000
Subject: [PATCH 032/130] fix: sort the segment kinds of an annotated point

---
 src/hstd/stdlib/RangeSegmentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/RangeSegmentation.cpp b/src/hstd/stdlib/RangeSegmentation.cpp
index 862215f..03aba66 100644
--- a/src/hstd/stdlib/RangeSegmentation.cpp
+++ b/src/hstd/stdlib/RangeSegmentation.cpp
@@ -39,7 +39,7 @@ Vec<SequenceAnnotation> hstd::annotateSequence(
                 for (auto const& range : ranges) {
                     kinds.push_back(tree.group.segments.at(range.index).kind);
                 }
-                ranges::actions::sort(kinds.begin(), kinds.end());
+                std::sort(kinds.begin(), kinds.end());
                 groups.incl(std::make_pair(tree.group.kind, kinds));
             }
         }
-- 
2.43.0


From 8b5ae74832f6e0be252b20567a75884cdfdf627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:08 +0000
Subject: [PATCH 033/130] fix: use the length of a string slice instead of its
 end

---
 src/hstd/stdlib/Str.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/Str.hpp b/src/hstd/stdlib/Str.hpp
index 7945e2d..3ca034e 100644
--- a/src/hstd/stdlib/Str.hpp
+++ b/src/hstd/stdlib/Str.hpp
@@ -47,13 +47,13 @@ struct [[refl(R"({"backend": {"target-backends": ["c"]}})")]] Str : public std::
     template <typename A, typename B>
     std::string_view at(HSlice<A, B> const& s, bool checkRange = true) {
         const auto [start, end] = getSpan(size(), s, checkRange);
-        return std::string_view(this->data() + start, end);
+        return std::string_view(this->data() + start, end - start + 1);
     }
 
     template <typename A, typename B>
     const std::string_view at(HSlice<A, B> const& s, bool checkRange = true) const {
         const auto [start, end] = getSpan(size(), s, checkRange);
-        return std::string_view(this->data() + start, end);
+        return std::string_view(this->data() + start, end - start + 1);
     }
 
     template <typename A, typename B>
-- 
2.43.0


From 20b68da542c713571f3572c674d75d19b7fac47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:08 +0000
Subject: [PATCH 034/130] fix: stop replacing an empty text

---
 src/hstd/stdlib/Str.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/Str.cpp b/src/hstd/stdlib/Str.cpp
index 98c6b47..31dc44b 100644
--- a/src/hstd/stdlib/Str.cpp
+++ b/src/hstd/stdlib/Str.cpp
@@ -59,6 +59,7 @@ char& hstd::Str::at(int pos) {
 }
 
 Str hstd::Str::replaceAll(Str const& from, Str const& to) const {
+    if (from.empty()) { return *this; }
     size_t startPos = 0;
     Str    result   = *this;
     while ((startPos = result.find(from, startPos)) != std::string::npos) {
-- 
2.43.0


From 3ca105b828cbc87bcca35b857b8e8515c264f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:08 +0000
Subject: [PATCH 035/130] fix: stop splitting by an empty delimiter

---
 src/hstd/stdlib/strutils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/strutils.cpp b/src/hstd/stdlib/strutils.cpp
index 7160356..6a7a04d 100644
--- a/src/hstd/stdlib/strutils.cpp
+++ b/src/hstd/stdlib/strutils.cpp
@@ -690,6 +690,7 @@ std::string hstd::format_table(
 }
 
 Vec<Str> hstd::split(Str const& value, Str const& delimiter) {
+    if (delimiter.empty()) { return {value}; }
     Vec<Str> tokens;
     size_t   start = 0;
     size_t   end   = value.find(delimiter);
-- 
2.43.0


From e6c507f5e3eb3adc7a1603d599d0939ffc2ed93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:28:08 +0000
Subject: [PATCH 036/130] fix: fill wrapped lines up to the full width

---
 src/hstd/stdlib/strutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/strutils.cpp b/src/hstd/stdlib/strutils.cpp
index 6a7a04d..8ddbe14 100644
--- a/src/hstd/stdlib/strutils.cpp
+++ b/src/hstd/stdlib/strutils.cpp
@@ -385,8 +385,8 @@ Str hstd::wrap_text(Vec<Str> const& words, int maxWidth, bool justified) {
         if (maxWidth < (currentWidth + word.size() + (buffer.empty() ? 0 : 1))) {
             if (!buffer.empty()) { fold_buffer(); }
         }
-        buffer.push_back(word);
         currentWidth += word.size() + (buffer.empty() ? 0 : 1);
+        buffer.push_back(word);
     }
 
     if (!buffer.empty()) { fold_buffer(); }
-- 
2.43.0


From 6696609c467e52cd97f48bd56cf08407ae15b523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:39 +0000
Subject: [PATCH 037/130] fix: keep the first pair of a common subsequence

---
 src/hstd/stdlib/diffs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 7f7249a..fbf9161 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -72,6 +72,7 @@ Vec<BacktrackRes> hstd::longestCommonSubsequence(
         } else if (itemCmp(lhsIdx, rhsIdx)) {
             auto              back = backtrack(lhsIdx - 1, rhsIdx - 1);
             Vec<BacktrackRes> res;
+            if (back.empty()) { back.push_back(BacktrackRes{}); }
             for (const auto& t : back) {
                 res.push_back(
                     {.lhsIndex = t.lhsIndex + lhsIdx, .rhsIndex = t.rhsIndex + rhsIdx});
-- 
2.43.0


From 0d7d136c59cc1b05dc363bc89117453b2c9f3213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:39 +0000
Subject: [PATCH 038/130] fix: show replaced elements on both sides of a
 shifted diff

---
 src/hstd/stdlib/diffs.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index fbf9161..6ae25a2 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -291,10 +291,6 @@ hstd::ShiftedDiff::ShiftedDiff(Vec<SeqEdit> const& diff) {
     using sek = SeqEditKind;
     for (auto line : diff) {
         switch (line.kind) {
-            case sek::Replace:
-                oldShifted.push_back({sek::Replace, line.sourcePos});
-                break;
-
             case sek::None:
                 assert(
                     false && "Input diff sequence should not contain empty operations");
@@ -310,6 +306,7 @@ hstd::ShiftedDiff::ShiftedDiff(Vec<SeqEdit> const& diff) {
 
             case sek::Insert: newShifted.push_back({sek::Insert, line.targetPos}); break;
 
+            case sek::Replace:
             case sek::Keep:
                 int oldLen = oldShifted.size();
                 int newLen = newShifted.size();
@@ -327,8 +324,8 @@ hstd::ShiftedDiff::ShiftedDiff(Vec<SeqEdit> const& diff) {
                     }
                 }
 
-                oldShifted.push_back({sek::Keep, line.sourcePos});
-                newShifted.push_back({sek::Keep, line.targetPos});
+                oldShifted.push_back({line.kind, line.sourcePos});
+                newShifted.push_back({line.kind, line.targetPos});
                 break;
         }
     }
-- 
2.43.0


From 8afa2f1acdead69ae16213dcc8ccb9bd1aeaf020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:39 +0000
Subject: [PATCH 039/130] fix: print the text of the line being compared in
 diff tables

---
 src/hstd/stdlib/diffs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 6ae25a2..7f23e3d 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -625,12 +625,12 @@ ColText FormattedDiff::format() {
 
             os << (ColText(lhsStyle, toPrefix(lhs.prefix)) <<= linePrefixSize)
                << ((lhs.empty() ? ColText("")
-                                : formattedLines.at(lhs.index().value())
+                                : formattedLines.at(i)
                                       .first.withStyle(lhsStyle)) <<= lhsSize)
                << splitSeparator //
                << (ColText(rhsStyle, toPrefix(rhs.prefix)) <<= linePrefixSize)
                << ((rhs.empty() ? ColText("")
-                                : formattedLines.at(rhs.index().value())
+                                : formattedLines.at(i)
                                       .second.withStyle(rhsStyle)) <<= rhsSize)
                << "\n";
         }
-- 
2.43.0


From 26d9be40bba14fc62d262ea81381023676153cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:39 +0000
Subject: [PATCH 040/130] fix: return the formatted line pair from line diffs

---
 src/hstd/stdlib/diffs.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/stdlib/diffs.hpp b/src/hstd/stdlib/diffs.hpp
index 96271be..312e400 100644
--- a/src/hstd/stdlib/diffs.hpp
+++ b/src/hstd/stdlib/diffs.hpp
@@ -443,11 +443,11 @@ inline Pair<ColText, ColText> formatLineDiff(
         auto oldVisible = toVisibleNames(conf, oldLineSplit);
         auto newVisible = toVisibleNames(conf, newLineSplit);
 
-        auto const& [oldLineLine, newLineLine] = formatDiffed(
+        std::tie(oldLineLine, newLineLine) = formatDiffed(
             diffed.operations, oldVisible.toSpan(), newVisible.toSpan(), conf);
 
     } else {
-        auto const& [oldLineLine, newLineLine] = formatDiffed(
+        std::tie(oldLineLine, newLineLine) = formatDiffed(
             diffed.operations, oldLineSplit.toSpan(), newLineSplit.toSpan(), conf);
     }
 
-- 
2.43.0


From e8153905b890d9e49ef605910f6caf83bee77365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:39 +0000
Subject: [PATCH 041/130] fix: keep the configuration of a fuzzy score alive

---
 src/hstd/stdlib/diffs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 7f23e3d..03d172f 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -855,7 +855,7 @@ fuzzy_result fuzzy_match_recursive(
 
 FuzzyMatcher::ScoreFunc hstd::FuzzyMatcher::getLinearScore(
     LinearScoreConfig const& conf) {
-    return [&conf](Range const& _str, int nextMatch, Vec<int> const& matches) -> int {
+    return [conf](Range const& _str, int nextMatch, Vec<int> const& matches) -> int {
         auto str      = _str;
         int  outScore = 0;
         // Iterate str to end
-- 
2.43.0


From a4f441df2ab3a0f8dbe90d2f5a0b22e36238c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:34:39 +0000
Subject: [PATCH 042/130] fix: keep the last line of a grouped diff

---
 src/hstd/stdlib/diffs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 03d172f..b9e15c8 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -469,7 +469,7 @@ hstd::FormattedDiff::FormattedDiff(
         };
 
         for (auto it = oldText.begin() + 1, jt = newText.begin() + 1;
-             it != oldText.end() - 1;
+             it != oldText.end();
              ++it, ++jt) {
             if (it->kind != lhsBuf.back().kind || jt->kind != rhsBuf.back().kind) {
                 // If one of the edit streaks finished, dump both
-- 
2.43.0


From 1c89689a227faa8611d50926992251993b0aaba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:01 +0000
Subject: [PATCH 043/130] fix: group an empty diff

---
 src/hstd/stdlib/diffs.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index b9e15c8..58410ad 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -443,6 +443,7 @@ hstd::FormattedDiff::FormattedDiff(
         assert(!conf.sideBySide);
         // Grouping line edits is not possible in the side-by-side
         // representation, so going directly for unified one.
+        if (oldText.empty()) { return; }
         Vec<BufItem> lhsBuf = {oldText[0]};
         Vec<BufItem> rhsBuf = {newText[0]};
 
-- 
2.43.0


From 5c9dc50f2a2f9829ec65c31e2c4db64dc5587f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:01 +0000
Subject: [PATCH 044/130] fix: cut diff lines to the configured width

---
 src/hstd/stdlib/diffs.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 58410ad..6e5679c 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -548,13 +548,11 @@ ColText FormattedDiff::format() {
             auto lhsLine = conf.formatLine(pair.first);
             auto rhsLine = conf.formatLine(pair.second);
             if (conf.maxLhsSize) {
-                lhsLine = lhsLine.at(
-                    slice(0, std::min(lhsLine.size(), conf.maxLhsSize.value())));
+                lhsLine.resize(std::min(lhsLine.size(), conf.maxLhsSize.value()));
             }
 
             if (conf.maxRhsSize) {
-                rhsLine = rhsLine.at(
-                    slice(0, std::min(rhsLine.size(), conf.maxRhsSize.value())));
+                rhsLine.resize(std::min(rhsLine.size(), conf.maxRhsSize.value()));
             }
 
             formattedLines.push_back({lhsLine, rhsLine});
-- 
2.43.0


From be197650f1474e7801950eedfb0867bd1a939ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:01 +0000
Subject: [PATCH 045/130] fix: format a diff without lines

---
 src/hstd/stdlib/diffs.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/hstd/stdlib/diffs.cpp b/src/hstd/stdlib/diffs.cpp
index 6e5679c..1f08de4 100644
--- a/src/hstd/stdlib/diffs.cpp
+++ b/src/hstd/stdlib/diffs.cpp
@@ -558,19 +558,12 @@ ColText FormattedDiff::format() {
             formattedLines.push_back({lhsLine, rhsLine});
         }
 
-        int lhsSize = std::max(
-            conf.minLhsSize.value_or(0),
-            rs::max(
-                formattedLines | rv::transform([](Pair<ColText, ColText> const& elem) {
-                    return elem.first.size();
-                })));
-
-        int rhsSize = std::max(
-            conf.minRhsSize.value_or(0),
-            rs::max(
-                formattedLines | rv::transform([](Pair<ColText, ColText> const& elem) {
-                    return elem.second.size();
-                })));
+        int lhsSize = conf.minLhsSize.value_or(0);
+        int rhsSize = conf.minRhsSize.value_or(0);
+        for (auto const& elem : formattedLines) {
+            lhsSize = std::max(lhsSize, elem.first.size());
+            rhsSize = std::max(rhsSize, elem.second.size());
+        }
 
         int const linePrefixSize = 2;
 
-- 
2.43.0


From c570c8929dab740313622b74be5e6dd9c041b9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:41:46 +0000
Subject: [PATCH 046/130] fix: number the lines of a diff with an empty side

---
 src/hstd/stdlib/diffs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hstd/stdlib/diffs.hpp b/src/hstd/stdlib/diffs.hpp
index 312e400..40f504a 100644
--- a/src/hstd/stdlib/diffs.hpp
+++ b/src/hstd/stdlib/diffs.hpp
@@ -534,7 +534,8 @@ struct FormattedDiff {
         T const* rhs,
         bool     formatLine = false) {
         int digitCount = std::max<int>(
-            std::ceil(std::log10(lhs->size())), std::ceil(std::log10(rhs->size())));
+            std::ceil(std::log10(std::max<int>(1, lhs->size()))),
+            std::ceil(std::log10(std::max<int>(1, rhs->size()))));
 
         return [lhs, rhs, formatLine, digitCount](
                    FormattedDiff::DiffLine const& line) -> ColText {
-- 
2.43.0


From f08cecb72402b5262382c351f02455c65ff67406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:35 +0000
Subject: [PATCH 047/130] fix: look past leaf nodes when searching for a parent

---
 src/haxorg/lexbase/Node.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/haxorg/lexbase/Node.cpp b/src/haxorg/lexbase/Node.cpp
index d37c123..d75e77c 100644
--- a/src/haxorg/lexbase/Node.cpp
+++ b/src/haxorg/lexbase/Node.cpp
@@ -81,13 +81,8 @@ typename NodeGroup<N, K, V, M>::Id NodeGroup<N, K, V, M>::parent(
     --parent;
     while (!parent.isNil()) {
         auto extent = allSubnodesOf(parent);
-        if (extent.has_value()) {
-            if (extent->contains(node)) {
-                return parent;
-            } else {
-                --parent;
-            }
-        }
+        if (extent.has_value() && extent->contains(node)) { return parent; }
+        --parent;
     }
 
     return Id::Nil();
-- 
2.43.0


From 971d1da316c99794d65b4a46c908649e6fd3999b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:35 +0000
Subject: [PATCH 048/130] fix: look ahead along the selected tokens of a
 sub-lexer

---
 src/haxorg/lexbase/Lexer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/lexbase/Lexer.hpp b/src/haxorg/lexbase/Lexer.hpp
index b6b140b..9a2b43f 100644
--- a/src/haxorg/lexbase/Lexer.hpp
+++ b/src/haxorg/lexbase/Lexer.hpp
@@ -18,7 +18,7 @@ struct LexerCommon {
     Token<K, V>&       tok(TokenId<K, V> id) { return in->at(id); }
     Token<K, V> const& tok(TokenId<K, V> id) const { return in->at(id); }
     Token<K, V> const& tok(int offset = 0) const { return in->at(get(offset)); }
-    TokenId<K, V>      get(int offset = 0) const { return pos + offset; }
+    virtual TokenId<K, V> get(int offset = 0) const { return pos + offset; }
     V const&           val(int offset = 0) const { return tok(offset).value; }
     V&                 val(int offset = 0) { return in->at(get(offset)).value; }
 
@@ -365,6 +365,10 @@ struct SubLexer : public LexerCommon<K, V> {
         return !pos.isNil() && (0 <= idx) && (idx < tokens.size());
     }
 
+    TokenId<K, V> get(int offset = 0) const override {
+        return hasNext(offset) ? tokens.at(subPos + offset) : TokenId<K, V>::Nil();
+    }
+
     void add(TokenId<K, V> const& tok) { tokens.push_back(tok); }
     void start() { pos = tokens.at(0); }
 
-- 
2.43.0


From 3184e1d3e8ba19e43e015b05b31942b3e7037740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:45:35 +0000
Subject: [PATCH 049/130] fix: restore a sub-lexer to its end

---
 src/haxorg/lexbase/Lexer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/haxorg/lexbase/Lexer.hpp b/src/haxorg/lexbase/Lexer.hpp
index 9a2b43f..45293e2 100644
--- a/src/haxorg/lexbase/Lexer.hpp
+++ b/src/haxorg/lexbase/Lexer.hpp
@@ -373,6 +373,12 @@ struct SubLexer : public LexerCommon<K, V> {
     void start() { pos = tokens.at(0); }
 
     void setPos(TokenId<K, V> id) override {
+        if (id.isNil()) {
+            subPos = tokens.size();
+            pos    = id;
+            return;
+        }
+
         int foundPos = tokens.indexOf(id);
         if (foundPos == -1) {
             throw std::range_error(
-- 
2.43.0


From 106684d55f68be3f25a3cb1bbeda820452fbfdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:56:28 +0000
Subject: [PATCH 050/130] fix: report the end of the tokens instead of a bad
 index

---
 src/haxorg/lexbase/Lexer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/lexbase/Lexer.hpp b/src/haxorg/lexbase/Lexer.hpp
index 45293e2..6333032 100644
--- a/src/haxorg/lexbase/Lexer.hpp
+++ b/src/haxorg/lexbase/Lexer.hpp
@@ -262,9 +262,9 @@ struct LexerCommon {
                 hstd::fmt(
                     "Unexpected end encountered while trying to skip {} "
                     "token "
-                    "at index {}",
+                    "at {}",
                     kind,
-                    pos.getIndex()));
+                    pos.format()));
 
         } else {
             throw UnexpectedCharError(
-- 
2.43.0


From a8de79f8855656ba7df7a0aa59e45cc6372b20e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:37 +0000
Subject: [PATCH 051/130] fix: stop comparing keywords past the end of the text

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 4420682..c3f8249 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -152,8 +152,9 @@ struct Cursor {
 
     bool is_iat(std::string const& text, int offset = 0) const {
         for (int i = 0; i < text.size(); ++i) {
-            if (std::tolower(static_cast<unsigned char>(get(i + offset)))
-                != std::tolower(static_cast<unsigned char>(text.at(i)))) {
+            if (!has_pos(i + offset)
+                || std::tolower(static_cast<unsigned char>(get(i + offset)))
+                       != std::tolower(static_cast<unsigned char>(text.at(i)))) {
                 return false;
             }
         }
-- 
2.43.0


From 451c02276942b709a451eb5a03308692939eda57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:37 +0000
Subject: [PATCH 052/130] fix: end a colon argument at the end of the text

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index c3f8249..7199be7 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -570,7 +570,9 @@ void switch_cmd_argument(Cursor& c) {
             } else {
                 c.token0(otk::CmdRawArg, [](Cursor& c) {
                     c.next();
-                    while (!c.is_at_any_of(0, '(', ')', ']', '[', '=', ',', ' ', '\n')) {
+                    while (
+                        c.has_text()
+                        && !c.is_at_any_of(0, '(', ')', ']', '[', '=', ',', ' ', '\n')) {
                         c.next();
                     }
                 });
-- 
2.43.0


From 8745ed16a5f271da0d13e6e1c0195d2a49359505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:37 +0000
Subject: [PATCH 053/130] fix: end an unterminated block with the text

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 7199be7..3323e80 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -771,8 +771,8 @@ void switch_command(Cursor& c) {
             head.kind = otk::CmdExportBegin;
             head_args();
             c.token0(otk::Newline, &advance1);
-            int offset;
-            while ((offset = get_end_block_offset("export")) == -1) {
+            int offset = -1;
+            while (c.has_text() && (offset = get_end_block_offset("export")) == -1) {
                 auto __guard = c.advance_guard();
                 c.token0(otk::CmdExportLine, [](Cursor& c) {
                     while (c.can_search('\n')) { c.next(); }
@@ -784,8 +784,8 @@ void switch_command(Cursor& c) {
             head.kind = otk::CmdExampleBegin;
             head_args();
             c.token0(otk::Newline, &advance1);
-            int offset;
-            while ((offset = get_end_block_offset("example")) == -1) {
+            int offset = -1;
+            while (c.has_text() && (offset = get_end_block_offset("example")) == -1) {
                 auto __guard = c.advance_guard();
                 c.token0(otk::CmdExampleLine, [](Cursor& c) {
                     while (c.can_search('\n')) { c.next(); }
@@ -797,8 +797,8 @@ void switch_command(Cursor& c) {
             head.kind = otk::CmdSrcBegin;
             head_args();
             c.token0(otk::Newline, &advance1);
-            int offset;
-            while ((offset = get_end_block_offset("src")) == -1) {
+            int offset = -1;
+            while (c.has_text() && (offset = get_end_block_offset("src")) == -1) {
                 auto __guard = c.advance_guard();
                 if (c.is_at_all_of(0, '<', '<')) {
                     c.token1(otk::DoubleAngleBegin, &advance_count, 2);
-- 
2.43.0


From 2b4712c1a9094bde4f8c4f7639e8cd939284a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:37 +0000
Subject: [PATCH 054/130] fix: end a wide character word at the end of the text

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 3323e80..aa46feb 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -204,7 +204,7 @@ struct Cursor {
     }
 
     int is_at_unicode(int offset = 0) {
-        return 0xF0 <= static_cast<unsigned char>(get(offset));
+        return has_pos(offset) && 0xF0 <= static_cast<unsigned char>(get(offset));
     }
 
     bool nextUnicode() {
-- 
2.43.0


From a93cfeed73138276f9fb7c44cd4a6b5f43005828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:37 +0000
Subject: [PATCH 055/130] fix: do not skip the indentation of a table separator
 twice

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index aa46feb..3490ecf 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -1098,7 +1098,7 @@ void switch_regular_char(Cursor& c) {
             c.token_adv(otk::LeadingPipe, *span + skip);
             return;
         } else if (auto span = is_at_table_separator(c, skip)) {
-            c.token_adv(otk::TableSeparator, *span + skip);
+            c.token_adv(otk::TableSeparator, *span);
             return;
         } else if (auto span = c.try_lexy_patt<LEXY_ILIT("clock:")>(skip)) {
             c.token_adv(otk::TreeClock, *span + skip);
-- 
2.43.0


From b9ad3fe6c609619b64f141fd11facb46e03b3d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:37 +0000
Subject: [PATCH 056/130] fix: record the line of base tokens

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 3490ecf..6d2d778 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -404,10 +404,10 @@ struct Cursor {
         Args&&... args) {
         OrgToken tok;
         tok->loc = org::parse::SourceLoc{
+            .line    = this->line,
             .column  = this->col,
-            .file_id = this->file_id,
             .pos     = this->pos,
-            .column  = this->col,
+            .file_id = this->file_id,
         };
 
         tok.kind = kind;
-- 
2.43.0


From 7e69e1cc39646dd5ece46719ff1ca8185b0c7c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:57 +0000
Subject: [PATCH 057/130] fix: keep the target of an unterminated link empty

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 6d2d778..5f98d54 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -1284,19 +1284,19 @@ void switch_regular_char(Cursor& c) {
                 } else if (c.is_iat("file")) {
                     c.token_adv(otk::LinkProtocolFile, 4);
                     auto span = c.try_lexy_patt<dsl::until(link_end)>();
-                    c.token_adv(otk::LinkTarget, *span - 2);
+                    c.token_adv(otk::LinkTarget, span ? *span - 2 : 0);
                 } else if (c.is_iat("attachment")) {
                     c.token0(otk::LinkProtocolAttachment, &advance_ident);
                     auto span = c.try_lexy_patt<dsl::until(link_end)>();
-                    c.token_adv(otk::LinkTarget, *span - 2);
+                    c.token_adv(otk::LinkTarget, span ? *span - 2 : 0);
                 } else if (c.is_iat("id")) {
                     c.token0(otk::LinkProtocolId, &advance_ident);
                     auto span = c.try_lexy_patt<dsl::until(link_end)>();
-                    c.token_adv(otk::LinkTarget, *span - 2);
+                    c.token_adv(otk::LinkTarget, span ? *span - 2 : 0);
                 } else if (c.is_iat("id")) {
                     c.token0(otk::LinkProtocolId, &advance_ident);
                     auto span = c.try_lexy_patt<dsl::until(link_end)>();
-                    c.token_adv(otk::LinkTarget, *span - 2);
+                    c.token_adv(otk::LinkTarget, span ? *span - 2 : 0);
                 } else {
                     int offset = 0;
                     while (c.has_pos(offset) && !c.is_at_any_of(offset, ']', ':', '\n')) {
-- 
2.43.0


From 7b25cd7d8458bb1da4477525470746066bf26291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:57 +0000
Subject: [PATCH 058/130] fix: place newline tokens where they start

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 5f98d54..e2a868b 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -364,21 +364,21 @@ struct Cursor {
 
     void range_token(
         OrgTokenKind kind,
-        int          start,
+        Recall       start,
         int          end,
         int          line     = __builtin_LINE(),
         char const*  function = __builtin_FUNCTION()) {
         OrgToken tok;
         tok->loc = org::parse::SourceLoc{
-            .column  = this->col,
-            .line    = this->line,
-            .pos     = start,
+            .line    = start.line,
+            .column  = start.col,
+            .pos     = start.pos,
             .file_id = file_id,
         };
         tok.kind = kind;
 
         tok.value.text = std::string{
-            text.begin() + start,
+            text.begin() + start.pos,
             text.begin() + end,
         };
 
@@ -1546,7 +1546,7 @@ void switch_regular_char(Cursor& c) {
             break;
         }
         case '\n': {
-            int start        = c.pos;
+            auto start       = c.getRecall();
             int end          = c.pos;
             int newlineCount = 0;
             while (c.is_at('\n')) {
-- 
2.43.0


From 5639f993d423298978d59ffb7ff8447f2aa48a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:56 +0000
Subject: [PATCH 059/130] fix: keep a rejected commit message byte for byte

---
 .../py_repository/repo_hooks/validate_commit_message.py        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py b/scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py
index ddee7dd..aff5961 100755
--- a/scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py
+++ b/scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py
@@ -72,8 +72,7 @@ SUBJECT_RE = re.compile(
 
 def save_failed_message(msg_path: Path) -> Path:
     bak = msg_path.with_name(msg_path.name + ".failed")
-    bak.write_text(msg_path.read_text(encoding="utf-8", errors="replace"),
-                   encoding="utf-8")
+    bak.write_bytes(msg_path.read_bytes())
     log.info(f"saved your commit message to: {bak}")
     log.info("Continue editing with `git commit --edit -F .git/COMMIT_EDITMSG.failed`")
     return bak
-- 
2.43.0


From f07debff9b65ff0ebedad788d5336032a1f08f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:33:56 +0000
Subject: [PATCH 060/130] fix: require the blank line right after the commit
 subject

---
 .../py_repository/repo_hooks/validate_commit_message.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py b/scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py
index aff5961..fdd469f 100755
--- a/scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py
+++ b/scripts/py_repository/py_repository/repo_hooks/validate_commit_message.py
@@ -164,7 +164,7 @@ def main() -> int:
     rest = lines[subject_idx + 1:]
 
     try:
-        blank_pos = next(i for i, ln in enumerate(rest) if ln.strip() == "")
+        blank_pos = next(i for i, ln in enumerate(rest[:1]) if ln.strip() == "")
     except StopIteration:
         log.error("error: commit must have a body separated by a blank line")
         log.error("hint: add an empty line after the subject, then body text")
-- 
2.43.0


From f363dd781fbf25df64443086e58d55ea6e3d1b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:01 +0000
Subject: [PATCH 061/130] fix: run a task given by its function even if the
 name ends with _task

---
 .../py_repository/py_repository/repo_tasks/workflow_utils.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
index b2bc7c7..f01342b 100644
--- a/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
+++ b/scripts/py_repository/py_repository/repo_tasks/workflow_utils.py
@@ -261,7 +261,7 @@ args: {args}
 
     def run(self, target_name: str | Callable, *args: Any, **kwargs: Any) -> None:
         target_name = target_name if isinstance(target_name,
-                                                str) else target_name.__name__
+                                                str) else get_task_id(target_name)
 
         log(CAT).info(f"Starting with target {target_name}")
         target_id = self.graph.graph.vs.find(name=target_name).index
-- 
2.43.0


From 591526489c21fc86ecab792e9670ceca8fb4ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:01 +0000
Subject: [PATCH 062/130] fix: do not write a file named None for operations
 without a stamp

---
 scripts/py_scriptutils/py_scriptutils/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/files.py b/scripts/py_scriptutils/py_scriptutils/files.py
index 1579dd9..cfb33a3 100644
--- a/scripts/py_scriptutils/py_scriptutils/files.py
+++ b/scripts/py_scriptutils/py_scriptutils/files.py
@@ -263,7 +263,10 @@ class FileOperation:
         yield
 
         stamp = self.get_stamp_path(root)
-        if stamp is not None and not stamp.parent.exists():
+        if stamp is None:
+            return
+
+        if not stamp.parent.exists():
             stamp.parent.mkdir(parents=True)
 
         with open(str(stamp), "w") as file:
-- 
2.43.0


From 85f5adb3d5d820cf472bf73ea8d024f7cd587003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:44:01 +0000
Subject: [PATCH 063/130] fix: pass the operation arguments when collecting
 output files

---
 scripts/py_scriptutils/py_scriptutils/files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/files.py b/scripts/py_scriptutils/py_scriptutils/files.py
index cfb33a3..c2dbade 100644
--- a/scripts/py_scriptutils/py_scriptutils/files.py
+++ b/scripts/py_scriptutils/py_scriptutils/files.py
@@ -204,7 +204,7 @@ class FileOperation:
         stamp_path = self.get_stamp_path(root)
         return (self.input and IsNewInput(
             self.input,
-            self.get_output_files(root) or
+            self.get_output_files(root, **kwargs) or
             ([stamp_path] if stamp_path is not None else []), **kwargs)) or bool(
                 stamp_path and self.stamp_content_is_new(root, **kwargs))
 
@@ -229,7 +229,7 @@ class FileOperation:
                 ):
                     why += f"\n{line}"
 
-            min_time = min_mtime(self.get_output_files(root))
+            min_time = min_mtime(self.get_output_files(root, **kwargs))
             newer = [
                 p for p in self.get_input(**kwargs)
                 if p.exists() and min_time < p.stat().st_mtime
@@ -244,7 +244,7 @@ class FileOperation:
             if newer:
                 why += " {} files were changed since last creation of {}: {}".format(
                     len(newer),
-                    format_files(self.get_output_files(root)),
+                    format_files(self.get_output_files(root, **kwargs)),
                     format_files(newer),
                 )
 
-- 
2.43.0


From 30f6728c75ba2c57e4151bf036fb789853855c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:07 +0000
Subject: [PATCH 064/130] fix: never record a negative duration when the clock
 is set back

---
 scripts/py_scriptutils/py_scriptutils/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/tracer.py b/scripts/py_scriptutils/py_scriptutils/tracer.py
index ee93107..13e48c6 100644
--- a/scripts/py_scriptutils/py_scriptutils/tracer.py
+++ b/scripts/py_scriptutils/py_scriptutils/tracer.py
@@ -120,7 +120,7 @@ class TraceCollector:
             new_event = self.eventStacks[tid].pop()
             end_time = int(time.time() * 1e6)
             assert new_event.ts
-            new_event.dur = end_time - new_event.ts
+            new_event.dur = max(0, end_time - new_event.ts)
             self.traceEvents.append(new_event)
 
         return new_event
-- 
2.43.0


From 8aa181c8142adba2b1b52b79625622559a177e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:07 +0000
Subject: [PATCH 065/130] fix: keep the call site of a trace scope out of the
 caller's arguments

---
 scripts/py_scriptutils/py_scriptutils/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/tracer.py b/scripts/py_scriptutils/py_scriptutils/tracer.py
index 13e48c6..20f1c8c 100644
--- a/scripts/py_scriptutils/py_scriptutils/tracer.py
+++ b/scripts/py_scriptutils/py_scriptutils/tracer.py
@@ -137,7 +137,7 @@ class TraceCollector:
     ) -> Iterator[TraceEvent]:
 
         if file or line or function:
-            args = args or dict()
+            args = dict(args or {})
             args["call_file"] = file
             args["call_line"] = line
             args["call_function"] = function
-- 
2.43.0


From c13df460508b3ad7827152f60ab2b75a54bc970c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:07 +0000
Subject: [PATCH 066/130] fix: create the global trace collector once when
 threads race for it

---
 scripts/py_scriptutils/py_scriptutils/tracer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/py_scriptutils/py_scriptutils/tracer.py b/scripts/py_scriptutils/py_scriptutils/tracer.py
index 20f1c8c..1841e45 100644
--- a/scripts/py_scriptutils/py_scriptutils/tracer.py
+++ b/scripts/py_scriptutils/py_scriptutils/tracer.py
@@ -166,13 +166,15 @@ class TraceCollector:
 
 
 __global_trace_collector: Optional[TraceCollector] = None
+__global_trace_collector_lock = threading.Lock()
 
 
 @beartype
 def getGlobalTraceCollector() -> TraceCollector:
     global __global_trace_collector
-    if not __global_trace_collector:
-        __global_trace_collector = TraceCollector()
+    with __global_trace_collector_lock:
+        if not __global_trace_collector:
+            __global_trace_collector = TraceCollector()
 
     return __global_trace_collector
 
-- 
2.43.0


From dc0240eb8b70228f10afe25811f6d6b448f6ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:20 +0000
Subject: [PATCH 067/130] fix: moved log sink scopes restore the saved sinks
 exactly once

---
 src/hstd/ext/logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/logger.hpp b/src/hstd/ext/logger.hpp
index 5ac0108..5af5bf0 100644
--- a/src/hstd/ext/logger.hpp
+++ b/src/hstd/ext/logger.hpp
@@ -139,12 +139,12 @@ class log_sink_scope {
     log_sink_scope& operator=(log_sink_scope const&) = delete;
 
     log_sink_scope(log_sink_scope&& other) noexcept {
-        other.moved           = true;
+        this->moved           = std::exchange(other.moved, true);
         this->previous_sinks_ = std::move(other.previous_sinks_);
     };
 
     log_sink_scope& operator=(log_sink_scope&& other) noexcept {
-        other.moved           = true;
+        this->moved           = std::exchange(other.moved, true);
         this->previous_sinks_ = std::move(other.previous_sinks_);
         return *this;
     };
-- 
2.43.0


From ab54a1814e01c896013606c33276ce9df01f0d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:20 +0000
Subject: [PATCH 068/130] fix: moving a log builder keeps its finalizer and
 released state

---
 src/hstd/ext/logger.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/logger.hpp b/src/hstd/ext/logger.hpp
index 5af5bf0..c12e059 100644
--- a/src/hstd/ext/logger.hpp
+++ b/src/hstd/ext/logger.hpp
@@ -428,12 +428,14 @@ struct log_builder {
 
     log_builder(log_builder&& other) {
         this->rec         = std::move(other.rec);
-        other.is_released = true;
+        this->finalizer   = std::move(other.finalizer);
+        this->is_released = std::exchange(other.is_released, true);
     }
 
     log_builder& operator=(log_builder&& other) {
         this->rec         = std::move(other.rec);
-        other.is_released = true;
+        this->finalizer   = std::move(other.finalizer);
+        this->is_released = std::exchange(other.is_released, true);
         return *this;
     }
 
-- 
2.43.0


From 85d9b5a735929ea0346153fab3bdb63182842583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:20 +0000
Subject: [PATCH 069/130] fix: first metadata field of a log record is not lost

---
 src/hstd/ext/logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/logger.cpp b/src/hstd/ext/logger.cpp
index f3d2bf1..0bb05da 100644
--- a/src/hstd/ext/logger.cpp
+++ b/src/hstd/ext/logger.cpp
@@ -413,10 +413,10 @@ log_record& log_record::metadata(Str const& field, json const& value) {
     } else if (!data.metadata->is_object()) {
         throw std::domain_error(
             "Log record medata is already set, but it is not an object");
-    } else {
-        (*data.metadata)[field.toBase()] = value;
     }
 
+    (*data.metadata)[field.toBase()] = value;
+
     return *this;
 }
 
-- 
2.43.0


From c069a4b98717c89d40dc01cf4a73b3044f281708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:11:20 +0000
Subject: [PATCH 070/130] fix: concurrent threads log their own records

---
 src/hstd/ext/logger.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/hstd/ext/logger.cpp b/src/hstd/ext/logger.cpp
index 0bb05da..504d63d 100644
--- a/src/hstd/ext/logger.cpp
+++ b/src/hstd/ext/logger.cpp
@@ -57,18 +57,10 @@ using namespace hstd;
 
 BOOST_LOG_ATTRIBUTE_KEYWORD(a_file, HSLOG_RECORD_FIELD, hstd::log::log_record)
 
-typedef boost::log::attributes::mutable_constant<
-    hstd::log::log_record,                   // attribute value type
-    boost::shared_mutex,                     // synchronization primitive
-    boost::unique_lock<boost::shared_mutex>, // exclusive lock type
-    boost::shared_lock<boost::shared_mutex>  // shared lock type
-    >
-    log_record_mutable_constant;
-
 using namespace hstd::log;
 
 namespace {
-log_record_mutable_constant current_record{log_record{}};
+thread_local log_record const* current_record = nullptr;
 }
 
 BOOST_LOG_GLOBAL_LOGGER_INIT(
@@ -84,7 +76,10 @@ BOOST_LOG_GLOBAL_LOGGER_INIT(
         }));
 
     boost::log::add_common_attributes();
-    logger.add_attribute(HSLOG_RECORD_FIELD, current_record);
+    logger.add_attribute(
+        HSLOG_RECORD_FIELD, boost::log::attributes::make_function([]() -> log_record {
+            return current_record ? *current_record : log_record{};
+        }));
     return logger;
 }
 
@@ -534,11 +529,12 @@ record_type start_log_record(boost::log::trivial::severity_level level) {
 } // namespace
 
 void hstd::log::log_record::end() {
-    // current record is global, but synced, and all record attributes are
+    // current record is set for each thread, and all record attributes are
     // evaluated when record is opened.
-    current_record.set(*this);
-    ::boost::log::record rec_var = start_log_record(
+    auto const*          outer_record = std::exchange(current_record, this);
+    ::boost::log::record rec_var      = start_log_record(
         static_cast<boost::log::trivial::severity_level>(data.severity));
+    current_record = outer_record;
     // if the record did not pass filtering, it will return empty, and
     // should not be submitted.
     if (!!rec_var) { logging::core::get()->push_record(std::move(rec_var)); }
-- 
2.43.0


From 84a34009191aeecc23151bafe1d7125b11d0fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 071/130] fix: removing a graph edge forgets that edge and
 nothing else

---
 src/hstd/ext/graph/base/graph_edge.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hstd/ext/graph/base/graph_edge.cpp b/src/hstd/ext/graph/base/graph_edge.cpp
index 4aef2f5..d61fff9 100644
--- a/src/hstd/ext/graph/base/graph_edge.cpp
+++ b/src/hstd/ext/graph/base/graph_edge.cpp
@@ -151,9 +151,16 @@ void IEdgeCollection::untrackEdge(EdgeID const& id) {
 
     if (incoming_from.contains(target)) {
         auto& sources = incoming_from.at(target);
-        std::erase(sources, source);
+        // one entry per edge, parallel edges keep theirs
+        if (auto it = std::find(sources.begin(), sources.end(), source);
+            it != sources.end()) {
+            sources.erase(it);
+        }
         if (sources.empty()) { incoming_from.erase(target); }
     }
+
+    source_target.erase(id);
+    stableIdMap.erase(getEdge(id)->getStableId());
 }
 
 std::string IEdgeProvider::getStableID() const {
-- 
2.43.0


From 3032a27f0d7fa1a4a90ab6af0eb63d372e5fe552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 072/130] fix: edge collections without edge objects can track
 edges

---
 src/hstd/ext/graph/base/graph_edge.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_edge.cpp b/src/hstd/ext/graph/base/graph_edge.cpp
index d61fff9..928a64f 100644
--- a/src/hstd/ext/graph/base/graph_edge.cpp
+++ b/src/hstd/ext/graph/base/graph_edge.cpp
@@ -108,12 +108,14 @@ void hstd::ext::graph::IEdgeCollection::trackEdge(
         "hasEdge({}) = false",
         id);
 
-    LOGIC_ASSERTION_CHECK_FMT(
-        !hasEdgeStableId(getEdge(id)->getStableId()),
-        "The collection already contains edge with stable ID {}",
-        getEdge(id)->getStableId());
+    if (IEdge const* edge = getEdge(id)) {
+        LOGIC_ASSERTION_CHECK_FMT(
+            !hasEdgeStableId(edge->getStableId()),
+            "The collection already contains edge with stable ID {}",
+            edge->getStableId());
 
-    stableIdMap.insert_or_assign(getEdge(id)->getStableId(), id);
+        stableIdMap.insert_or_assign(edge->getStableId(), id);
+    }
 
     if (!incidence.contains(source)) {
         incidence.insert_or_assign(
@@ -160,7 +162,7 @@ void IEdgeCollection::untrackEdge(EdgeID const& id) {
     }
 
     source_target.erase(id);
-    stableIdMap.erase(getEdge(id)->getStableId());
+    if (IEdge const* edge = getEdge(id)) { stableIdMap.erase(edge->getStableId()); }
 }
 
 std::string IEdgeProvider::getStableID() const {
-- 
2.43.0


From 8ffc62ad0302ad67d1a20379dd61b4fa28b593cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 073/130] fix: incoming neighbours of a vertex are the edge
 sources

---
 src/hstd/ext/graph/base/graph_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/graph/base/graph_edge.cpp b/src/hstd/ext/graph/base/graph_edge.cpp
index 928a64f..1f0d61a 100644
--- a/src/hstd/ext/graph/base/graph_edge.cpp
+++ b/src/hstd/ext/graph/base/graph_edge.cpp
@@ -179,7 +179,7 @@ hstd::ext::graph::VertexIDSet hstd::ext::graph::IEdgeProvider::getInNodes(
     VertexID id) const {
     return VertexIDSet::FromIterable(
         hstd::own_view(getIncoming(id))
-        | hstd::rv::transform([&](EdgeID e) -> VertexID { return getTarget(e); }));
+        | hstd::rv::transform([&](EdgeID e) -> VertexID { return getSource(e); }));
 }
 
 EdgeCollectionID IEdgeProvider::edgeCategoryFromEdge(EdgeID const& id) {
-- 
2.43.0


From 04b1c2a5e6c66c1c1ade78dabc06d8b403d8907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 074/130] fix: removing a graph vertex works with hierarchies
 and frees its stable id

---
 src/hstd/ext/graph/base/graph_base.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_base.cpp b/src/hstd/ext/graph/base/graph_base.cpp
index 316d444..1a057d3 100644
--- a/src/hstd/ext/graph/base/graph_base.cpp
+++ b/src/hstd/ext/graph/base/graph_base.cpp
@@ -217,6 +217,8 @@ hstd::UnorderedMap<EdgeCollectionID, IEdgeCollection::DependantDeletion> hstd::e
     hstd::UnorderedMap<EdgeCollectionID, IEdgeProvider::DependantDeletion> result;
 
     for (auto const& [hierarchy_id, hierarchy] : hierarchies) {
+        // hierarchies cover only a part of the graph vertices
+        if (!hierarchy->isTrackingVertex(id)) { continue; }
         auto deleted_by_provider = hierarchy->untrackVertex(id);
         result.insert_or_assign(hierarchy_id, deleted_by_provider);
     }
@@ -225,11 +227,10 @@ hstd::UnorderedMap<EdgeCollectionID, IEdgeCollection::DependantDeletion> hstd::e
         collection->untrackVertex(id);
     }
 
-    for (auto& collection : getEdgeProviders()) { collection->untrackVertex(id); }
-
     for (auto& track : trackers) { track.second->untrackVertex(id); }
 
     vertexIDs.erase(id);
+    stableIdMap.erase(getVertex(id)->getStableId());
     return result;
 }
 
-- 
2.43.0


From 3141b538be8f2450e2d8a67f91bf7e7098f2595d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 075/130] fix: rejected graph vertex is not half registered

---
 src/hstd/ext/graph/base/graph_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/graph/base/graph_base.cpp b/src/hstd/ext/graph/base/graph_base.cpp
index 1a057d3..1fdf799 100644
--- a/src/hstd/ext/graph/base/graph_base.cpp
+++ b/src/hstd/ext/graph/base/graph_base.cpp
@@ -202,8 +202,8 @@ void hstd::ext::graph::IGraph::trackVertex(VertexID const& id) {
     if (vertexIDs.contains(id)) {
         throw graph_error::init(fmt::format("Vertex {} already registered", id));
     }
-    vertexIDs.insert(id);
     stableIdMap.insert_unqiue(getVertex(id)->getStableId(), id);
+    vertexIDs.insert(id);
 
     for (auto& track : trackers) { track.second->trackVertex(id); }
 }
-- 
2.43.0


From 01a0735758ef62d052a806697eccc8a89032f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 076/130] fix: removed vertex nesting drops the nesting edge

---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index a172ad6..83b1f9a 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -30,6 +30,8 @@ IEdgeProvider::DependantDeletion IVertexHierarchy::untrackVertex(VertexID const&
         if (parentMap.contains(vertex_id)) {
             auto parent = parentMap.at(vertex_id);
             parentMap.erase(vertex_id);
+            result.edges.incl(edgeTracker.at_right({parent, vertex_id}));
+            edgeTracker.erase_left({parent, vertex_id});
             if (nestedInMap.contains(parent)) {
                 nestedInMap.at(parent).erase(vertex_id);
                 if (nestedInMap.at(parent).empty()) { nestedInMap.erase(parent); }
@@ -40,6 +42,8 @@ IEdgeProvider::DependantDeletion IVertexHierarchy::untrackVertex(VertexID const&
             auto nested = nestedInMap.at(vertex_id);
             for (auto const& sub : nested) {
                 parentMap.erase(sub);
+                result.edges.incl(edgeTracker.at_right({vertex_id, sub}));
+                edgeTracker.erase_left({vertex_id, sub});
                 rootVertices.insert(sub);
             }
             nestedInMap.erase(vertex_id);
@@ -198,6 +202,7 @@ void IVertexHierarchy::untrackSubVertexRelation(
     }
 
     parentMap.erase(sub);
+    edgeTracker.erase_left({parent, sub});
     if (nestedInMap.contains(parent)) {
         nestedInMap.at(parent).erase(sub);
         if (nestedInMap.at(parent).empty()) { nestedInMap.erase(parent); }
-- 
2.43.0


From 9a20e1b53cb7a5e3e57e48582f3ac052015510d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 077/130] fix: vertex hierarchies reject nesting cycles

---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index 83b1f9a..f26f59c 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -161,6 +161,11 @@ void IVertexHierarchy::trackSubVertexRelation(
         throw graph_error::init(fmt::format("Vertex {} already has a parent", sub));
     }
 
+    if (parent == sub || getParentChain(parent).contains(sub)) {
+        throw graph_error::init(
+            fmt::format("Vertex {} cannot be nested under its own descendant", sub));
+    }
+
     parentMap.insert_or_assign(sub, parent);
     if (!nestedInMap.contains(parent)) {
         nestedInMap.insert_or_assign(parent, hstd::UnorderedSet<VertexID>{});
-- 
2.43.0


From 1342bd306c0cb9002236137b02b603289bcbe5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 078/130] fix: parent chain stops at the requested vertex

---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index f26f59c..b26ccca 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -423,8 +423,8 @@ hstd::Vec<VertexID> hstd::ext::graph::IVertexHierarchy::getParentChainUntil(
     VertexID const& finish) const {
     hstd::Vec<VertexID> result;
     auto                current = start;
-    for (; auto parent = getParentVertex(current);
-         parent.has_value() && parent != finish) {
+    while (auto parent = getParentVertex(current)) {
+        if (parent.value() == finish) { break; }
         result.push_back(parent.value());
         current = parent.value();
     }
-- 
2.43.0


From 04143f7b9bdf649eaf38ba4157244be1e57cfa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 079/130] fix: rejected nesting does not replace the existing
 nesting edge

---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index b26ccca..fed0264 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -515,10 +515,12 @@ EdgeID TrivialHierarchy::trackSubVertexRelation(
     VertexID const&               sub,
     hstd::Opt<TrivialEdge> const& init_vertex) {
     auto id = getNestingEdgeID(parent, sub);
-    addEdge(
-        id,
-        init_vertex.has_value() ? init_vertex.value()
-                                : TrivialEdge{hstd::fmt("{}-{}", parent, sub)});
+    if (!isTrackingEdge(id)) {
+        addEdge(
+            id,
+            init_vertex.has_value() ? init_vertex.value()
+                                    : TrivialEdge{hstd::fmt("{}-{}", parent, sub)});
+    }
     IVertexHierarchy::trackSubVertexRelation(id, parent, sub);
     return id;
 }
-- 
2.43.0


From 2fa912b9c6b32f420bb1f7f050b42cf54aff3d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 080/130] fix: graph object hash starts from a defined value

---
 src/hstd/ext/graph/base/graph_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/graph/base/graph_common.cpp b/src/hstd/ext/graph/base/graph_common.cpp
index fccf742..113e996 100644
--- a/src/hstd/ext/graph/base/graph_common.cpp
+++ b/src/hstd/ext/graph/base/graph_common.cpp
@@ -5,7 +5,7 @@
 using namespace hstd::ext::graph;
 
 std::size_t IGraphObjectBase::getHash() const {
-    std::size_t res;
+    std::size_t res = 0;
     hstd::hax_hash_combine(res, stable_id);
     return res;
 }
-- 
2.43.0


From 4d20b3048ded2e465571b7df01ae77aea66277aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:17 +0000
Subject: [PATCH 081/130] fix: unique graph attributes are compared by their
 own type

---
 src/hstd/ext/graph/base/graph_attribute.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_attribute.hpp b/src/hstd/ext/graph/base/graph_attribute.hpp
index 5ab0055..96da661 100644
--- a/src/hstd/ext/graph/base/graph_attribute.hpp
+++ b/src/hstd/ext/graph/base/graph_attribute.hpp
@@ -120,13 +120,13 @@ class IAttributeObject {
         requires std::derived_from<T, IAttribute>
     void addUniqueAttribute(hstd::SPtr<T> const& attr, std::string const& err_ctx = "") {
         for (auto const& existing : getAttributes()) {
-            if (typeid(attr.get()) == typeid(existing.get())) {
+            if (typeid(*attr) == typeid(*existing)) {
                 throw graph_error::init(
                     hstd::fmt(
                         "Graph object is required to have only one "
                         "attribute of type {}, but the code is attempting "
                         "to add a new instance. {}",
-                        typeid(attr.get()).name(),
+                        typeid(*attr).name(),
                         err_ctx));
             }
         }
@@ -138,13 +138,16 @@ class IAttributeObject {
         requires std::derived_from<T, IAttribute>
     void addOrResetUniqueAttribute(hstd::SPtr<T> const& attr) {
         hstd::Vec<hstd::SPtr<IAttribute>> new_list;
+        bool                              replaced = false;
         for (auto const& existing : getAttributes()) {
-            if (typeid(attr.get()) == typeid(existing.get())) {
-                new_list.push_back(attr);
+            if (typeid(*attr) == typeid(*existing)) {
+                if (!replaced) { new_list.push_back(attr); }
+                replaced = true;
             } else {
                 new_list.push_back(existing);
             }
         }
+        if (!replaced) { new_list.push_back(attr); }
         setAttributes(new_list);
     }
 
-- 
2.43.0


From 2448c25253fcfac67185e97431362507739582f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:34:22 +0000
Subject: [PATCH 082/130] fix: ports tell edges of different collections apart

---
 src/hstd/ext/graph/base/graph_port.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_port.hpp b/src/hstd/ext/graph/base/graph_port.hpp
index e9e2f99..dc8988c 100644
--- a/src/hstd/ext/graph/base/graph_port.hpp
+++ b/src/hstd/ext/graph/base/graph_port.hpp
@@ -57,6 +57,14 @@ class IPortCollection {
     struct ByEdgeID {};
     struct ByPortIDInEdgeMap {};
 
+    // ordering of the IDs ignores the mask, but edges of different
+    // collections differ in nothing else
+    struct EdgeIDLess {
+        bool operator()(EdgeID const& lhs, EdgeID const& rhs) const {
+            return lhs.getValue() < rhs.getValue();
+        }
+    };
+
     using PortContainer = bmi::multi_index_container<
         PortEntry,
         bmi::indexed_by<
@@ -78,10 +86,15 @@ class IPortCollection {
                     PortEdgeEntry,
                     bmi::member<PortEdgeEntry, PortID, &PortEdgeEntry::port>,
                     bmi::member<PortEdgeEntry, EdgeID, &PortEdgeEntry::edge>,
-                    bmi::member<PortEdgeEntry, bool, &PortEdgeEntry::is_source>>>,
+                    bmi::member<PortEdgeEntry, bool, &PortEdgeEntry::is_source>>,
+                bmi::composite_key_compare<
+                    std::less<PortID>,
+                    EdgeIDLess,
+                    std::less<bool>>>,
             bmi::ordered_non_unique<
                 bmi::tag<ByEdgeID>,
-                bmi::member<PortEdgeEntry, EdgeID, &PortEdgeEntry::edge>>,
+                bmi::member<PortEdgeEntry, EdgeID, &PortEdgeEntry::edge>,
+                EdgeIDLess>,
             // Non-unique: edge — range query for "ports of edge"
             bmi::ordered_non_unique<
                 bmi::tag<ByPortIDInEdgeMap>,
-- 
2.43.0


From 047df718fdf6101e40d44f8d9f1b3b10d0178b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:35 +0000
Subject: [PATCH 083/130] fix: hierarchy crossings between vertices at
 different depths

---
 src/hstd/ext/graph/base/graph_hierarchy.cpp | 71 +++++----------------
 1 file changed, 17 insertions(+), 54 deletions(-)

diff --git a/src/hstd/ext/graph/base/graph_hierarchy.cpp b/src/hstd/ext/graph/base/graph_hierarchy.cpp
index fed0264..23f4852 100644
--- a/src/hstd/ext/graph/base/graph_hierarchy.cpp
+++ b/src/hstd/ext/graph/base/graph_hierarchy.cpp
@@ -60,68 +60,31 @@ IEdgeProvider::DependantDeletion IVertexHierarchy::untrackVertex(VertexID const&
 hstd::Vec<VertexID> IVertexHierarchy::getHierarchyCrossings(
     VertexID const& source,
     VertexID const& target) const {
-    auto findLCA = [this](VertexID u, VertexID v) -> VertexID {
-        hstd::UnorderedSet<VertexID> parents{};
-        while (true) {
-            parents.insert(u);
-            u = parentMap.contains(u) ? parentMap.at(u) : u;
-            if (parents.contains(v)) { return v; }
-            if (!parentMap.contains(v)) { break; }
-            v = parentMap.at(v);
-        }
-        return u;
-    };
-
-    bool sourceHasParent = parentMap.contains(source);
-    bool targetHasParent = parentMap.contains(target);
+    auto sourceChain = getParentChain(source);
+    auto targetChain = getParentChain(target);
 
-    if (!sourceHasParent && !targetHasParent) { return {}; }
-    if (sourceHasParent && targetHasParent
-        && parentMap.at(source) == parentMap.at(target)) {
-        return {};
+    // the edge ends at the group that directly encloses the source
+    if (!sourceChain.empty() && sourceChain.front() == target) {
+        if (targetChain.empty()) { return {}; }
+        return {target};
     }
 
-    auto lca = findLCA(source, target);
-
     hstd::Vec<VertexID> path{};
 
-    if (lca == source || lca == target) {
-        // source is the ancestor of the target
-        if (lca == source) {
-            VertexID current = target;
-            while (current != lca) {
-                if (current != target) { path.emplace_back(current); }
-                current = parentMap.at(current);
-            }
-        } else {
-            VertexID current = source;
-            while (current != lca) {
-                if (current != source) { path.emplace_back(current); }
-                current = parentMap.at(current);
-            }
-        }
-    } else {
-        VertexID current = source;
-        while (current != lca) {
-            if (current != source) { path.emplace_back(current); }
-            current = parentMap.at(current);
-        }
-
-        current = target;
-        std::stack<VertexID> temp{};
-
-        while (current != lca) {
-            temp.push(current);
-            current = parentMap.at(current);
-        }
-
-        while (!temp.empty()) {
-            if (temp.top() != target) { path.emplace_back(temp.top()); }
-            temp.pop();
-        }
+    // up from the source to the common ancestor, if there is one
+    for (auto const& current : sourceChain) {
+        if (current == target || targetChain.contains(current)) { break; }
+        path.push_back(current);
     }
 
+    // and down from it to the target
+    hstd::Vec<VertexID> down{};
+    for (auto const& current : targetChain) {
+        if (current == source || sourceChain.contains(current)) { break; }
+        down.push_back(current);
+    }
 
+    path.insert(path.end(), down.rbegin(), down.rend());
     return path;
 }
 
-- 
2.43.0


From bd2c2164803a62ad03b4e65663877984e2817365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:24 +0000
Subject: [PATCH 084/130] fix: empty layout blocks keep the text that follows
 them

---
 src/hstd/ext/textlayouter.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hstd/ext/textlayouter.cpp b/src/hstd/ext/textlayouter.cpp
index 458f393..c6921b1 100644
--- a/src/hstd/ext/textlayouter.cpp
+++ b/src/hstd/ext/textlayouter.cpp
@@ -470,6 +470,8 @@ Opt<Solution::Ptr> doOptLineLayout(
         if (lnLayout.has_value()) { lineSolns.push_back(lnLayout.value()); }
     }
 
+    if (lineSolns.empty()) { return std::nullopt; }
+
     Solution::Ptr soln = vSumSolution(lineSolns);
 
     return Opt<Solution::Ptr>(
@@ -489,6 +491,7 @@ Opt<Solution::Ptr> doOptChoiceLayout(
         Opt<Solution::Ptr> lyt = optLayout(store, it, rest, opts);
         if (lyt.has_value()) { tmp.push_back(lyt.value()); }
     }
+    if (tmp.empty()) { return std::nullopt; }
     return minSolution(tmp);
 }
 
@@ -514,6 +517,8 @@ Opt<Solution::Ptr> doOptStackLayout(
         }
     }
 
+    if (solnCandidates.empty()) { return std::nullopt; }
+
     Solution::Ptr soln = vSumSolution(solnCandidates);
 
     // Under some odd circumstances involving comments, we may have a
@@ -536,6 +541,8 @@ Opt<Solution::Ptr> doOptWrapLayout(
     /// Computing the optimum layout for this class of block involves
     /// finding the optimal packing of elements into lines, a problem
     /// which we address using dynamic programming.
+    if (store.at(self).getWrap().wrapElements.empty()) { return rest; }
+
     BlockId            initTextBlock_sep = store.text(store.at(self).getWrap().sep);
     Opt<Solution::Ptr> none_Solution;
     Opt<Solution::Ptr> sepLayout = optLayout(
@@ -670,7 +677,7 @@ Opt<Solution::Ptr> doOptLayout(
     Opt<Solution::Ptr>& rest,
     Options const&      opts) {
     switch (store.at(self).getKind()) {
-        case Block::Kind::Empty: return std::nullopt;
+        case Block::Kind::Empty: return rest;
         case Block::Kind::Verb: return doOptVerbLayout(store, self, rest, opts);
         case Block::Kind::Wrap: return doOptWrapLayout(store, self, rest, opts);
         case Block::Kind::Line: return doOptLineLayout(store, self, rest, opts);
@@ -911,6 +918,7 @@ BlockId BlockStore::horizontal(Vec<BlockId> const& blocks, BlockId const& sep) {
 Vec<Layout::Ptr> BlockStore::toLayouts(BlockId id, Options const& opts) {
     Opt<Solution::Ptr> rest;
     auto               sln = doOptLayout(*this, id, rest, opts);
+    if (!sln.has_value()) { return {Layout::shared()}; }
     return sln.value()->layouts;
 }
 
-- 
2.43.0


From a2c372be9846568345c347fe5ad2a8f8d7fc14d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:24 +0000
Subject: [PATCH 085/130] fix: text past the right margin costs the right
 margin cost

---
 src/hstd/ext/textlayouter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/textlayouter.cpp b/src/hstd/ext/textlayouter.cpp
index c6921b1..40219e4 100644
--- a/src/hstd/ext/textlayouter.cpp
+++ b/src/hstd/ext/textlayouter.cpp
@@ -389,7 +389,7 @@ Opt<Solution::Ptr> doOptTextLayout(
             Vec<int>{span},
             Vec<float>{static_cast<float>(
                 (span - opts.leftMargin) * opts.leftMarginCost
-                + (span - opts.rightMargin) * opts.rightMargin)},
+                + (span - opts.rightMargin) * opts.rightMarginCost)},
             Vec<float>{static_cast<float>(opts.leftMarginCost + opts.rightMarginCost)},
             Vec<Layout::Ptr>{layout});
 
-- 
2.43.0


From b33b05b12d19af3d80d6d48ea40dcddbb896d71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:24 +0000
Subject: [PATCH 086/130] fix: choosing between layouts of equal cost
 terminates

---
 src/hstd/ext/textlayouter.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/hstd/ext/textlayouter.cpp b/src/hstd/ext/textlayouter.cpp
index 40219e4..2227b29 100644
--- a/src/hstd/ext/textlayouter.cpp
+++ b/src/hstd/ext/textlayouter.cpp
@@ -103,12 +103,17 @@ Opt<Solution::Ptr> minSolution(Vec<Solution::Ptr> solutions) {
             Vec<float> values;
             for (const auto& s : solutions) { values.push_back(s->curValueAt(kL)); }
 
-            auto minIt = std::min_element(
-                std::begin(values), std::end(values), [](float const& a, float const& b) {
-                    return a < b;
-                });
-            int           iMinSoln    = std::distance(std::begin(values), minIt);
-            float         minValue    = *minIt;
+            // Of several solutions with the same cost take the one that grows
+            // the least, otherwise it crosses the minimum right here.
+            int iMinSoln = 0;
+            for (int i = 1; i < n; ++i) {
+                if (values[i] < values[iMinSoln]
+                    || (values[i] == values[iMinSoln]
+                        && gradients[i] < gradients[iMinSoln])) {
+                    iMinSoln = i;
+                }
+            }
+            float         minValue    = values[iMinSoln];
             float         minGradient = gradients[iMinSoln];
             Solution::Ptr minSoln     = solutions[iMinSoln];
 
-- 
2.43.0


From e8e400e4ce6bb563b68aa266a8b8c241943518b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:24 +0000
Subject: [PATCH 087/130] fix: layouts are not reused for other options or a
 changed block

---
 src/hstd/ext/textlayouter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hstd/ext/textlayouter.cpp b/src/hstd/ext/textlayouter.cpp
index 2227b29..81ef921 100644
--- a/src/hstd/ext/textlayouter.cpp
+++ b/src/hstd/ext/textlayouter.cpp
@@ -921,6 +921,8 @@ BlockId BlockStore::horizontal(Vec<BlockId> const& blocks, BlockId const& sep) {
 }
 
 Vec<Layout::Ptr> BlockStore::toLayouts(BlockId id, Options const& opts) {
+    // Cached layouts belong to the options and the content they were made for
+    for (auto& block : store.content) { block.layoutCache.clear(); }
     Opt<Solution::Ptr> rest;
     auto               sln = doOptLayout(*this, id, rest, opts);
     if (!sln.has_value()) { return {Layout::shared()}; }
-- 
2.43.0


From ed5dc4b7c0803fef8e29cefc9885a8e686406977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:54:24 +0000
Subject: [PATCH 088/130] fix: verbatim layout blocks can be laid out

---
 src/hstd/ext/textlayouter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hstd/ext/textlayouter.cpp b/src/hstd/ext/textlayouter.cpp
index 81ef921..aa88db9 100644
--- a/src/hstd/ext/textlayouter.cpp
+++ b/src/hstd/ext/textlayouter.cpp
@@ -650,7 +650,7 @@ Opt<Solution::Ptr> doOptVerbLayout(
 
     for (size_t i = 0; i < store.at(self).getVerb().textLines.size(); ++i) {
         auto const& ln = store.at(self).getVerb().textLines[i];
-        if (i < 0 || store.at(self).getVerb().firstNl) {
+        if (0 < i || store.at(self).getVerb().firstNl) {
             lElts.push_back(LayoutElement::newline());
         }
 
@@ -659,7 +659,7 @@ Opt<Solution::Ptr> doOptVerbLayout(
 
     Layout::Ptr   layout = Layout::shared(lElts);
     int           span   = 0;
-    Solution::Ptr sf;
+    Solution::Ptr sf     = Solution::shared();
     if (0 < opts.leftMargin) { // Prevent incoherent solutions
         sf->add(0, span, 0, 0, layout);
     }
@@ -672,7 +672,7 @@ Opt<Solution::Ptr> doOptVerbLayout(
         opts.leftMarginCost + opts.rightMarginCost,
         layout);
 
-    return Opt<Solution::Ptr>(sf);
+    return withRestOfLine(Opt<Solution::Ptr>(sf), rest, opts);
 }
 
 
-- 
2.43.0


From a785e8fd5ec5f2224b5cfc841f2de1c4ed5ebd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:55:10 +0000
Subject: [PATCH 089/130] fix: layout of nested blocks does not refer to
 relocated blocks

---
 src/hstd/ext/textlayouter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hstd/ext/textlayouter.cpp b/src/hstd/ext/textlayouter.cpp
index aa88db9..3d364b3 100644
--- a/src/hstd/ext/textlayouter.cpp
+++ b/src/hstd/ext/textlayouter.cpp
@@ -492,7 +492,9 @@ Opt<Solution::Ptr> doOptChoiceLayout(
     /// Optimum layout of this block is the piecewise minimum of its
     /// elements' layouts.
     Vec<Solution::Ptr> tmp;
-    for (auto& it : store.at(self).getChoice().elements) {
+    // Laying out an element can add blocks, which relocates this one
+    Vec<BlockId> elements = store.at(self).getChoice().elements;
+    for (auto& it : elements) {
         Opt<Solution::Ptr> lyt = optLayout(store, it, rest, opts);
         if (lyt.has_value()) { tmp.push_back(lyt.value()); }
     }
@@ -511,7 +513,7 @@ Opt<Solution::Ptr> doOptStackLayout(
 
     Vec<Solution::Ptr> solnCandidates;
     for (size_t idx = 0; idx < store.at(self).getStack().elements.size(); ++idx) {
-        auto& elem = store.at(self).getStack().elements.at(idx);
+        BlockId elem = store.at(self).getStack().elements.at(idx);
         if (idx < store.at(self).getStack().elements.size() - 1) {
             Opt<Solution::Ptr> it;
             auto               opt = optLayout(store, elem, it, opts);
@@ -562,7 +564,8 @@ Opt<Solution::Ptr> doOptWrapLayout(
     }
 
     Vec<Opt<Solution::Ptr>> eltLayouts;
-    for (auto& it : store.at(self).getWrap().wrapElements) {
+    Vec<BlockId>            wrapElements = store.at(self).getWrap().wrapElements;
+    for (auto& it : wrapElements) {
         Opt<Solution::Ptr> tmp;
         eltLayouts.push_back(optLayout(store, it, tmp, opts));
     }
-- 
2.43.0


From 34f5c8c00a271b2176a6ebb39cec40e674ec1572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:57:36 +0000
Subject: [PATCH 090/130] fix: stacking layouts that change at large margins
 terminates

---
 src/hstd/ext/textlayouter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/textlayouter.cpp b/src/hstd/ext/textlayouter.cpp
index 3d364b3..d8b0293 100644
--- a/src/hstd/ext/textlayouter.cpp
+++ b/src/hstd/ext/textlayouter.cpp
@@ -226,7 +226,7 @@ Solution::Ptr vSumSolution(Vec<Solution::Ptr> solutions) {
             }
         }
 
-        if (isInf(dStar)) { break; }
+        if (isInf(margin + dStar)) { break; }
 
         margin += dStar;
 
-- 
2.43.0


From 9c671eac00342425d2d1b849ebf7fef1bf1ab9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:07:22 +0000
Subject: [PATCH 091/130] fix: moved and updated tree nodes are reported as
 updated

---
 src/hstd/ext/astdiff/astdiff.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/astdiff/astdiff.hpp b/src/hstd/ext/astdiff/astdiff.hpp
index 3f46563..c60e64a 100644
--- a/src/hstd/ext/astdiff/astdiff.hpp
+++ b/src/hstd/ext/astdiff/astdiff.hpp
@@ -464,7 +464,7 @@ class ASTDiff {
             case ChangeKind::UpdateMove:
             case ChangeKind::Move: {
                 result.data = typename Change::Move{
-                    .update = node.Change == ChangeKind::Update,
+                    .update = node.Change == ChangeKind::UpdateMove,
                     .from   = Change::MovePoint{
                          src.getNode(srcNode).Parent,
                          src.findPositionInParent(srcNode, true),
-- 
2.43.0


From 96b19ebd4dd800fee7bf0474f9a73b349b68fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:07:22 +0000
Subject: [PATCH 092/130] fix: ancestors of a changed tree node come from its
 own tree

---
 src/hstd/ext/astdiff/astdiff.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hstd/ext/astdiff/astdiff.hpp b/src/hstd/ext/astdiff/astdiff.hpp
index c60e64a..4480251 100644
--- a/src/hstd/ext/astdiff/astdiff.hpp
+++ b/src/hstd/ext/astdiff/astdiff.hpp
@@ -410,7 +410,7 @@ class ASTDiff {
 
         // clang-format off
         Vec<NodeIdx> getSrcChain(bool withSelf = true) const { return diff->src.getParentIdChain(src, withSelf); }
-        Vec<NodeIdx> getDstChain(bool withSelf = true) const { return diff->src.getParentIdChain(src, withSelf); }
+        Vec<NodeIdx> getDstChain(bool withSelf = true) const { return diff->dst.getParentIdChain(dst, withSelf); }
         Vec<SyntaxTree::PathElement> getSrcPath() const { return diff->src.getNodePath(src); }
         Vec<SyntaxTree::PathElement> getDstPath() const { return diff->dst.getNodePath(dst); }
         Vec<NodeStore::Id> getBaseSrcChain(bool withSelf = true) const { return diff->src.getBaseParentIdChain(src, withSelf); }
-- 
2.43.0


From ad98387c239f133c356b65f7e0b68a1e04a1bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:07:22 +0000
Subject: [PATCH 093/130] fix: tree matching follows the configured edit costs

---
 src/hstd/ext/astdiff/astdiff.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hstd/ext/astdiff/astdiff.cpp b/src/hstd/ext/astdiff/astdiff.cpp
index 965a0a7..7bf68aa 100644
--- a/src/hstd/ext/astdiff/astdiff.cpp
+++ b/src/hstd/ext/astdiff/astdiff.cpp
@@ -320,11 +320,13 @@ Vec<std::pair<NodeIdx, NodeIdx>> ZhangShashaMatcher::getMatchingNodes() {
         while (Row > FirstRow || Col > FirstCol) {
             // COUT << "rowcol " << Row << " " << Col << "\n";
             // COUT << ForestDist << "\n";
-            if (Row > FirstRow && ForestDist[Row - 1][Col] + 1 == ForestDist[Row][Col]) {
+            if (Row > FirstRow
+                && ForestDist[Row - 1][Col] + opts.DeletionCost == ForestDist[Row][Col]) {
                 // COUT << "Dec col\n";
                 --Row;
             } else if (
-                Col > FirstCol && ForestDist[Row][Col - 1] + 1 == ForestDist[Row][Col]) {
+                Col > FirstCol
+                && ForestDist[Row][Col - 1] + opts.InsertionCost == ForestDist[Row][Col]) {
                 // COUT << "Dec row\n";
                 --Col;
             } else {
-- 
2.43.0


From d946902f73113fef5a49fa430597a0f4cb2d0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:07:22 +0000
Subject: [PATCH 094/130] fix: equal tree nodes at the same place are not
 swapped

---
 src/hstd/ext/astdiff/astdiff_eager.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hstd/ext/astdiff/astdiff_eager.cpp b/src/hstd/ext/astdiff/astdiff_eager.cpp
index 8661175..e2aac51 100644
--- a/src/hstd/ext/astdiff/astdiff_eager.cpp
+++ b/src/hstd/ext/astdiff/astdiff_eager.cpp
@@ -132,16 +132,16 @@ struct EagerAstDiff {
             }
         }
 
-        if (moveCandidate.has_value() && moveCandidate->isExactMatch) {
-            HSLOG_TRACE("Selecting exact move candidate");
-            return moveCandidate;
-        }
-
         if (exactMatch.has_value()) {
             HSLOG_TRACE("Selecting exact match");
             return exactMatch;
         }
 
+        if (moveCandidate.has_value() && moveCandidate->isExactMatch) {
+            HSLOG_TRACE("Selecting exact move candidate");
+            return moveCandidate;
+        }
+
         if (diaIdMatch.has_value()) {
             HSLOG_TRACE("Selecting DiaId match");
             return diaIdMatch;
-- 
2.43.0


From 49a8bcfeb234383ec0a9aa8055852e6ef23dcd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:23 +0000
Subject: [PATCH 095/130] fix: text property at the end of the document can be
 tokenized

---
 src/haxorg/parse/OrgTokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgTokenizer.cpp b/src/haxorg/parse/OrgTokenizer.cpp
index 3c25ace..20e3ece 100644
--- a/src/haxorg/parse/OrgTokenizer.cpp
+++ b/src/haxorg/parse/OrgTokenizer.cpp
@@ -376,7 +376,7 @@ struct RecombineState {
                 break;
             case otk::CmdPropertyText:
                 pop_as(otk::CmdRawArg);
-                while (!lex.at(line_end)) { map_interpreted_token(); }
+                while (lex.can_search(line_end)) { map_interpreted_token(); }
                 break;
             default:
         }
-- 
2.43.0


From 5dcf5950d72f794d910681e029bc6b0446858821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:23 +0000
Subject: [PATCH 096/130] fix: unterminated quoted argument at the end of the
 document can be tokenized

---
 src/haxorg/parse/OrgTokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgTokenizer.cpp b/src/haxorg/parse/OrgTokenizer.cpp
index 20e3ece..6fa5926 100644
--- a/src/haxorg/parse/OrgTokenizer.cpp
+++ b/src/haxorg/parse/OrgTokenizer.cpp
@@ -423,8 +423,8 @@ struct RecombineState {
                     Vec<OrgToken> buf;
                     buf.push_back(lex.tok());
                     lex.pop();
-                    while (lex.tok().kind == OrgTokenKind::Whitespace
-                           || lex.tok().kind == OrgTokenKind::CmdRawArg) {
+                    while (lex.at(OrgTokenKind::Whitespace)
+                           || lex.at(OrgTokenKind::CmdRawArg)) {
                         buf.push_back(lex.tok());
                         lex.pop();
                         if (buf.back().value.text.ends_with('"')) { break; }
-- 
2.43.0


From 502d8a62e60e9c9efbf1d454597152a9f362482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:23 +0000
Subject: [PATCH 097/130] fix: source block ends only at the start of a line

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index e2a868b..6692b48 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -797,9 +797,12 @@ void switch_command(Cursor& c) {
             head.kind = otk::CmdSrcBegin;
             head_args();
             c.token0(otk::Newline, &advance1);
-            int offset = -1;
-            while (c.has_text() && (offset = get_end_block_offset("src")) == -1) {
+            int  offset     = -1;
+            bool line_start = true;
+            while (c.has_text()
+                   && (!line_start || (offset = get_end_block_offset("src")) == -1)) {
                 auto __guard = c.advance_guard();
+                line_start   = false;
                 if (c.is_at_all_of(0, '<', '<')) {
                     c.token1(otk::DoubleAngleBegin, &advance_count, 2);
                 } else if (c.is_at_all_of(0, '>', '>')) {
@@ -814,7 +817,10 @@ void switch_command(Cursor& c) {
                         }
                     });
                 }
-                if (c.is_at('\n')) { c.token0(otk::Newline, &advance1); }
+                if (c.is_at('\n')) {
+                    c.token0(otk::Newline, &advance1);
+                    line_start = true;
+                }
             }
             c.token1(otk::CmdSrcEnd, &advance_count, offset);
         } else {
-- 
2.43.0


From f6c340f098d476566089eda36d9f222880d3ced5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:31:41 +0000
Subject: [PATCH 098/130] fix: words starting with "src" are not taken for
 inline source code

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 6692b48..7939138 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -972,9 +972,9 @@ void switch_word(Cursor& c) {
                 return;
             } else if (
                 auto span = c.try_lexy_patt<
-                            dsl::ascii::case_folding(LEXY_LIT("src"))
-                            + dsl::opt(dsl::lit_c<'_'>)
-                            + dsl::while_one(dsl::ascii::alpha_digit_underscore)>()) {
+                            dsl::ascii::case_folding(LEXY_LIT("src")) + dsl::lit_c<'_'>
+                            + dsl::while_one(dsl::ascii::alpha_digit_underscore)>();
+                span && c.is_at('{', *span)) {
                 c.token_adv(otk::TextSrcBegin, *span);
                 lex_inline_src();
                 return;
-- 
2.43.0


From 5e273efd38be34cdd83b6be027550c59066f5bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:43 +0000
Subject: [PATCH 099/130] fix: critic markup without content can be parsed

---
 src/haxorg/parse/OrgParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index fab44ee..7bcf16c 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1378,8 +1378,12 @@ OrgParser::ParseResult OrgParser::parseCriticMarkup(OrgLexer& lex) {
     SubLexer sub{lex};
     while (lex.can_search(e)) { sub.add(lex.pop()); }
 
-    sub.start();
-    SUB_PARSE(Paragraph, sub);
+    if (sub.empty()) {
+        empty();
+    } else {
+        sub.start();
+        SUB_PARSE(Paragraph, sub);
+    }
     TRY_SKIP(lex, e);
     return criticGuard->end();
 }
-- 
2.43.0


From 5deb78d4a34b12018cd73fb3b21f7c6ac0f0dc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:43 +0000
Subject: [PATCH 100/130] fix: inline footnote without content can be parsed

---
 src/haxorg/parse/OrgParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 7bcf16c..2f6f3f2 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1048,8 +1048,12 @@ OrgParser::ParseResult OrgParser::parseFootnote(OrgLexer& lex) {
         TRY_SKIP(lex, otk::FootnoteInlineBegin);
         SubLexer sub{lex};
         while (!lex.finished() && !lex.at(otk::BraceEnd)) { sub.add(pop(lex)); }
-        sub.start();
-        SUB_PARSE(Paragraph, sub);
+        if (sub.empty()) {
+            empty();
+        } else {
+            sub.start();
+            SUB_PARSE(Paragraph, sub);
+        }
         TRY_SKIP(lex, otk::BraceEnd, MissingClosingBracket);
         return inlineGuard->end();
     }
-- 
2.43.0


From bce01a57286782a50d5d11a5a31c4e696a70b5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:43 +0000
Subject: [PATCH 101/130] fix: subtree property without text can be parsed

---
 src/haxorg/parse/OrgParser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 2f6f3f2..3cf981f 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1855,8 +1855,12 @@ OrgParser::ParseResult OrgParser::parseSubtreeProperties(OrgLexer& lex) {
                 space(lex);
                 SubLexer sub{lex};
                 while (lex.can_search(Newline)) { sub.add(lex.pop()); }
-                sub.start();
-                SUB_PARSE(Paragraph, sub);
+                if (sub.empty()) {
+                    empty();
+                } else {
+                    sub.start();
+                    SUB_PARSE(Paragraph, sub);
+                }
                 break;
             }
             default: {
-- 
2.43.0


From 540f59baa224123f4507a00d23779cee5b20ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:43 +0000
Subject: [PATCH 102/130] fix: unterminated link with a protocol can be parsed

---
 src/haxorg/parse/OrgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 3cf981f..4df3ce2 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -697,7 +697,7 @@ OrgParser::ParseResult OrgParser::parseLink(OrgLexer& lex) {
             default:
                 token(onk::Word, TRY_POPX(lex, otk::LinkProtocol));
                 SubLexer sub{lex};
-                while (!lex.at(OrgTokSet{otk::LinkSplit, otk::LinkEnd})) {
+                while (lex.can_search(OrgTokSet{otk::LinkSplit, otk::LinkEnd})) {
                     sub.add(pop(lex));
                 }
                 if (sub.empty()) {
-- 
2.43.0


From a3fc81364e915babc7599c4000244ca7a1c490ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:43 +0000
Subject: [PATCH 103/130] fix: parsing of a target containing other tokens ends

---
 src/haxorg/parse/OrgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 4df3ce2..1bf1ad5 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1180,7 +1180,7 @@ OrgParser::ParseResult OrgParser::parseAngleTarget(OrgLexer& lex) {
                 case otk::Whitespace: token(onk::Space, pop(lex)); break;
                 case otk::Word: token(onk::Word, pop(lex)); break;
                 case otk::BigIdent: token(onk::BigIdent, pop(lex)); break;
-                default:
+                default: token(onk::Punctuation, pop(lex)); break;
             }
         }
         TRY_SKIP(lex, end);
-- 
2.43.0


From 19074eb6905074720bac3716daeb094b2971b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:43 +0000
Subject: [PATCH 104/130] fix: dynamic time at the end of the document can be
 parsed

---
 src/haxorg/parse/OrgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 1bf1ad5..6c43593 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -903,7 +903,7 @@ OrgParser::ParseResult OrgParser::parseTimeStamp(OrgLexer& lex) {
         };
 
 
-        std::ignore = aux();
+        if (!lex.finished()) { std::ignore = aux(); }
 
         result = timeGuard->end();
     } else {
-- 
2.43.0


From dd742257398034d378cdfbdcc00ce83ff2d9da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:43 +0000
Subject: [PATCH 105/130] fix: subtree ends a block or a table cell

---
 src/haxorg/parse/OrgParser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 6c43593..cf69077 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1263,7 +1263,7 @@ OrgParser::ParseResult OrgParser::parseTableBlockRow(OrgLexer& lex) {
             auto cellGuard = start(onk::TableCell);
             SUB_PARSE(CommandArguments, lex);
             auto stmtGuard = start(onk::StmtList);
-            while (!(
+            while (!lex.finished() && !lex.at(BlockTerminator) && !(
                 lex.at(otk::CmdPrefix)
                 && lex.at(OrgTokSet{otk::CmdCell, otk::CmdRow, otk::CmdTableEnd}, +1))) {
                 SUB_PARSE(StmtListItem, lex);
@@ -1478,7 +1478,8 @@ OrgParser::ParseResult OrgParser::parseTextWrapCommand(OrgLexer& lex) {
         hstd::replace_all(tmp, "begin", "end");
         Str endName = normalize(tmp);
         print(hstd::fmt("Dynamic block, name {}", endName));
-        while (lex.can_search(Vec<otk>{otk::CmdPrefix, endTok}) && lex.hasNext(2)
+        while (!lex.at(BlockTerminator)
+               && lex.can_search(Vec<otk>{otk::CmdPrefix, endTok}) && lex.hasNext(2)
                && normalize(lex.val(1).text) != endName) {
             SUB_PARSE(StmtListItem, lex);
             if (lex.at(BlockTerminator)) {
@@ -1487,7 +1488,8 @@ OrgParser::ParseResult OrgParser::parseTextWrapCommand(OrgLexer& lex) {
             }
         }
     } else {
-        while (lex.can_search(Vec<otk>{otk::CmdPrefix, endTok})) {
+        while (!lex.at(BlockTerminator)
+               && lex.can_search(Vec<otk>{otk::CmdPrefix, endTok})) {
             SUB_PARSE(StmtListItem, lex);
             if (lex.at(BlockTerminator)) {
                 print(hstd::fmt("block terminator {}", lex));
-- 
2.43.0


From ddc658c81433bca177c8da92ebaddef3d0a749b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:44 +0000
Subject: [PATCH 106/130] fix: symbol with an open parameter at the end of the
 document can be parsed

---
 src/haxorg/parse/OrgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index cf69077..52cb9df 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -750,7 +750,7 @@ OrgParser::ParseResult OrgParser::parseSymbol(OrgLexer& lex) {
         auto stmtGuard = start(onk::InlineStmtList);
         while (lex.at(otk::BraceBegin)) {
             TRY_SKIP(lex, otk::BraceBegin);
-            token(onk::RawText, pop(lex));
+            if (!lex.finished()) { token(onk::RawText, pop(lex)); }
             TRY_SKIP(lex, otk::BraceEnd);
         }
         stmtGuard->end();
-- 
2.43.0


From 3b1d8ac7014f1ed5fb4b88a307637cb951c31676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:53:44 +0000
Subject: [PATCH 107/130] fix: parse error at a token without location can be
 reported

---
 src/haxorg/parse/OrgParserUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParserUtils.cpp b/src/haxorg/parse/OrgParserUtils.cpp
index 2d1ef26..a6c1001 100644
--- a/src/haxorg/parse/OrgParserUtils.cpp
+++ b/src/haxorg/parse/OrgParserUtils.cpp
@@ -197,7 +197,7 @@ OrgNodeMono::Error OrgParser::error_value(
     }
 
     if (failToken) {
-        fail.err.loc       = failToken->value.loc.value();
+        if (failToken->value.loc) { fail.err.loc = *failToken->value.loc; }
         fail.err.tokenText = failToken->value.text;
     }
 
-- 
2.43.0


From 11381b02270bf29acc60ee06da321c4c1cfafea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:56:14 +0000
Subject: [PATCH 108/130] fix: link protocol outside of a link does not stop
 the parser

---
 src/haxorg/parse/OrgParser.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index 52cb9df..fa83aec 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -527,7 +527,6 @@ void OrgParser::textFold(OrgLexer& lex) {
                 break;
             }
             case otk::LinkProtocolHttp:
-            case otk::LinkProtocol:
             case otk::LinkBegin: {
                 SUB_PARSE(Link, lex);
                 break;
-- 
2.43.0


From 9245655ab2e111d76387462aa63b8ac8a4db972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:57:45 +0000
Subject: [PATCH 109/130] fix: search for the tokens inside of a group stops at
 the end of the document

---
 src/haxorg/lexbase/Lexer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/lexbase/Lexer.hpp b/src/haxorg/lexbase/Lexer.hpp
index 6333032..3aa7c6e 100644
--- a/src/haxorg/lexbase/Lexer.hpp
+++ b/src/haxorg/lexbase/Lexer.hpp
@@ -314,11 +314,11 @@ struct LexerCommon {
         hstd::IntSet<K> const& finish) {
         hstd::Vec<TokenId<K, V>> result;
         int                      count = 0;
-        while (start.contains(kind())) { next(); }
+        while (!finished() && start.contains(kind())) { next(); }
         count++;
         while (0 < count && !finished()) {
             if (!finished() && start.contains(kind())) {
-                while (start.contains(kind())) {
+                while (!finished() && start.contains(kind())) {
                     // TODO identical to the inner loop -- implement unit
                     // test to get coverage for this case to make sure this
                     // can be safely removed.
-- 
2.43.0


From 62f62d0b8dfbf2a29d7776320eb8e29e436c9b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:59:20 +0000
Subject: [PATCH 110/130] fix: planning keyword at the end of the document can
 be parsed

---
 src/haxorg/parse/OrgParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index fa83aec..e852a41 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -855,8 +855,7 @@ OrgParser::ParseResult OrgParser::parseHashTag(OrgLexer& lex) {
 
 
 OrgParser::ParseResult OrgParser::parseTimeStamp(OrgLexer& lex) {
-    auto __trace   = trace(lex);
-    auto start_tok = lex.tok();
+    auto __trace = trace(lex);
     BOOST_OUTCOME_TRY(expect(
         lex,
         OrgTokSet{
-- 
2.43.0


From 04414819c1c2bb95b2d630059504b736eeded071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:04:35 +0000
Subject: [PATCH 111/130] fix: timestamp followed by a time range is not taken
 for a range

---
 src/haxorg/parse/OrgParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/haxorg/parse/OrgParser.cpp b/src/haxorg/parse/OrgParser.cpp
index e852a41..6bfb87e 100644
--- a/src/haxorg/parse/OrgParser.cpp
+++ b/src/haxorg/parse/OrgParser.cpp
@@ -1006,6 +1006,8 @@ OrgParser::ParseResult OrgParser::parseTimeRange(OrgLexer& lex) {
             && tmp.at(OrgTokSet{otk::BraceBegin, otk::InactiveDynamicTimeContent}, +2)) {
             isTimeRange = true;
             break;
+        } else if (tmp.at(OrgTokSet{otk::AngleEnd, otk::BraceEnd})) {
+            break;
         } else {
             tmp.next();
         }
-- 
2.43.0


From 55262209717ea6c4fb02af240f4faa607e92a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:11:47 +0000
Subject: [PATCH 112/130] fix: markup that starts the text after a list is
 recognized

---
 src/haxorg/parse/OrgTokenizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/haxorg/parse/OrgTokenizer.cpp b/src/haxorg/parse/OrgTokenizer.cpp
index 6fa5926..a8c9c05 100644
--- a/src/haxorg/parse/OrgTokenizer.cpp
+++ b/src/haxorg/parse/OrgTokenizer.cpp
@@ -264,6 +264,8 @@ struct RecombineState {
         otk::Asterisk,
         otk::Underline,
         otk::Punctuation,
+        otk::Dedent,
+        otk::ListItemEnd,
     };
 
     void recombine_markup() {
-- 
2.43.0


From 1a905ea5d8ee9dcec6ef919e6f32468232e38aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:06 +0000
Subject: [PATCH 113/130] fix: planning times of a subtree are formatted on one
 line

---
 src/haxorg/sem/SemOrgFormat.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index c0aa699..2175311 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -1188,15 +1188,20 @@ auto Formatter::toString(SemId<Subtree> id, Context const& ctx) -> Res {
 
     Res head = b.stack({title});
 
+    Vec<Res> planning;
     if (id->scheduled) {
-        add(head, b.line({str("SCHEDULED: "), toString(*id->scheduled, ctx)}));
+        planning.push_back(b.line({str("SCHEDULED: "), toString(*id->scheduled, ctx)}));
     }
 
     if (id->deadline) {
-        add(head, b.line({str("DEADLINE: "), toString(*id->deadline, ctx)}));
+        planning.push_back(b.line({str("DEADLINE: "), toString(*id->deadline, ctx)}));
     }
 
-    if (id->closed) { add(head, b.line({str("CLOSED: "), toString(*id->closed, ctx)})); }
+    if (id->closed) {
+        planning.push_back(b.line({str("CLOSED: "), toString(*id->closed, ctx)}));
+    }
+
+    if (!planning.empty()) { add(head, b.join(planning, str(" "))); }
 
     if (!id->properties.empty() || id->treeId) {
         add(head, str(":PROPERTIES:"));
-- 
2.43.0


From 25744cb24efd1f988b2bdcf3c062178038cf29a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:06 +0000
Subject: [PATCH 114/130] fix: lines of an example block are not spread apart
 by formatting

---
 src/haxorg/sem/SemOrgFormat.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 2175311..701511b 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -1661,9 +1661,13 @@ auto Formatter::toString(SemId<CmdExport> id, Context const& ctx) -> Res {
 
 auto Formatter::toString(SemId<BlockExample> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
-    return b.stack(
-        Vec<Res>::Splice(
-            str("#+begin_example"), toSubnodes(id, ctx), str("#+end_example")));
+    auto result = b.stack({str("#+begin_example")});
+    for (auto const& sub : id->subnodes) {
+        auto raw = sub.asOpt<sem::RawText>();
+        if (!raw || raw->text != "\n") { add(result, toString(sub, ctx)); }
+    }
+    add(result, str("#+end_example"));
+    return result;
 }
 
 auto Formatter::toString(SemId<BlockDynamicFallback> id, Context const& ctx) -> Res {
-- 
2.43.0


From 1563a960b5198c6b7373fdd4d0e36d3f9bd384ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:06 +0000
Subject: [PATCH 115/130] fix: formatting does not add a blank line after a
 description list item

---
 src/haxorg/sem/SemOrgFormat.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 701511b..129c100 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -1014,7 +1014,6 @@ auto Formatter::toString(SemId<ListItem> id, Context const& ctx) -> Res {
         if (id->subnodes.has(0)) {
             add(head, toString(id->at(0), ctx));
             add(body, head);
-            add(body, str(""));
 
             for (auto const& sub : id->subnodes | rv::drop(1)) {
                 add(body, toString(sub, ctx));
-- 
2.43.0


From af265554fdea68ae8e943df7962bafbf86681a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:06 +0000
Subject: [PATCH 116/130] fix: subtree description property is converted and
 formatted

---
 src/haxorg/sem/SemConvert.cpp   | 5 +++++
 src/haxorg/sem/SemOrgFormat.cpp | 5 ++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemConvert.cpp b/src/haxorg/sem/SemConvert.cpp
index a23745e..b7fe5f0 100644
--- a/src/haxorg/sem/SemConvert.cpp
+++ b/src/haxorg/sem/SemConvert.cpp
@@ -731,6 +731,11 @@ Opt<SemId<ErrorGroup>> OrgConverter::convertPropertyList(SemId<Subtree>& tree, I
         }
 
         result = Property{def};
+    } else if (name == "description") {
+        handled();
+        if (one(a, N::Values).kind() != onk::Empty) {
+            tree->description = convertParagraph(one(a, N::Values)).value();
+        }
     } else if (name == "created") {
         handled();
         Property::Created created;
diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 129c100..69e5dd3 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -1202,9 +1202,12 @@ auto Formatter::toString(SemId<Subtree> id, Context const& ctx) -> Res {
 
     if (!planning.empty()) { add(head, b.join(planning, str(" "))); }
 
-    if (!id->properties.empty() || id->treeId) {
+    if (!id->properties.empty() || id->treeId || id->description) {
         add(head, str(":PROPERTIES:"));
         if (id->treeId) { add(head, str(hstd::fmt(":ID: {}", *id->treeId))); }
+        if (id->description) {
+            add(head, b.line({str(":DESCRIPTION: "), toString(*id->description, ctx)}));
+        }
 
         for (auto const& prop : id->properties) {
             using P = sem::NamedProperty;
-- 
2.43.0


From 1e2cc187544d7f4295f2d4e0a01bb44acd672932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:30:06 +0000
Subject: [PATCH 117/130] fix: verse blocks are converted

---
 src/haxorg/parse/OrgSpec.cpp  |  1 +
 src/haxorg/sem/SemConvert.cpp | 10 ++++++++++
 src/haxorg/sem/SemConvert.hpp |  1 +
 3 files changed, 12 insertions(+)

diff --git a/src/haxorg/parse/OrgSpec.cpp b/src/haxorg/parse/OrgSpec.cpp
index ff5060a..df6b63c 100644
--- a/src/haxorg/parse/OrgSpec.cpp
+++ b/src/haxorg/parse/OrgSpec.cpp
@@ -171,6 +171,7 @@ std::unique_ptr<OrgSpec> getOrgSpec() {
             onk::SubtreeDescription, OrgPattern({field1(0, N::Text, onk::Paragraph)})},
         SpecPair{onk::BlockCenter, textWrapContent},
         SpecPair{onk::BlockQuote, textWrapContent},
+        SpecPair{onk::BlockVerse, textWrapContent},
         SpecPair{onk::BlockComment, textWrapContent},
         SpecPair{
             onk::BlockExample,
diff --git a/src/haxorg/sem/SemConvert.cpp b/src/haxorg/sem/SemConvert.cpp
index b7fe5f0..f690372 100644
--- a/src/haxorg/sem/SemConvert.cpp
+++ b/src/haxorg/sem/SemConvert.cpp
@@ -2017,6 +2017,15 @@ OrgConverter::ConvResult<BlockCenter> OrgConverter::convertBlockCenter(__args) {
     return res;
 }
 
+OrgConverter::ConvResult<BlockVerse> OrgConverter::convertBlockVerse(__args) {
+    auto              __trace = trace(a);
+    SemId<BlockVerse> verse   = Sem<BlockVerse>(a);
+    for (const auto& sub : flatConvertAttached(many(a, N::Body))) {
+        verse->push_back(sub.unwrap());
+    }
+    return verse;
+}
+
 OrgConverter::ConvResult<BlockQuote> OrgConverter::convertBlockQuote(__args) {
     auto              __trace = trace(a);
     SemId<BlockQuote> quote   = Sem<BlockQuote>(a);
@@ -2686,6 +2695,7 @@ SemId<Org> OrgConverter::convert(__args) {
         case onk::Macro: return convertMacro(a).unwrap();
         case onk::Monospace: return convertMonospace(a).unwrap();
         case onk::BlockCenter: return convertBlockCenter(a).unwrap();
+        case onk::BlockVerse: return convertBlockVerse(a).unwrap();
         case onk::BlockExample: return convertBlockExample(a).unwrap();
         case onk::HashTag: return convertHashTag(a).unwrap();
         case onk::ListTag: return convert(a[0]);
diff --git a/src/haxorg/sem/SemConvert.hpp b/src/haxorg/sem/SemConvert.hpp
index 2164f02..ea29419 100644
--- a/src/haxorg/sem/SemConvert.hpp
+++ b/src/haxorg/sem/SemConvert.hpp
@@ -196,6 +196,7 @@ struct OrgConverter : public hstd::OperationsTracer {
     ConvResult<BlockExample>    convertBlockExample(In);
     ConvResult<ColonExample>    convertColonExample(In);
     ConvResult<BlockCenter>     convertBlockCenter(In);
+    ConvResult<BlockVerse>      convertBlockVerse(In);
     ConvResult<Monospace>       convertMonospace(In);
     ConvResult<Symbol>          convertSymbol(In);
     ConvResult<Macro>           convertMacro(In);
-- 
2.43.0


From db1f8cfe08f95847391dbbb860edc759dd6224b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:31:57 +0000
Subject: [PATCH 118/130] fix: name of an indented property with arguments does
 not include the indentation

---
 src/haxorg/sem/SemConvert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/sem/SemConvert.cpp b/src/haxorg/sem/SemConvert.cpp
index f690372..6db146d 100644
--- a/src/haxorg/sem/SemConvert.cpp
+++ b/src/haxorg/sem/SemConvert.cpp
@@ -885,7 +885,7 @@ Opt<SemId<ErrorGroup>> OrgConverter::convertPropertyList(SemId<Subtree>& tree, I
         handled();
         NamedProperty::CustomArgs prop;
         auto                      name = hstd::split(
-            strip(get_text(one(a, N::Name)), CharSet{':'}, CharSet{':'}), ':');
+            strip(get_text(one(a, N::Name)), CharSet{' ', ':'}, CharSet{':'}), ':');
 
         prop.name = name.at(0);
         if (name.has(1)) { prop.sub = name.at(1); }
-- 
2.43.0


From f1e9c0c3ad57bfff96257620abb39a8472b668b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:38:42 +0000
Subject: [PATCH 119/130] fix: attached commands of center, comment, verse,
 example and export blocks are formatted

---
 src/haxorg/sem/SemOrgFormat.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/haxorg/sem/SemOrgFormat.cpp b/src/haxorg/sem/SemOrgFormat.cpp
index 69e5dd3..b41e1a1 100644
--- a/src/haxorg/sem/SemOrgFormat.cpp
+++ b/src/haxorg/sem/SemOrgFormat.cpp
@@ -989,9 +989,12 @@ auto Formatter::toString(sem::SubtreeCompletion const& id, Context const& ctx) -
 
 auto Formatter::toString(SemId<BlockCenter> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
-    return b.stack(
-        Vec<Res>::Splice(
-            str("#+begin_center"), toSubnodes(id, ctx), str("#+end_center")));
+    return stackAttached(
+        b.stack(
+            Vec<Res>::Splice(
+                str("#+begin_center"), toSubnodes(id, ctx), str("#+end_center"))),
+        id.as<sem::Stmt>(),
+        ctx);
 }
 
 auto Formatter::toString(SemId<Bold> id, Context const& ctx) -> Res {
@@ -1590,15 +1593,22 @@ auto Formatter::toString(SemId<BlockQuote> id, Context const& ctx) -> Res {
 
 auto Formatter::toString(SemId<BlockComment> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
-    return b.stack(
-        Vec<Res>::Splice(
-            str("#+begin_comment"), toSubnodes(id, ctx), str("#+end_comment")));
+    return stackAttached(
+        b.stack(
+            Vec<Res>::Splice(
+                str("#+begin_comment"), toSubnodes(id, ctx), str("#+end_comment"))),
+        id.as<sem::Stmt>(),
+        ctx);
 }
 
 auto Formatter::toString(SemId<BlockVerse> id, Context const& ctx) -> Res {
     if (id.isNil()) { return str("<nil>"); }
-    return b.stack(
-        Vec<Res>::Splice(str("#+begin_verse"), toSubnodes(id, ctx), str("#+end_verse")));
+    return stackAttached(
+        b.stack(
+            Vec<Res>::Splice(
+                str("#+begin_verse"), toSubnodes(id, ctx), str("#+end_verse"))),
+        id.as<sem::Stmt>(),
+        ctx);
 }
 
 
@@ -1650,7 +1660,10 @@ auto Formatter::toString(SemId<BlockExport> id, Context const& ctx) -> Res {
         add(head, toString(id->attrs, ctx));
     }
 
-    return b.stack(Vec<Res>::Splice(head, str(id->content), str("#+end_export")));
+    return stackAttached(
+        b.stack(Vec<Res>::Splice(head, str(id->content), str("#+end_export"))),
+        id.as<sem::Stmt>(),
+        ctx);
 }
 
 auto Formatter::toString(SemId<InlineExport> id, Context const& ctx) -> Res {
@@ -1669,7 +1682,7 @@ auto Formatter::toString(SemId<BlockExample> id, Context const& ctx) -> Res {
         if (!raw || raw->text != "\n") { add(result, toString(sub, ctx)); }
     }
     add(result, str("#+end_example"));
-    return result;
+    return stackAttached(result, id.as<sem::Stmt>(), ctx);
 }
 
 auto Formatter::toString(SemId<BlockDynamicFallback> id, Context const& ctx) -> Res {
-- 
2.43.0


From 6b98b9081de0a41738f0f88b3204132adf8f6bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:54:36 +0000
Subject: [PATCH 120/130] fix: source, example and export includes fill the
 block they create

---
 src/haxorg/api/ParseContext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 647cde2..098c3eb 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -434,7 +434,7 @@ void postProcessInclude(
             case sem::CmdInclude::Kind::Src: {
                 LOGIC_ASSERTION_CHECK_FMT(incl.at(0)->is(OrgSemKind::BlockCode), "");
 
-                auto code   = incl.as<sem::BlockCode>();
+                auto code   = incl.at(0).as<sem::BlockCode>();
                 auto source = readFile(full.value());
                 for (auto const& line : split(source, '\n')) {
                     sem::BlockCodeLine lineNode;
@@ -448,10 +448,10 @@ void postProcessInclude(
             case sem::CmdInclude::Kind::Example: {
                 LOGIC_ASSERTION_CHECK_FMT(incl.at(0)->is(OrgSemKind::BlockExample), "");
 
-                auto code   = incl.as<sem::BlockExample>();
+                auto code   = incl.at(0).as<sem::BlockExample>();
                 auto source = readFile(full.value());
                 for (auto const& line : split(source, '\n')) {
-                    auto raw  = sem::SemId<sem::RawText>();
+                    auto raw  = sem::SemId<sem::RawText>::New();
                     raw->text = line;
                     code->push_back(raw);
                 }
@@ -460,7 +460,7 @@ void postProcessInclude(
             case sem::CmdInclude::Kind::Export: {
                 LOGIC_ASSERTION_CHECK_FMT(incl.at(0)->is(OrgSemKind::BlockExport), "");
 
-                auto code     = incl.as<sem::BlockExport>();
+                auto code     = incl.at(0).as<sem::BlockExport>();
                 code->content = readFile(full.value());
                 break;
             }
-- 
2.43.0


From e5497d5db68c5c98e14fc297904c541550e58cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:54:36 +0000
Subject: [PATCH 121/130] fix: references of an included document are looked up
 from its own directory only

---
 src/haxorg/api/ParseContext.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 098c3eb..35c4965 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -520,13 +520,22 @@ void postProcessFileReferences(
     sem::OrgArg                                         parsed,
     std::shared_ptr<OrgDirectoryParseParameters> const& opts,
     DirectoryParseState&                                state) {
+    // Included documents are added to the tree while references are processed, and they
+    // have already handled their own references.
+    Vec<sem::SemId<sem::Org>> references;
     org::eachSubnodeRec(parsed, [&](sem::SemId<sem::Org> arg) {
-        if (auto incl = arg.asOpt<sem::CmdInclude>()) {
+        if (arg->is(OrgSemKind::CmdInclude) || arg->is(OrgSemKind::Link)) {
+            references.push_back(arg);
+        }
+    });
+
+    for (auto const& arg : references) {
+        if (arg->is(OrgSemKind::CmdInclude)) {
             postProcessInclude(ctx, arg, path, activeRoot, parsed, opts, state);
-        } else if (auto link = arg.asOpt<sem::Link>()) {
+        } else {
             postProcessFileLink(arg, path, activeRoot, parsed, opts, state);
         }
-    });
+    }
 }
 } // namespace
 
-- 
2.43.0


From ee3797e51aae84184d4fa0a6ca7541bddd55acbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:54:36 +0000
Subject: [PATCH 122/130] fix: paths written in different ways are imported
 once

---
 src/haxorg/api/ParseContext.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 35c4965..44d1b6a 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -305,6 +305,17 @@ void postProcessFileReferences(
     std::shared_ptr<OrgDirectoryParseParameters> const& opts,
     DirectoryParseState&                                state);
 
+/// \brief The same place has one key no matter how the path to it was written.
+/// Symbolic link is a different place from its target.
+std::string visitKey(fs::path const& path) {
+    std::error_code ec;
+    auto            name = path.filename();
+    fs::path        key  = name.empty() || name == "." || name == ".."
+                             ? fs::weakly_canonical(path, ec)
+                             : fs::weakly_canonical(path.parent_path(), ec) / name;
+    return ec ? path.native() : key.native();
+}
+
 Opt<sem::SemId<sem::File>> parseFileAux(
     ParseContext*                                       ctx,
     fs::path const&                                     path,
@@ -337,11 +348,12 @@ Opt<sem::SemId<Org>> parsePathAux(
     std::shared_ptr<OrgDirectoryParseParameters> const& opts,
     DirectoryParseState&                                state) {
     // _dfmt(path, activeRoot);
-    if (state.visited.contains(path.native())) {
+    auto key = visitKey(path);
+    if (state.visited.contains(key)) {
         // _dbg("Already visited");
         return std::nullopt;
     }
-    state.visited.incl(path.native());
+    state.visited.incl(key);
 
     if (opts->shouldProcessPath && !opts->shouldProcessPath(path)) {
         // _dbg("Should not process path");
-- 
2.43.0


From fc3c43d91e8f2a729cf56278a89f7df618a1e98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:54:36 +0000
Subject: [PATCH 123/130] fix: a document including itself through others is
 imported once

---
 src/haxorg/api/ParseContext.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 44d1b6a..1be8fe6 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -568,7 +568,9 @@ sem::SemId<File> ParseContext::parseFileWithIncludes(
     std::string const&                                  file,
     std::shared_ptr<OrgDirectoryParseParameters> const& opts) {
     DirectoryParseState state;
-    auto parsed = parseFileAux(this, file, fs::path{file}.parent_path(), opts, state);
+    auto path   = fs::absolute(file);
+    state.visited.incl(visitKey(path));
+    auto parsed = parseFileAux(this, path, path.parent_path(), opts, state);
     if (parsed) {
         return parsed.value();
     } else {
-- 
2.43.0


From 0d933ed77c0c60bbf3051c1bcb18eb09fb9d5c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:54:36 +0000
Subject: [PATCH 124/130] fix: relative symbolic links lead from the directory
 of the link

---
 src/haxorg/api/ParseContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index 1be8fe6..e800700 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -606,7 +606,7 @@ std::string OrgDirectoryParseParameters::resolveSymlink(std::string const& path)
     if (resolveSymlinkImpl) {
         return resolveSymlinkImpl(path);
     } else {
-        return fs::read_symlink(path);
+        return fs::path{path}.parent_path() / fs::read_symlink(path);
     }
 }
 
-- 
2.43.0


From 715b70439ba82b4ae8e86d552c8f9e113df30878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:54:36 +0000
Subject: [PATCH 125/130] fix: symbolic links leading to themselves do not stop
 the import

---
 src/haxorg/api/ParseContext.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/haxorg/api/ParseContext.cpp b/src/haxorg/api/ParseContext.cpp
index e800700..fbd3732 100644
--- a/src/haxorg/api/ParseContext.cpp
+++ b/src/haxorg/api/ParseContext.cpp
@@ -413,12 +413,13 @@ Opt<fs::path> resolvePath(
         = fs::path{target.toBase()}.is_absolute() ? fs::path{target.toBase()}
                                                   : (workdir / target.toBase());
 
-    if (!fs::exists(full) && opts->findIncludeTarget) {
+    std::error_code ec;
+    if (!fs::exists(full, ec) && opts->findIncludeTarget) {
         auto includeFound = opts->findIncludeTarget(target);
         if (includeFound) { full = includeFound.value(); }
     }
 
-    if (fs::exists(full)) {
+    if (fs::exists(full, ec)) {
         return full;
     } else {
         return std::nullopt;
@@ -582,7 +583,8 @@ bool OrgDirectoryParseParameters::isDirectory(std::string const& path) const {
     if (isDirectoryImpl) {
         return isDirectoryImpl(path);
     } else {
-        return fs::is_directory(path);
+        std::error_code ec;
+        return fs::is_directory(path, ec);
     }
 }
 
@@ -598,7 +600,8 @@ bool OrgDirectoryParseParameters::isRegularFile(std::string const& path) const {
     if (isRegularFileImpl) {
         return isRegularFileImpl(path);
     } else {
-        return fs::is_regular_file(path);
+        std::error_code ec;
+        return fs::is_regular_file(path, ec);
     }
 }
 
-- 
2.43.0


From 66c52f0d1904e47089168da12260b62a6be6a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:00:53 +0000
Subject: [PATCH 126/130] fix: document with inline export can be added to the
 immutable store

---
 src/haxorg/imm/ImmOrg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/haxorg/imm/ImmOrg.hpp b/src/haxorg/imm/ImmOrg.hpp
index 077efb8..a68f182 100644
--- a/src/haxorg/imm/ImmOrg.hpp
+++ b/src/haxorg/imm/ImmOrg.hpp
@@ -1371,7 +1371,7 @@ struct [[refl]] ImmAdapterBlockQuoteAPI : ImmAdapterBlockAPI {};
 struct [[refl]] ImmAdapterBlockCommentAPI : ImmAdapterStmtAPI {};
 struct [[refl]] ImmAdapterBlockVerseAPI : ImmAdapterBlockAPI {};
 struct [[refl]] ImmAdapterBlockExampleAPI : ImmAdapterBlockAPI {};
-struct [[refl]] ImmAdapterInlineExportAPI : ImmAdapterBlockAPI {};
+struct [[refl]] ImmAdapterInlineExportAPI : ImmAdapterInlineAPI {};
 struct [[refl]] ImmAdapterCmdExportAPI : ImmAdapterBlockAPI {};
 struct [[refl]] ImmAdapterBlockExportAPI : ImmAdapterBlockAPI {
     hstd::Opt<hstd::Str> getPlacement() const;
-- 
2.43.0


From 23f9ad623d62ae0d097d7b8189e4168c838fd037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:13:23 +0000
Subject: [PATCH 127/130] fix: name of a custom line command is kept without
 the colon

---
 src/haxorg/sem/SemConvert.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/haxorg/sem/SemConvert.cpp b/src/haxorg/sem/SemConvert.cpp
index 6db146d..7554e43 100644
--- a/src/haxorg/sem/SemConvert.cpp
+++ b/src/haxorg/sem/SemConvert.cpp
@@ -1403,8 +1403,8 @@ OrgConverter::ConvResult<CmdCustomRaw> OrgConverter::convertCmdCustomRaw(__args)
     __perf_trace("convert", "convertCmdCaption");
     auto __trace = trace(a);
     auto cmd     = Sem<CmdCustomRaw>(a);
-    cmd->name    = get_text(one(a, N::Name));
-    if (1 < a.size()) { cmd->text = get_text(one(a, N::Args)); }
+    cmd->name    = rstrip(get_text(one(a, N::Name)), CharSet{':'});
+    if (1 < a.size()) { cmd->text = strip_space(get_text(one(a, N::Args))); }
     return cmd;
 }
 
@@ -1412,7 +1412,7 @@ OrgConverter::ConvResult<CmdCustomText> OrgConverter::convertCmdCustomText(__arg
     __perf_trace("convert", "convertCmdCaption");
     auto __trace = trace(a);
     auto cmd     = Sem<CmdCustomText>(a);
-    cmd->name    = get_text(one(a, N::Name));
+    cmd->name    = rstrip(get_text(one(a, N::Name)), CharSet{':'});
     if (1 < a.size()) { cmd->text = convertParagraph(one(a, N::Args)).value(); }
     return cmd;
 }
@@ -1421,7 +1421,7 @@ OrgConverter::ConvResult<CmdCustomArgs> OrgConverter::convertCmdCustomArgs(__arg
     __perf_trace("convert", "convertCmdCaption");
     auto __trace = trace(a);
     auto cmd     = Sem<CmdCustomArgs>(a);
-    cmd->name    = get_text(one(a, N::Name));
+    cmd->name    = rstrip(get_text(one(a, N::Name)), CharSet{':'});
     cmd->attrs   = convertAttrs(one(a, N::Args));
     return cmd;
 }
-- 
2.43.0


From 5a66d63a4d17cbbcdc2e80571120c9a3d4c4205f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:13:23 +0000
Subject: [PATCH 128/130] fix: text of the language and link lines stays with
 them

---
 src/haxorg/base_lexer/base_token_tokenize.cpp | 4 ++--
 src/haxorg/parse/OrgSpec.cpp                  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/base_lexer/base_token_tokenize.cpp b/src/haxorg/base_lexer/base_token_tokenize.cpp
index 7939138..616f489 100644
--- a/src/haxorg/base_lexer/base_token_tokenize.cpp
+++ b/src/haxorg/base_lexer/base_token_tokenize.cpp
@@ -620,9 +620,9 @@ UnorderedMap<std::string, CommandSpec> CmdSpec{
     {"filetags", CommandSpec{.token = otk::CmdFiletags, .type = CommandType::Text}},
     {"caption", CommandSpec{.token = otk::CmdCaption, .type = CommandType::Text}},
     {"date", CommandSpec{.token = otk::CmdDateRaw, .type = CommandType::Text}},
-    {"link", CommandSpec{.token = otk::CmdLinkRaw, .type = CommandType::Text}},
+    {"link", CommandSpec{.token = otk::CmdLinkRaw, .type = CommandType::Raw}},
     {"description", CommandSpec{.token = otk::CmdDescription, .type = CommandType::Text}},
-    {"language", CommandSpec{.token = otk::CmdLanguage, .type = CommandType::Text}},
+    {"language", CommandSpec{.token = otk::CmdLanguage, .type = CommandType::Raw}},
     {"creator", CommandSpec{.token = otk::CmdCreator, .type = CommandType::Text}},
     {"name", CommandSpec{.token = otk::CmdName, .type = CommandType::Args}},
     {"email", CommandSpec{.token = otk::CmdEmailRaw, .type = CommandType::Raw}},
diff --git a/src/haxorg/parse/OrgSpec.cpp b/src/haxorg/parse/OrgSpec.cpp
index df6b63c..58faed3 100644
--- a/src/haxorg/parse/OrgSpec.cpp
+++ b/src/haxorg/parse/OrgSpec.cpp
@@ -353,6 +353,7 @@ std::unique_ptr<OrgSpec> getOrgSpec() {
         SpecPair{onk::CmdCreator, parTextCmdPattern},
         SpecPair{onk::CmdAuthor, parTextCmdPattern},
         SpecPair{onk::CmdEmail, parTextCmdPattern},
+        SpecPair{onk::CmdLanguage, parTextCmdPattern},
         SpecPair{
             onk::CmdColumns,
             OrgPattern({
-- 
2.43.0


From 3fef4e7f6c9e492953c95d33339e82c81a6a4c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:20:42 +0000
Subject: [PATCH 129/130] fix: edit of a node whose radio target is already
 removed

---
 src/haxorg/imm/ImmOrg.cpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/haxorg/imm/ImmOrg.cpp b/src/haxorg/imm/ImmOrg.cpp
index 3bbc0ad..56fc681 100644
--- a/src/haxorg/imm/ImmOrg.cpp
+++ b/src/haxorg/imm/ImmOrg.cpp
@@ -612,13 +612,6 @@ void ImmAstEditContext::updateTracking(ImmId const& node, bool add) {
         auto&             rt    = transientTrack.radioTargets;
         auto              word  = words.at(0);
         Vec<ImmId> const* items = rt.find(word);
-        LOGIC_ASSERTION_CHECK_FMT(
-            items != nullptr || add,
-            "Cannot remove radio target from transient lookup map. "
-            "The first radio target subnode word is {}, but the "
-            "transient map does not contain ID vector for this "
-            "start.",
-            word);
         if (add) {
             if (items == nullptr) {
                 rt.set(word, {target});
@@ -626,14 +619,10 @@ void ImmAstEditContext::updateTracking(ImmId const& node, bool add) {
                 rt.set(word, *items + Vec<ImmId>{target});
             }
         } else {
-            int index = items->indexOf(target);
-            LOGIC_ASSERTION_CHECK_FMT(
-                index != -1,
-                "Target ID {} first node {} is mapped to a vector in "
-                "transient lookup map, but the vector itself does not "
-                "contain the target ID",
-                target,
-                word);
+            // Equal nodes share an ID: the target could be removed already
+            // with another occurrence of the node it is placed in.
+            int index = items == nullptr ? -1 : items->indexOf(target);
+            if (index == -1) { return; }
 
             Vec<ImmId> copy = *items;
             copy.erase(copy.begin() + index);
-- 
2.43.0


From d65bd0e8b358182140f1e00163abdc4c9395f6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:27:54 +0000
Subject: [PATCH 130/130] fix: order of the subnodes is kept when a node is
 edited

---
 src/haxorg/imm/ImmOrgStore.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/haxorg/imm/ImmOrgStore.cpp b/src/haxorg/imm/ImmOrgStore.cpp
index 83464fa..6686c2c 100644
--- a/src/haxorg/imm/ImmOrgStore.cpp
+++ b/src/haxorg/imm/ImmOrgStore.cpp
@@ -135,8 +135,12 @@ using SubnodeAssignGroup   = hstd::Vec<SubnodeVecAssignPair>;
 /// in one go, since inserting subnode one by one might've overrode the
 /// indexing or other elements.
 SubnodeAssignGroup groupUpdatedSubnodes(Vec<SubnodeAssignTarget> const& updatedSubnodes) {
-    Vec<SubnodeAssignTarget> sortedUpdatedSubnodes = sorted(
-        updatedSubnodes, [](SubnodeAssignTarget const& a, SubnodeAssignTarget const& b) {
+    // Subnodes of the same field must keep their order.
+    Vec<SubnodeAssignTarget> sortedUpdatedSubnodes = updatedSubnodes;
+    std::stable_sort(
+        sortedUpdatedSubnodes.begin(),
+        sortedUpdatedSubnodes.end(),
+        [](SubnodeAssignTarget const& a, SubnodeAssignTarget const& b) {
             return a.first.first().getFieldName().name
                  < b.first.first().getFieldName().name;
         });
-- 
2.43.0

