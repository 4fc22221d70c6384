From fb2654bf34ef2fb736fc212feb33a14021e6ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 01/34] fix: compute test case sizes without int overflow

For large max_size/max_success the products in sizeFor overflowed and
generators were given negative sizes.
---
 src/detail/Testing.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 8ec5b6e..21db335 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -12,17 +12,19 @@ int sizeFor(const TestParams &params, int i) {
   // multiple of the number of sizes (i.e. maxSize + 1). Another thing is that
   // we always want to ensure that the maximum size is actually used.
 
-  const auto numSizes = params.maxSize + 1;
-  const auto numRegular = (params.maxSuccess / numSizes) * numSizes;
+  // The products below do not necessarily fit in an `int`.
+  const int64_t maxSize = params.maxSize;
+  const int64_t numSizes = maxSize + 1;
+  const int64_t numRegular = (params.maxSuccess / numSizes) * numSizes;
   if (i < numRegular) {
-    return i % numSizes;
+    return static_cast<int>(i % numSizes);
   }
 
-  const auto numRest = params.maxSuccess - numRegular;
+  const int64_t numRest = params.maxSuccess - numRegular;
   if (numRest == 1) {
     return 0;
   } else {
-    return ((i % numSizes) * params.maxSize) / (numRest - 1);
+    return static_cast<int>(((i % numSizes) * maxSize) / (numRest - 1));
   }
 }
 
-- 
2.43.0


From 6677887eb1e00933362efb9d575af0d1f4ba4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 02/34] fix: compute the discard limit without int overflow

With a large max_discard_ratio the product with max_success overflowed
and the run could give up on the very first discard.
---
 src/detail/Testing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index 21db335..f5ffc7b 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -39,7 +39,9 @@ SearchResult searchProperty(const Property &property,
   searchResult.numDiscarded = 0;
   searchResult.tags.reserve(params.maxSuccess);
 
-  const auto maxDiscard = params.maxDiscardRatio * params.maxSuccess;
+  // This product does not necessarily fit in an `int`.
+  const auto maxDiscard =
+      static_cast<int64_t>(params.maxDiscardRatio) * params.maxSuccess;
 
   auto recentDiscards = 0;
   auto r = Random(params.seed);
-- 
2.43.0


From a95743592ef732c63a4b5d4ecdbc411d3b52363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 03/34] fix: shrink wide characters without narrowing them to
 char

shrink::character<wchar_t> cast the lowered character to char, so a wide
character could shrink to an unrelated (even null or negative) one.
---
 include/rapidcheck/shrink/Shrink.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index 9ac4bc2..f64849d 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -188,13 +188,13 @@ Seq<bool> boolean(bool value) { return value ? seq::just(false) : Seq<bool>(); }
 template <typename T>
 Seq<T> character(T value) {
   const auto &locale = std::locale::classic();
-  auto shrinks = seq::cast<T>(seq::concat(
-      seq::fromContainer(std::string("abc")),
-      // TODO this seems a bit hacky
-      std::islower(static_cast<char>(value), locale)
-          ? Seq<char>()
-          : seq::just(static_cast<char>(std::tolower(value, locale))),
-      seq::fromContainer(std::string("ABC123 \n"))));
+  auto shrinks =
+      seq::concat(seq::cast<T>(seq::fromContainer(std::string("abc"))),
+                  // TODO this seems a bit hacky
+                  std::islower(value, locale)
+                      ? Seq<T>()
+                      : seq::just(static_cast<T>(std::tolower(value, locale))),
+                  seq::cast<T>(seq::fromContainer(std::string("ABC123 \n"))));
 
   return seq::takeWhile(std::move(shrinks), [=](T x) { return x != value; });
 }
-- 
2.43.0


From 2bae94ef0b4d864e886b94e8d1e6adc3530e469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 04/34] fix: copy assignment of Seq from an empty Seq

The assignment operator dereferenced the null implementation of empty or
aborted sequences.
---
 include/rapidcheck/Seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/Seq.hpp b/include/rapidcheck/Seq.hpp
index 5962f1f..eac8f55 100644
--- a/include/rapidcheck/Seq.hpp
+++ b/include/rapidcheck/Seq.hpp
@@ -55,7 +55,7 @@ Seq<T>::Seq(const Seq &other)
 
 template <typename T>
 Seq<T> &Seq<T>::operator=(const Seq &rhs) {
-  m_impl = rhs.m_impl->copy();
+  m_impl = rhs.m_impl ? rhs.m_impl->copy() : nullptr;
   return *this;
 }
 
-- 
2.43.0


From a07b7087cf5bc0881a3a015791f04ab5ea05fec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 05/34] fix: clamp the size in BitStream::nextWithSize

The multiplication by the number of bits overflowed int for large sizes,
yielding no bits at all instead of the full width.
---
 include/rapidcheck/detail/BitStream.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/BitStream.hpp b/include/rapidcheck/detail/BitStream.hpp
index a4a2157..76f606e 100644
--- a/include/rapidcheck/detail/BitStream.hpp
+++ b/include/rapidcheck/detail/BitStream.hpp
@@ -85,7 +85,9 @@ T BitStream<Source>::next(int nbits, std::false_type) {
 template <typename Source>
 template <typename T>
 T BitStream<Source>::nextWithSize(int size) {
-  return next<T>((size * numBits<T>() + (kNominalSize / 2)) / kNominalSize);
+  const auto clampedSize = std::min(size, static_cast<int>(kNominalSize));
+  return next<T>((clampedSize * numBits<T>() + (kNominalSize / 2)) /
+                 kNominalSize);
 }
 
 template <typename Source>
-- 
2.43.0


From 4d7e1b19708d8bbb6578f6476e57107e725f742a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 06/34] fix: let copying a value into a Variant throw

The assignment was unconditionally noexcept, so a throwing copy terminated
the program. Copy before destroying the old value so that it is kept.
---
 include/rapidcheck/detail/Variant.h   | 4 +++-
 include/rapidcheck/detail/Variant.hpp | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/rapidcheck/detail/Variant.h b/include/rapidcheck/detail/Variant.h
index bc17851..0044e9f 100644
--- a/include/rapidcheck/detail/Variant.h
+++ b/include/rapidcheck/detail/Variant.h
@@ -29,7 +29,9 @@ public:
   template <typename T,
             typename = typename std::enable_if<
                 std::is_nothrow_move_constructible<T>::value>::type>
-  Variant &operator=(const T &value) noexcept;
+  Variant &operator=(const T &value) noexcept(
+      std::is_nothrow_copy_constructible<T>::value
+          &&std::is_nothrow_copy_assignable<T>::value);
 
   /// Move-assigns the given value to this `Variant`.
   template <typename T,
diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index e1b2da0..2733fa5 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -38,16 +38,20 @@ Variant<Type, Types...>::Variant(T &&value) noexcept(
 template <typename Type, typename... Types>
 template <typename T, typename>
 Variant<Type, Types...> &Variant<Type, Types...>::
-operator=(const T &value) noexcept {
+operator=(const T &value) noexcept(
+    std::is_nothrow_copy_constructible<T>::value
+        &&std::is_nothrow_copy_assignable<T>::value) {
   static_assert(isValidType<T>(), "T is not a valid type of this variant");
 
   const auto newIndex = indexOfType<T>();
   if (newIndex == m_typeIndex) {
     *reinterpret_cast<T *>(&m_storage) = value;
   } else {
+    // Copying may throw so this must be done before destroying the old value
+    T tmp(value);
     destroy(m_typeIndex, &m_storage);
     m_typeIndex = newIndex;
-    new (&m_storage) T(value);
+    new (&m_storage) T(std::move(tmp));
   }
   return *this;
 }
-- 
2.43.0


From bc028312edccf1af19403364bbda5bc549fafd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 07/34] fix: destroy the temporary in Variant copy assignment

---
 include/rapidcheck/detail/Variant.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/detail/Variant.hpp b/include/rapidcheck/detail/Variant.hpp
index 2733fa5..0fd73e2 100644
--- a/include/rapidcheck/detail/Variant.hpp
+++ b/include/rapidcheck/detail/Variant.hpp
@@ -173,6 +173,7 @@ operator=(const Variant &rhs) noexcept(
     copy(rhs.m_typeIndex, &tmp, &rhs.m_storage);
     destroy(m_typeIndex, &m_storage);
     move(rhs.m_typeIndex, &m_storage, &tmp);
+    destroy(rhs.m_typeIndex, &tmp);
     m_typeIndex = rhs.m_typeIndex;
   }
 
-- 
2.43.0


From 00cf1ee673878c5befbcc27ede1e265d55919b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 08/34] fix: reset the block when reading an unused Random back

Reading a state without draws into an engine that had been drawn from left the
old block in place, so the result compared different from the original.
---
 include/rapidcheck/Random.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index a2559b8..392b5d2 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -36,6 +36,8 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
       output.m_counter = counter - blki;
       output.mash(output.m_block);
     }
+  } else {
+    output.m_block = Random::Block();
   }
   output.m_counter = counter;
 
-- 
2.43.0


From b7354acc3593a1971adb040a4f3b8374d082792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 09/34] fix: check for the end of the input when reading a
 Random

The last byte was read without checking that there is one, which reads past the
end of a truncated reproduce string.
---
 include/rapidcheck/Random.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index 392b5d2..29a7e3c 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -41,6 +41,9 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
   }
   output.m_counter = counter;
 
+  if (iit == end) {
+    throw SerializationException("Unexpected end of input");
+  }
   output.m_bitsi = *iit;
   return ++iit;
 }
-- 
2.43.0


From 961049c9ccb5cc5525d0cf0f18425f801aacbd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 10/34] fix: reject an impossible bit index when reading a
 Random

A bit index beyond the width of the bits makes a later split shift out of range.
---
 include/rapidcheck/Random.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rapidcheck/Random.hpp b/include/rapidcheck/Random.hpp
index 29a7e3c..9114155 100644
--- a/include/rapidcheck/Random.hpp
+++ b/include/rapidcheck/Random.hpp
@@ -45,6 +45,9 @@ Iterator deserialize(Iterator begin, Iterator end, Random &output) {
     throw SerializationException("Unexpected end of input");
   }
   output.m_bitsi = *iit;
+  if (output.m_bitsi > Random::kBits) {
+    throw SerializationException("Invalid bit index");
+  }
   return ++iit;
 }
 
-- 
2.43.0


From ecf9e5927fb46cf27e6958f67f1a6fae36b3972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 11/34] fix: do not reserve the claimed length when reading a
 string

The length comes from the input, so that a damaged one let std::length_error or
std::bad_alloc escape instead of SerializationException.
---
 include/rapidcheck/detail/Serialization.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index a0e8e1e..174b9b3 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -55,7 +55,6 @@ Iterator deserialize(Iterator begin, Iterator end, std::string &output) {
   iit = deserializeCompact(iit, end, len);
 
   output.clear();
-  output.reserve(len);
   while (output.size() < len) {
     if (iit == end) {
       throw SerializationException("Unexpected end of input");
-- 
2.43.0


From 9ab7b6f73b0e89c191c7d3421693e8e440eec417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 12/34] fix: reject compact integers with too many bytes

Continuation bytes beyond the width of the type shifted out of range.
---
 include/rapidcheck/detail/Serialization.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/rapidcheck/detail/Serialization.hpp b/include/rapidcheck/detail/Serialization.hpp
index 174b9b3..029c369 100644
--- a/include/rapidcheck/detail/Serialization.hpp
+++ b/include/rapidcheck/detail/Serialization.hpp
@@ -188,6 +188,9 @@ Iterator deserializeCompact(Iterator begin, Iterator end, T &output) {
   UInt uvalue = 0;
   int nbits = 0;
   for (auto it = begin; it != end; it++) {
+    if (nbits >= std::numeric_limits<UInt>::digits) {
+      throw SerializationException("Integer is too long");
+    }
     auto x = static_cast<std::uint8_t>(*it);
     uvalue |= static_cast<UInt>(x & 0x7F) << nbits;
     nbits += 7;
-- 
2.43.0


From 5be9ba93d831ab888e60ef51cc21947ad0462385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 13/34] fix: uniqueBy moved from the caller's key function
 object

---
 include/rapidcheck/gen/Container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index adfd837..f488abe 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -238,7 +238,7 @@ class UniqueContainerStrategy {
 public:
   template <typename Arg>
   explicit UniqueContainerStrategy(Arg &&arg)
-      : m_f(std::move(arg)) {}
+      : m_f(std::forward<Arg>(arg)) {}
 
   template <typename T>
   Shrinkables<T> generateElements(const Random &random,
-- 
2.43.0


From ed72977b743b05f0fbf26382ce1f9d6e27782c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 14/34] fix: shrinks of unique containers referred to a
 strategy that may be gone

---
 include/rapidcheck/gen/Container.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index f488abe..760316e 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -266,13 +266,15 @@ public:
       keys->insert(m_f(shrinkable.value()));
     }
 
+    // The shrinks may outlive this strategy so they need their own copy.
+    const auto f = m_f;
     return shrink::eachElement(shrinkables,
-                               [this, keys](const Shrinkable<T> &s) {
-                                 const auto valueKey = m_f(s.value());
+                               [f, keys](const Shrinkable<T> &s) {
+                                 const auto valueKey = f(s.value());
                                  return seq::filter(
                                      s.shrinks(),
-                                     [this, keys, valueKey](const Shrinkable<T> &shrink) {
-                                       const auto shrinkKey = m_f(shrink.value());
+                                     [f, keys, valueKey](const Shrinkable<T> &shrink) {
+                                       const auto shrinkKey = f(shrink.value());
                                        return (!(valueKey < shrinkKey) &&
                                                !(shrinkKey < valueKey)) ||
                                            keys->count(shrinkKey) == 0;
-- 
2.43.0


From 0cbf67e34d067e8a7c30f0e58f05c6f26a549a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 15/34] fix: copying a moved-from shrinkable dereferenced a
 null pointer

Copies of partly consumed sequences of shrinkables (seq::just and
seq::fromContainer move their elements out) contain such objects.
---
 include/rapidcheck/Shrinkable.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/Shrinkable.hpp b/include/rapidcheck/Shrinkable.hpp
index 20e0f7b..bf76153 100644
--- a/include/rapidcheck/Shrinkable.hpp
+++ b/include/rapidcheck/Shrinkable.hpp
@@ -56,7 +56,9 @@ Seq<Shrinkable<T>> Shrinkable<T>::shrinks() const noexcept {
 template <typename T>
 Shrinkable<T>::Shrinkable(const Shrinkable &other) noexcept
     : m_impl(other.m_impl) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
@@ -66,7 +68,9 @@ Shrinkable<T>::Shrinkable(Shrinkable &&other) noexcept : m_impl(other.m_impl) {
 
 template <typename T>
 Shrinkable<T> &Shrinkable<T>::operator=(const Shrinkable &other) noexcept {
-  other.m_impl->retain();
+  if (other.m_impl) {
+    other.m_impl->retain();
+  }
   if (m_impl) {
     m_impl->release();
   }
-- 
2.43.0


From abc764bee536fab88e9c84f1bc80efb8fc64fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 16/34] fix: copying a moved-from generator dereferenced a null
 pointer

Copies of partly consumed sequences of generators contain such objects.
---
 include/rapidcheck/Gen.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/Gen.hpp b/include/rapidcheck/Gen.hpp
index 0c48004..8c35cf6 100644
--- a/include/rapidcheck/Gen.hpp
+++ b/include/rapidcheck/Gen.hpp
@@ -95,12 +95,16 @@ Gen<T> Gen<T>::as(const std::string &name) const {
 template <typename T>
 Gen<T>::Gen(const Gen &other) noexcept : m_impl(other.m_impl),
                                          m_name(other.m_name) {
-  m_impl->retain();
+  if (m_impl) {
+    m_impl->retain();
+  }
 }
 
 template <typename T>
 Gen<T> &Gen<T>::operator=(const Gen &rhs) noexcept {
-  rhs.m_impl->retain();
+  if (rhs.m_impl) {
+    rhs.m_impl->retain();
+  }
   if (m_impl) {
     m_impl->release();
   }
-- 
2.43.0


From ab7102ebb65d061a104ff26ce72221e83b957a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 17/34] fix: a discarded command shrink ended the shrinking of
 a command sequence

The exception thrown by the value of such a shrink silently ended the
sequence of shrinks, so all later shrinks were lost.
---
 include/rapidcheck/state/gen/Commands.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/state/gen/Commands.hpp b/include/rapidcheck/state/gen/Commands.hpp
index cb66f80..29e8fc7 100644
--- a/include/rapidcheck/state/gen/Commands.hpp
+++ b/include/rapidcheck/state/gen/Commands.hpp
@@ -210,6 +210,22 @@ private:
       repairEntries();
     }
 
+    // Returns true if the shrink yields a command which is valid for the given
+    // state. Shrinks that fail to generate or discard themselves are not.
+    static bool isValidShrink(const Shrinkable<CmdSP> &shrink,
+                              const Model &state) {
+      try {
+        return isValidCommand(*shrink.value(), state);
+      } catch (const GenerationFailure &) {
+        return false;
+      } catch (const ::rc::detail::CaseResult &result) {
+        if (result.type != ::rc::detail::CaseResult::Type::Discard) {
+          throw;
+        }
+        return false;
+      }
+    }
+
     // Returns the shrinks possible by replacing a command with shrunk version.
     Seq<CommandSequence> shrinksIndividual() const {
       const auto copy = *this;
@@ -220,7 +236,7 @@ private:
             auto validReplacements =
                 seq::filter(copy.m_entries[i].shrinkable().shrinks(),
                             [=](const Shrinkable<CmdSP> &s) {
-                              return isValidCommand(*s.value(), *preState);
+                              return isValidShrink(s, *preState);
                             });
 
             return seq::map(std::move(validReplacements),
-- 
2.43.0


From 208d8e2877f4fa9dff6a9ea52dd3ec97dc5f1c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 18/34] fix: strings with backslashes or control characters
 were shown ambiguously

A backslash was not escaped, so that a backslash followed by an n looked like
a newline, and bytes below 0x10 got one hex digit only, so that their escape
ran into the next character. The precision of the stream was changed, too.
---
 src/Show.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/Show.cpp b/src/Show.cpp
index ae5272b..e0866ae 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -2,7 +2,6 @@
 
 #include <string>
 #include <iostream>
-#include <iomanip>
 #include <cctype>
 #include <locale>
 
@@ -16,7 +15,7 @@ void showValue(const std::string &value, std::ostream &os) {
     if (!std::isspace(c, locale) && std::isprint(c, locale)) {
       switch (c) {
       case '\\':
-        os << "\\";
+        os << "\\\\";
         break;
       case '"':
         os << "\\\"";
@@ -54,11 +53,8 @@ void showValue(const std::string &value, std::ostream &os) {
         os << ' ';
         break;
       default:
-        auto flags = os.flags();
-        os << "\\x";
-        os << std::hex << std::setprecision(2) << std::uppercase
-           << static_cast<int>(c & 0xFF);
-        os.flags(flags);
+        static const char digits[] = "0123456789ABCDEF";
+        os << "\\x" << digits[(c >> 4) & 0xF] << digits[c & 0xF];
       }
     }
   }
-- 
2.43.0


From e5eeaa61db5e30d5ab9e001b24dfea751d917d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 19/34] fix: signed characters were shown as raw bytes

Unlike `char` and `unsigned char`. This includes `int8_t` values.
---
 include/rapidcheck/Show.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index b3fe559..3b9dea6 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -53,6 +53,7 @@ void showValue(T value,
 template <typename T>
 void showValue(T value,
                typename std::enable_if<(std::is_same<T, char>::value ||
+                                        std::is_same<T, signed char>::value ||
                                         std::is_same<T, unsigned char>::value),
                                        std::ostream>::type &os) {
   os << static_cast<int>(value);
-- 
2.43.0


From 1a67dfac7214f2ae38e2fa060b23031f5918449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 20/34] fix: showing a null pointer dereferenced it

---
 include/rapidcheck/Show.hpp | 5 +++++
 src/Show.cpp                | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index 3b9dea6..03ceb69 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -64,6 +64,11 @@ void showValue(const char *value, std::ostream &os);
 
 template <typename T>
 void showValue(T *p, std::ostream &os) {
+  if (!p) {
+    os << "nullptr";
+    return;
+  }
+
   show(*p, os);
   auto flags = os.flags();
   os << " (" << std::hex << std::showbase << p << ")";
diff --git a/src/Show.cpp b/src/Show.cpp
index e0866ae..2d57acd 100644
--- a/src/Show.cpp
+++ b/src/Show.cpp
@@ -62,6 +62,11 @@ void showValue(const std::string &value, std::ostream &os) {
 }
 
 void showValue(const char *value, std::ostream &os) {
+  if (!value) {
+    os << "nullptr";
+    return;
+  }
+
   show(std::string(value), os);
 }
 
-- 
2.43.0


From aa23aee85324abcbb93c76d95b13ecb8571d6e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 21/34] fix: printing a distribution changed the settings of
 the stream

---
 src/detail/Results.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/detail/Results.cpp b/src/detail/Results.cpp
index f50e177..dc39e35 100644
--- a/src/detail/Results.cpp
+++ b/src/detail/Results.cpp
@@ -1,6 +1,7 @@
 #include "rapidcheck/detail/Results.h"
 
 #include <iomanip>
+#include <sstream>
 #include <algorithm>
 
 #include "rapidcheck/Show.h"
@@ -103,8 +104,11 @@ void printDistribution(const SuccessResult &result, std::ostream &os) {
   for (const auto &entry : entries) {
     const auto percent =
         (static_cast<double>(entry.second) / result.numSuccess) * 100.0;
-    os << std::setw(5) << std::setprecision(2) << std::fixed << percent
-       << "% - ";
+    // Separate stream so that the settings of `os` are left alone
+    std::ostringstream percentString;
+    percentString << std::setw(5) << std::setprecision(2) << std::fixed
+                  << percent;
+    os << percentString.str() << "% - ";
     for (auto it = begin(entry.first); it != end(entry.first); it++) {
       if (it != begin(entry.first)) {
         os << ", ";
-- 
2.43.0


From a3be0bd1cad65d908ee316add87ef15539e9919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:54 +0000
Subject: [PATCH 22/34] fix: the doctest integration did not compile

---
 extras/doctest/include/rapidcheck/doctest.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extras/doctest/include/rapidcheck/doctest.h b/extras/doctest/include/rapidcheck/doctest.h
index 65229cd..38cdc7e 100644
--- a/extras/doctest/include/rapidcheck/doctest.h
+++ b/extras/doctest/include/rapidcheck/doctest.h
@@ -7,6 +7,10 @@
 
 namespace rc::doctest {
 
+// The macros of doctest refer to its names as 'doctest::...', which in here
+// would otherwise only mean this namespace.
+using namespace ::doctest;
+
 /**
  * Checks the given predicate by applying it to randomly generated arguments.
  *
-- 
2.43.0


From f210ecaf6777414fc3a0e641f03f765b9c04002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 23/34] fix: fixtures were not torn down after failed or
 discarded cases

---
 include/rapidcheck/detail/ExecFixture.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/detail/ExecFixture.h b/include/rapidcheck/detail/ExecFixture.h
index d188d56..6ed2196 100644
--- a/include/rapidcheck/detail/ExecFixture.h
+++ b/include/rapidcheck/detail/ExecFixture.h
@@ -14,7 +14,13 @@ struct ExecFixture<Fixture, TypeList<Args...>> {
   static void exec(Args &&... args) {
     Fixture fixture;
     fixture.rapidCheck_fixtureSetUp();
-    fixture(std::forward<Args>(args)...);
+    try {
+      fixture(std::forward<Args>(args)...);
+    } catch (...) {
+      // Failed and discarded cases leave by exception.
+      fixture.rapidCheck_fixtureTearDown();
+      throw;
+    }
     fixture.rapidCheck_fixtureTearDown();
   }
 };
-- 
2.43.0


From e5eeacaf56b8a3181784b28cc5b59b26ab12022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:38 +0000
Subject: [PATCH 24/34] fix: boost::optional could not be shown, so not be used
 in a property

---
 .../boost/include/rapidcheck/gen/boost/Optional.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
index aeb4212..18be03a 100644
--- a/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
+++ b/extras/boost/include/rapidcheck/gen/boost/Optional.hpp
@@ -23,13 +23,24 @@ struct Arbitrary<boost::optional<T>> {
   }
 };
 
+} // namespace rc
+
+namespace boost {
+
+// In the namespace of the type so that `rc::show` finds it.
 template <typename T>
 void showValue(const boost::optional<T> &x, std::ostream &os) {
   if (x) {
-    show(*x, os);
+    rc::show(*x, os);
   } else {
     os << "boost::none";
   }
 }
 
+} // namespace boost
+
+namespace rc {
+
+using ::boost::showValue;
+
 } // namespace rc
-- 
2.43.0


From 176bc15e9dd0c2f485b23f1a0e866283a7acdcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:04 +0000
Subject: [PATCH 25/34] fix: a large max_success reserved memory for every
 possible case

---
 src/detail/Testing.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index f5ffc7b..e3a0da2 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -37,7 +37,6 @@ SearchResult searchProperty(const Property &property,
   searchResult.type = SearchResult::Type::Success;
   searchResult.numSuccess = 0;
   searchResult.numDiscarded = 0;
-  searchResult.tags.reserve(params.maxSuccess);
 
   // This product does not necessarily fit in an `int`.
   const auto maxDiscard =
-- 
2.43.0


From 64c65cf39176ecb4288e2f5361a9de2dd17c44c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:04 +0000
Subject: [PATCH 26/34] fix: raising the size after discards overflowed at the
 largest size

---
 src/detail/Testing.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/detail/Testing.cpp b/src/detail/Testing.cpp
index e3a0da2..b0d9d57 100644
--- a/src/detail/Testing.cpp
+++ b/src/detail/Testing.cpp
@@ -1,5 +1,8 @@
 #include "Testing.h"
 
+#include <algorithm>
+#include <limits>
+
 #include "rapidcheck/BeforeMinimalTestCase.h"
 #include "rapidcheck/shrinkable/Operations.h"
 
@@ -45,8 +48,11 @@ SearchResult searchProperty(const Property &property,
   auto recentDiscards = 0;
   auto r = Random(params.seed);
   while (searchResult.numSuccess < params.maxSuccess) {
-    const auto size =
-        sizeFor(params, searchResult.numSuccess) + (recentDiscards / 10);
+    // This sum does not necessarily fit in an `int`.
+    const auto size = static_cast<int>(std::min<int64_t>(
+        static_cast<int64_t>(sizeFor(params, searchResult.numSuccess)) +
+            (recentDiscards / 10),
+        std::numeric_limits<int>::max()));
     const auto random = r.split();
 
     auto shrinkable = property(random, size);
-- 
2.43.0


From eb285816fb99dd473946926e6bba123aa9d85f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:13 +0000
Subject: [PATCH 27/34] fix: generators overflowed the size when it was the
 largest int

---
 include/rapidcheck/gen/Container.hpp      | 8 ++++++--
 include/rapidcheck/gen/Maybe.hpp          | 2 +-
 include/rapidcheck/gen/Predicate.hpp      | 6 +++++-
 include/rapidcheck/gen/Text.hpp           | 2 +-
 include/rapidcheck/state/gen/Commands.hpp | 3 ++-
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index 760316e..d47d6fa 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include "rapidcheck/gen/Arbitrary.h"
 #include "rapidcheck/gen/Tuple.h"
 #include "rapidcheck/gen/detail/ShrinkValueIterator.h"
@@ -51,7 +53,9 @@ Shrinkables<T> generateShrinkables(const Random &random,
                                 std::to_string(count) +
                                 " values for container");
       }
-      currentSize++;
+      if (currentSize < std::numeric_limits<int>::max()) {
+        currentSize++;
+      }
     }
   }
 
@@ -297,7 +301,7 @@ public:
   generate(const Random &random, int size, const Gen<Ts> &... gens) const {
     const auto strategy = m_strategy;
     auto r = random;
-    std::size_t count = r.split().next() % (size + 1);
+    std::size_t count = r.split().next() % (static_cast<std::size_t>(size) + 1);
     auto shrinkables = strategy.generateElements(r, size, count, gens...);
 
     using Elements = decltype(shrinkables);
diff --git a/include/rapidcheck/gen/Maybe.hpp b/include/rapidcheck/gen/Maybe.hpp
index 8991743..86fe394 100644
--- a/include/rapidcheck/gen/Maybe.hpp
+++ b/include/rapidcheck/gen/Maybe.hpp
@@ -12,7 +12,7 @@ public:
 
   Shrinkable<Maybe<T>> operator()(const Random &random, int size) const {
     auto r = random;
-    const auto x = r.split().next() % (size + 1);
+    const auto x = r.split().next() % (static_cast<std::size_t>(size) + 1);
     if (x == 0) {
       return shrinkable::lambda([]{ return Maybe<T>(); });
     }
diff --git a/include/rapidcheck/gen/Predicate.hpp b/include/rapidcheck/gen/Predicate.hpp
index 5ab6290..6cd257b 100644
--- a/include/rapidcheck/gen/Predicate.hpp
+++ b/include/rapidcheck/gen/Predicate.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 namespace rc {
 namespace gen {
 namespace detail {
@@ -22,7 +24,9 @@ public:
       if (shrinkable) {
         return std::move(*shrinkable);
       }
-      currentSize++;
+      if (currentSize < std::numeric_limits<int>::max()) {
+        currentSize++;
+      }
     }
 
     throw GenerationFailure(
diff --git a/include/rapidcheck/gen/Text.hpp b/include/rapidcheck/gen/Text.hpp
index 146b709..4d32d73 100644
--- a/include/rapidcheck/gen/Text.hpp
+++ b/include/rapidcheck/gen/Text.hpp
@@ -20,7 +20,7 @@ public:
   Shrinkable<String> operator()(const Random &random, int size) const {
     auto stream = rc::detail::bitStreamOf(random);
     String str;
-    auto length = stream.next<std::size_t>() % (size + 1);
+    auto length = stream.next<std::size_t>() % (static_cast<std::size_t>(size) + 1);
     str.reserve(length);
 
     for (std::size_t i = 0; i < length; i++) {
diff --git a/include/rapidcheck/state/gen/Commands.hpp b/include/rapidcheck/state/gen/Commands.hpp
index 29e8fc7..b1dc82f 100644
--- a/include/rapidcheck/state/gen/Commands.hpp
+++ b/include/rapidcheck/state/gen/Commands.hpp
@@ -86,7 +86,8 @@ private:
         , m_genFunc(func)
         , m_size(sz) {
       auto r = random;
-      std::size_t count = (r.split().next() % (m_size + 1)) + 1;
+      std::size_t count =
+          (r.split().next() % (static_cast<std::size_t>(m_size) + 1)) + 1;
       generateInitial(r, count);
     }
 
-- 
2.43.0


From 1e80289ea89fb273fe2aa56403518cb2f5e85d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:13 +0000
Subject: [PATCH 28/34] fix: scaling a size beyond the largest int gave a
 negative size

---
 include/rapidcheck/gen/Transform.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/gen/Transform.hpp b/include/rapidcheck/gen/Transform.hpp
index e9433fa..cb5afae 100644
--- a/include/rapidcheck/gen/Transform.hpp
+++ b/include/rapidcheck/gen/Transform.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <algorithm>
+#include <limits>
+
 #include "rapidcheck/shrinkable/Transform.h"
 #include "rapidcheck/gen/Arbitrary.h"
 #include "rapidcheck/gen/Tuple.h"
@@ -120,7 +123,9 @@ Gen<T> resize(int size, Gen<T> gen) {
 template <typename T>
 Gen<T> scale(double scale, Gen<T> gen) {
   return [=](const Random &random, int size) {
-    return gen(random, static_cast<int>(size * scale));
+    // The product does not necessarily fit in an `int`.
+    constexpr double maxSize = std::numeric_limits<int>::max();
+    return gen(random, static_cast<int>(std::min(size * scale, maxSize)));
   };
 }
 
-- 
2.43.0


From a6cac7558616429a6d2ad4eb8f039472f4784fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:44 +0000
Subject: [PATCH 29/34] fix: characters other than char and wchar_t did not
 shrink

---
 include/rapidcheck/shrink/Shrink.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/rapidcheck/shrink/Shrink.hpp b/include/rapidcheck/shrink/Shrink.hpp
index f64849d..2acdbac 100644
--- a/include/rapidcheck/shrink/Shrink.hpp
+++ b/include/rapidcheck/shrink/Shrink.hpp
@@ -187,13 +187,17 @@ Seq<bool> boolean(bool value) { return value ? seq::just(false) : Seq<bool>(); }
 
 template <typename T>
 Seq<T> character(T value) {
+  // There are only facets for `char` and `wchar_t`, others throw `bad_cast`.
+  using Char = typename std::
+      conditional<sizeof(T) == sizeof(char), char, wchar_t>::type;
   const auto &locale = std::locale::classic();
+  const auto c = static_cast<Char>(value);
   auto shrinks =
       seq::concat(seq::cast<T>(seq::fromContainer(std::string("abc"))),
                   // TODO this seems a bit hacky
-                  std::islower(value, locale)
+                  (std::islower(c, locale) || (static_cast<T>(c) != value))
                       ? Seq<T>()
-                      : seq::just(static_cast<T>(std::tolower(value, locale))),
+                      : seq::just(static_cast<T>(std::tolower(c, locale))),
                   seq::cast<T>(seq::fromContainer(std::string("ABC123 \n"))));
 
   return seq::takeWhile(std::move(shrinks), [=](T x) { return x != value; });
-- 
2.43.0


From a4e4c9f08d130e1c88eac6efb4d4fe36bfbaa579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 30/34] fix: the address of a character was shown as a string

---
 include/rapidcheck/Show.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index 03ceb69..e8de4e8 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -71,7 +71,9 @@ void showValue(T *p, std::ostream &os) {
 
   show(*p, os);
   auto flags = os.flags();
-  os << " (" << std::hex << std::showbase << p << ")";
+  // Not as `T *`, a pointer to a character would be written as a string.
+  os << " (" << std::hex << std::showbase
+     << const_cast<const void *>(static_cast<const volatile void *>(p)) << ")";
   os.flags(flags);
 }
 
-- 
2.43.0


From eb7e18898b52cbd732ca3a839e7e0e7638754896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:40 +0000
Subject: [PATCH 31/34] fix: showing a function pointer never ended, void
 pointers did not compile

---
 include/rapidcheck/Show.hpp | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/rapidcheck/Show.hpp b/include/rapidcheck/Show.hpp
index e8de4e8..4ae41ba 100644
--- a/include/rapidcheck/Show.hpp
+++ b/include/rapidcheck/Show.hpp
@@ -63,12 +63,8 @@ void showValue(const std::string &value, std::ostream &os);
 void showValue(const char *value, std::ostream &os);
 
 template <typename T>
-void showValue(T *p, std::ostream &os) {
-  if (!p) {
-    os << "nullptr";
-    return;
-  }
-
+typename std::enable_if<std::is_object<T>::value>::type
+showPointer(T *p, std::ostream &os) {
   show(*p, os);
   auto flags = os.flags();
   // Not as `T *`, a pointer to a character would be written as a string.
@@ -77,6 +73,25 @@ void showValue(T *p, std::ostream &os) {
   os.flags(flags);
 }
 
+// There is no value to show behind pointers to `void` and functions.
+template <typename T>
+typename std::enable_if<!std::is_object<T>::value>::type
+showPointer(T *p, std::ostream &os) {
+  auto flags = os.flags();
+  os << std::hex << std::showbase << (const void *)p;
+  os.flags(flags);
+}
+
+template <typename T>
+void showValue(T *p, std::ostream &os) {
+  if (!p) {
+    os << "nullptr";
+    return;
+  }
+
+  showPointer(p, os);
+}
+
 template <typename T, typename Deleter>
 void showValue(const std::unique_ptr<T, Deleter> &p, std::ostream &os) {
   show(p.get(), os);
-- 
2.43.0


From bd4fabde11365d7de248f597f5a225422397d52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:16 +0000
Subject: [PATCH 32/34] fix: maps asked their value generator for a value at
 size 0

---
 include/rapidcheck/gen/Container.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/rapidcheck/gen/Container.hpp b/include/rapidcheck/gen/Container.hpp
index d47d6fa..b107391 100644
--- a/include/rapidcheck/gen/Container.hpp
+++ b/include/rapidcheck/gen/Container.hpp
@@ -134,22 +134,24 @@ public:
                                          const Gen<K> &keyGen,
                                          const Gen<V> &valueGen) const {
     Random r(random);
+    const auto keyRandom = r.split();
+    auto valueShrinkables =
+        generateShrinkables(r, size, count, valueGen, fn::constant(true));
+
     Map map;
-    auto dummyValue = valueGen(Random(), 0);
     auto keyShrinkables = generateShrinkables(
-        r.split(),
+        keyRandom,
         size,
         count,
         keyGen,
         [&](const Shrinkable<K> &s) {
-          // We want only keys that can be inserted
-          return map.insert(std::make_pair(s.value(), dummyValue.value()))
+          // We want only keys that can be inserted, any value will do for that
+          return map
+              .insert(
+                  std::make_pair(s.value(), valueShrinkables.front().value()))
               .second;
         });
 
-    auto valueShrinkables =
-        generateShrinkables(r, size, count, valueGen, fn::constant(true));
-
     ShrinkablePairs<K, V> shrinkablePairs;
     shrinkablePairs.reserve(count);
     for (std::size_t i = 0; i < count; i++) {
-- 
2.43.0


From d2980823e7ecdc64f4951be08ecfbb978a4106fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:01 +0000
Subject: [PATCH 33/34] fix: mock listener swallowed disabled tests and test
 suite events

---
 extras/gmock/include/rapidcheck/gmock.h | 51 +++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/extras/gmock/include/rapidcheck/gmock.h b/extras/gmock/include/rapidcheck/gmock.h
index 327e8a2..26407fc 100644
--- a/extras/gmock/include/rapidcheck/gmock.h
+++ b/extras/gmock/include/rapidcheck/gmock.h
@@ -94,6 +94,20 @@ public:
     }
   }
 
+  // The following events only exist in newer versions of gtest, hence no
+  // `override`.
+  void OnTestSuiteStart(const ::testing::TestCase &test_suite) {
+    suiteStart(m_delegate.get(), test_suite, 0);
+  }
+
+  void OnTestSuiteEnd(const ::testing::TestCase &test_suite) {
+    suiteEnd(m_delegate.get(), test_suite, 0);
+  }
+
+  void OnTestDisabled(const ::testing::TestInfo &test_info) {
+    testDisabled(m_delegate.get(), test_info, 0);
+  }
+
   void OnTestStart(const ::testing::TestInfo &test_info) override {
     if (m_delegate) {
       m_delegate->OnTestStart(test_info);
@@ -140,6 +154,43 @@ public:
   }
 
 private:
+  // These call the delegate if the event is known to gtest.
+  template <typename Listener>
+  static auto
+  suiteStart(Listener *listener, const ::testing::TestCase &suite, int)
+      -> decltype(listener->OnTestSuiteStart(suite)) {
+    if (listener) {
+      listener->OnTestSuiteStart(suite);
+    }
+  }
+
+  template <typename Listener>
+  static void suiteStart(Listener *, const ::testing::TestCase &, long) {}
+
+  template <typename Listener>
+  static auto
+  suiteEnd(Listener *listener, const ::testing::TestCase &suite, int)
+      -> decltype(listener->OnTestSuiteEnd(suite)) {
+    if (listener) {
+      listener->OnTestSuiteEnd(suite);
+    }
+  }
+
+  template <typename Listener>
+  static void suiteEnd(Listener *, const ::testing::TestCase &, long) {}
+
+  template <typename Listener>
+  static auto
+  testDisabled(Listener *listener, const ::testing::TestInfo &test, int)
+      -> decltype(listener->OnTestDisabled(test)) {
+    if (listener) {
+      listener->OnTestDisabled(test);
+    }
+  }
+
+  template <typename Listener>
+  static void testDisabled(Listener *, const ::testing::TestInfo &, long) {}
+
   std::unique_ptr<::testing::TestEventListener> m_delegate;
 };
 
-- 
2.43.0


From ad74b6fda74716e2bf5d3a6deb42e2bdb91b811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 34/34] fix: reproduce strings with a negative size were
 accepted

---
 include/rapidcheck/detail/Results.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/rapidcheck/detail/Results.hpp b/include/rapidcheck/detail/Results.hpp
index 0bd8267..1d95391 100644
--- a/include/rapidcheck/detail/Results.hpp
+++ b/include/rapidcheck/detail/Results.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 namespace rc {
 namespace detail {
 
@@ -19,6 +21,9 @@ Iterator deserialize(Iterator begin, Iterator end, Reproduce &out) {
 
   std::uint32_t size;
   iit = deserialize(iit, end, size);
+  if (size > static_cast<std::uint32_t>(std::numeric_limits<int>::max())) {
+    throw SerializationException("Invalid size");
+  }
   out.size = static_cast<int>(size);
 
   out.shrinkPath.clear();
-- 
2.43.0

