From d3e0174830a7f2b4cf3d03f12d18b21bae240016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 01/10] fix: return success after decoding a known_id variant
 alternative that is not default constructible

---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 8576f61..a4d99b1 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2998,6 +2998,7 @@ private:
                     return result;
                 }
                 variant = std::move(*object);
+                return {};
             }
         } else {
             typename traits::variant<type>::id_type id;
-- 
2.43.0


From fe2db800a2e058a4e57bda61e3cf1306dc3da219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 02/10] fix: clear the output bytes of a bitset before setting
 its bits

---
 zpp_bits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index a4d99b1..e36801c 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2328,6 +2328,9 @@ protected:
         }
 
         auto data = m_data.data() + m_position;
+        for (std::size_t i = 0; i < size_in_bytes; ++i) {
+            data[i] = byte_type{};
+        }
         for (std::size_t i = 0; i < size; ++i) {
             auto & value = data[i / CHAR_BIT];
             value = byte_type(static_cast<unsigned char>(value) |
-- 
2.43.0


From ae9d9bcf56e6d524251f6344347e378790ba5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:35 +0000
Subject: [PATCH 03/10] fix: shrink a grown output to what it held when
 serialization ended inside it

---
 zpp_bits.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index e36801c..7073af5 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2449,9 +2449,7 @@ public:
                       enlarger != std::tuple{1, 1}) {
             auto end = m_data.size();
             auto result = serialize_many(items...);
-            if (m_position >= end) {
-                m_data.resize(m_position);
-            }
+            m_data.resize(m_position >= end ? m_position : end);
             return result;
         } else {
             return serialize_many(items...);
-- 
2.43.0


From 03e2278aba1a34baaa4a1b0449cda2139a6bb86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:34 +0000
Subject: [PATCH 04/10] fix: write the length prefix of a message in the
 archive's byte order

---
 zpp_bits.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 7073af5..e67f8e1 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2403,10 +2403,15 @@ protected:
                     m_position += move_ahead_count;
                 }
             }
-            return basic_out<std::span<byte_type, sizeof(SizeType)>>{
-                std::span<byte_type, sizeof(SizeType)>{
-                    m_data.data() + size_position, sizeof(SizeType)}}(
-                SizeType(message_size));
+            auto prefix = std::span<byte_type>{
+                m_data.data() + size_position, m_position - size_position};
+            if constexpr (endian_aware) {
+                return basic_out<std::span<byte_type>, endian::swapped>{
+                    prefix, endian::swapped{}}(SizeType(message_size));
+            } else {
+                return basic_out<std::span<byte_type>>{prefix}(
+                    SizeType(message_size));
+            }
         } else {
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
-- 
2.43.0


From 34e22f769c3be4131b70239b5597516598de3591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 05/10] fix: report a message whose announced length exceeds
 the input

---
 zpp_bits.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index e67f8e1..192f831 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4933,15 +4933,24 @@ struct pb
         }
     }
 
-    ZPP_BITS_INLINE constexpr errc operator()(
-        auto & archive,
-        auto & item,
-        std::size_t size = std::numeric_limits<std::size_t>::max()) const
+    ZPP_BITS_INLINE constexpr errc
+    operator()(auto & archive, auto & item) const
+        requires(std::remove_cvref_t<decltype(archive)>::kind() ==
+                 kind::in)
+    {
+        return (*this)(archive, item, archive.remaining_data().size());
+    }
+
+    ZPP_BITS_INLINE constexpr errc
+    operator()(auto & archive, auto & item, std::size_t size) const
         requires(std::remove_cvref_t<decltype(archive)>::kind() ==
                  kind::in)
     {
         auto data = archive.remaining_data();
-        in in{std::span{data.data(), std::min(size, data.size())},
+        if (size > data.size()) [[unlikely]] {
+            return std::errc::result_out_of_range;
+        }
+        in in{std::span{data.data(), size},
               size_varint{},
               endian::little{},
               alloc_limit<std::remove_cvref_t<
-- 
2.43.0


From cfa419c3864e106ce4bc8b8c8e7a5d0007c1c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 06/10] fix: encode protobuf fixed-size fields little endian in
 a big endian archive with varint sizes

---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 192f831..9151c66 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4706,8 +4706,8 @@ struct pb
         using archive_type = typename std::remove_cvref_t<decltype(archive)>;
         if constexpr (!concepts::varint<
                           typename archive_type::default_size_type> ||
-                      ((std::endian::little != std::endian::native) &&
-                       !archive_type::endian_aware)) {
+                      ((std::endian::little != std::endian::native) !=
+                       archive_type::endian_aware)) {
             out out{archive.data(),
                     size_varint{},
                     no_fit_size{},
-- 
2.43.0


From a731ac04e9188d7629c582f75d50b5bb3ff76535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:16 +0000
Subject: [PATCH 07/10] fix: check the length of a packed protobuf field
 against the input before allocating for it

---
 zpp_bits.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 9151c66..a85e93d 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5146,11 +5146,22 @@ struct pb
                             return errc{std::errc::message_size};
                         }
                     }
+                    if (length > archive.remaining_data().size())
+                        [[unlikely]] {
+                        return errc{std::errc::result_out_of_range};
+                    }
                     item.resize(length / sizeof(value_type));
                     return archive(unsized(item));
                 } else {
+                    if (length > archive.remaining_data().size())
+                        [[unlikely]] {
+                        return errc{std::errc::result_out_of_range};
+                    }
                     if constexpr (requires { item.reserve(1); }) {
-                        item.reserve(length);
+                        item.reserve(std::min<std::size_t>(
+                            length,
+                            archive_type::allocation_limit /
+                                sizeof(orig_value_type)));
                     }
 
                     auto end_position = length + archive.position();
-- 
2.43.0


From 8f9b50869cbccf8df0b047ee759f1a56a20558ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 08/10] fix: accumulate the occurrences of a packed fixed-size
 protobuf field

---
 zpp_bits.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index a85e93d..866d3c5 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5150,8 +5150,17 @@ struct pb
                         [[unlikely]] {
                         return errc{std::errc::result_out_of_range};
                     }
-                    item.resize(length / sizeof(value_type));
-                    return archive(unsized(item));
+                    if constexpr (sizeof(value_type) > 1 &&
+                                  requires { item.data(); }) {
+                        auto count = item.size();
+                        item.resize(count + length / sizeof(value_type));
+                        return archive(unsized(
+                            std::span{item.data() + count,
+                                      item.size() - count}));
+                    } else {
+                        item.resize(length / sizeof(value_type));
+                        return archive(unsized(item));
+                    }
                 } else {
                     if (length > archive.remaining_data().size())
                         [[unlikely]] {
-- 
2.43.0


From a2b1f7fd8a2b224c7e13c86f8f9faa3442c4bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 09/10] fix: construct the value of a default constructed
 value_or_errc

---
 zpp_bits.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 866d3c5..0bab357 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3485,7 +3485,13 @@ struct [[nodiscard]] value_or_errc
             std::add_pointer_t<std::remove_reference_t<Type>>,
             Type>>;
 
-    constexpr value_or_errc() = default;
+    constexpr value_or_errc() requires(std::is_void_v<Type>)
+    = default;
+
+    constexpr value_or_errc() requires(!std::is_void_v<Type>) :
+        m_return_value()
+    {
+    }
 
     constexpr explicit value_or_errc(auto && value) :
         m_return_value(std::forward<decltype(value)>(value))
-- 
2.43.0


From be674e6d388ff8d975a15016c76f20180524b87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 10/10] fix: pad messages of 56 to 63 bytes modulo 64 with
 another block in sha1 and sha256

---
 zpp_bits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 0bab357..39fcfbe 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5382,7 +5382,8 @@ constexpr auto sha1()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t{original_message.size()}),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
@@ -5507,7 +5508,8 @@ constexpr auto sha256()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t{original_message.size()}),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
-- 
2.43.0

