From 49d2a9eee002723ad629cc9ae755b8126be3d352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:36 +0000
Subject: [PATCH 01/27] fix: clear the output bytes before packing a bitset
 into them

A bitset was combined with whatever the output buffer held before.
---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 8576f61..385756b 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2328,6 +2328,7 @@ protected:
         }
 
         auto data = m_data.data() + m_position;
+        std::fill_n(data, size_in_bytes, byte_type{});
         for (std::size_t i = 0; i < size; ++i) {
             auto & value = data[i / CHAR_BIT];
             value = byte_type(static_cast<unsigned char>(value) |
-- 
2.43.0


From 0313bef79095b890f5a62ffb5037d1874c070795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 02/27] fix: fit the output size with an exact enlarger as well

A varint enlarges the output for its maximum size, so even with an exact
enlarger there may be spare bytes to remove.
---
 zpp_bits.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 385756b..81ad608 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2443,8 +2443,7 @@ public:
 
     ZPP_BITS_INLINE constexpr auto operator()(auto &&... items)
     {
-        if constexpr (resizable && !no_fit_size &&
-                      enlarger != std::tuple{1, 1}) {
+        if constexpr (resizable && !no_fit_size) {
             auto end = m_data.size();
             auto result = serialize_many(items...);
             if (m_position >= end) {
-- 
2.43.0


From f599d9e9ef64f02c691ca832ccbc57951a3f5e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 03/27] fix: fit the output size when the last write ends
 inside the old data

Overwriting near the end of the data may enlarge the output (a varint asks
for its maximum size) although the position stays within the old size.
---
 zpp_bits.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 81ad608..ec07b75 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2446,9 +2446,7 @@ public:
         if constexpr (resizable && !no_fit_size) {
             auto end = m_data.size();
             auto result = serialize_many(items...);
-            if (m_position >= end) {
-                m_data.resize(m_position);
-            }
+            m_data.resize(std::max(end, m_position));
             return result;
         } else {
             return serialize_many(items...);
-- 
2.43.0


From fd46bbbf49fd15c6e02bb550bcbb250573a3ee59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 04/27] fix: return success from reading a known id non default
 constructible type

---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index ec07b75..300434d 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2996,6 +2996,7 @@ private:
                     return result;
                 }
                 variant = std::move(*object);
+                return {};
             }
         } else {
             typename traits::variant<type>::id_type id;
-- 
2.43.0


From 4d1991f7246f557135a6f11501577b9ae5eaee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 05/27] fix: report writing a variant under the known id of an
 inactive alternative

It dereferenced a null pointer.
---
 zpp_bits.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 300434d..4e7e84c 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2281,10 +2281,13 @@ protected:
         using type = std::remove_cvref_t<decltype(variant)>;
 
         if constexpr (!std::is_void_v<KnownId>) {
-            return serialize_one(
-                *std::get_if<
-                    traits::variant<type>::template index<KnownId::value>()>(
-                    std::addressof(variant)));
+            auto item = std::get_if<
+                traits::variant<type>::template index<KnownId::value>()>(
+                std::addressof(variant));
+            if (!item) [[unlikely]] {
+                return std::errc::invalid_argument;
+            }
+            return serialize_one(*item);
         } else {
             auto variant_index = variant.index();
             if (std::variant_npos == variant_index) [[unlikely]] {
-- 
2.43.0


From 015b0f23632753ff266c26d352f6e3929c4414ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 06/27] fix: write the protocol message size in the byte order
 of the archive

---
 zpp_bits.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 4e7e84c..d019f4b 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2404,10 +2404,14 @@ protected:
                     m_position += move_ahead_count;
                 }
             }
-            return basic_out<std::span<byte_type, sizeof(SizeType)>>{
+            using endian_type = std::conditional_t<endian_aware,
+                                                   endian::swapped,
+                                                   endian::native>;
+            return basic_out<std::span<byte_type, sizeof(SizeType)>,
+                             endian_type>{
                 std::span<byte_type, sizeof(SizeType)>{
-                    m_data.data() + size_position, sizeof(SizeType)}}(
-                SizeType(message_size));
+                    m_data.data() + size_position, sizeof(SizeType)},
+                endian_type{}}(SizeType(message_size));
         } else {
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
-- 
2.43.0


From 97ed8fe07c4683ce404e9e13e2b3603fba7dd67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 07/27] fix: report a protocol message which is too large for
 its size type

The size was truncated silently and the output could not be read back.
---
 zpp_bits.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index d019f4b..7fb2628 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2407,6 +2407,12 @@ protected:
             using endian_type = std::conditional_t<endian_aware,
                                                    endian::swapped,
                                                    endian::native>;
+            if constexpr (!concepts::varint<SizeType>) {
+                if (message_size > std::numeric_limits<SizeType>::max())
+                    [[unlikely]] {
+                    return std::errc::message_size;
+                }
+            }
             return basic_out<std::span<byte_type, sizeof(SizeType)>,
                              endian_type>{
                 std::span<byte_type, sizeof(SizeType)>{
-- 
2.43.0


From 724de972a3ebe1359aab0a93fa2b31c82f3956bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 08/27] fix: write protobuf fields as little endian on a big
 endian archive

With a varint size type the archive was used as is, whatever its endian.
---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 7fb2628..51e28a8 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4711,8 +4711,8 @@ struct pb
         using archive_type = typename std::remove_cvref_t<decltype(archive)>;
         if constexpr (!concepts::varint<
                           typename archive_type::default_size_type> ||
-                      ((std::endian::little != std::endian::native) &&
-                       !archive_type::endian_aware)) {
+                      ((std::endian::little == std::endian::native) ==
+                       archive_type::endian_aware)) {
             out out{archive.data(),
                     size_varint{},
                     no_fit_size{},
-- 
2.43.0


From 1b6b11d5505e6b69e279908752dabad51c90ed5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 09/27] fix: reject a protocol message size which exceeds the
 remaining data

---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 51e28a8..1ee8298 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3115,6 +3115,10 @@ private:
                 return result;
             }
 
+            if (size > m_data.size() - m_position) [[unlikely]] {
+                return std::errc::result_out_of_range;
+            }
+
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
                 return protocol(*this, item, size);
-- 
2.43.0


From 4e09235cbf3f8d4d52f9148e8dc7a56153a16bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 10/27] fix: use the explicit field number of a repeated
 protobuf message field

The tag was made from the position of the field instead.
---
 zpp_bits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 1ee8298..e154118 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4931,7 +4931,9 @@ struct pb
             return {};
         } else {
             constexpr auto tag =
-                make_tag<typename type::value_type, Index>();
+                make_tag<pb::template tag_type<typename type::value_type>(),
+                         tag_type,
+                         Index>();
             for (auto & element : item) {
                 if (auto result = archive(tag, element); failure(result))
                     [[unlikely]] {
-- 
2.43.0


From 2efb4300efb2f4f8e0edea17907da019456153f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:41 +0000
Subject: [PATCH 11/27] fix: contain packed protobuf fields within their
 declared length

The length was used before it was checked: memory was reserved for any
length and regardless of the allocation limit, elements were read past the
end of the field, and the leftover of a length which is not a multiple of the
element size was parsed as other fields.
---
 zpp_bits.h | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index e154118..3022403 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5110,6 +5110,16 @@ struct pb
                           std::same_as<std::byte, value_type> ||
                           concepts::varint<value_type>) {
                 auto fetch = [&]() ZPP_BITS_CONSTEXPR_INLINE_LAMBDA {
+                    if constexpr (archive_type::allocation_limit !=
+                                  std::numeric_limits<
+                                      std::size_t>::max()) {
+                        if (item.size() >= archive_type::allocation_limit /
+                                               sizeof(orig_value_type))
+                            [[unlikely]] {
+                            return errc{std::errc::message_size};
+                        }
+                    }
+
                     value_type value;
                     if (auto result = archive(value); failure(result))
                         [[unlikely]] {
@@ -5137,22 +5147,32 @@ struct pb
                     return result;
                 }
 
+                if constexpr (archive_type::allocation_limit !=
+                              std::numeric_limits<std::size_t>::max()) {
+                    if (length > archive_type::allocation_limit)
+                        [[unlikely]] {
+                        return errc{std::errc::message_size};
+                    }
+                }
+                if (length > archive.remaining_data().size())
+                    [[unlikely]] {
+                    return errc{std::errc::result_out_of_range};
+                }
+
                 if constexpr (requires { item.resize(1); } &&
                               (std::is_fundamental_v<value_type> ||
                                std::same_as<value_type, std::byte>)) {
-                    if constexpr (archive_type::allocation_limit !=
-                                  std::numeric_limits<
-                                      std::size_t>::max()) {
-                        if (length > archive_type::allocation_limit)
-                            [[unlikely]] {
-                            return errc{std::errc::message_size};
-                        }
+                    if (length % sizeof(value_type)) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
                     }
                     item.resize(length / sizeof(value_type));
                     return archive(unsized(item));
                 } else {
                     if constexpr (requires { item.reserve(1); }) {
-                        item.reserve(length);
+                        item.reserve(std::min<std::size_t>(
+                            length,
+                            archive_type::allocation_limit /
+                                sizeof(orig_value_type)));
                     }
 
                     auto end_position = length + archive.position();
@@ -5163,6 +5183,9 @@ struct pb
                         }
                     }
 
+                    if (archive.position() != end_position) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
+                    }
                     return errc{};
                 }
             } else {
-- 
2.43.0


From 0ed47ecbc1f2a4747d9c7a63005d9fb71306fd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 12/27] fix: skip the content of unknown and reserved protobuf
 fields

Only the tag was consumed, so the content was parsed as further fields.
---
 zpp_bits.h | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 3022403..95893b5 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5000,6 +5000,38 @@ struct pb
         return {};
     }
 
+    ZPP_BITS_INLINE constexpr static errc skip_field(auto & archive,
+                                                     wire_type field_type)
+    {
+        vsize_t size;
+        switch (field_type) {
+        case wire_type::varint: {
+            vuint64_t value;
+            return archive(value);
+        }
+        case wire_type::fixed_64:
+            size = sizeof(std::uint64_t);
+            break;
+        case wire_type::length_delimited:
+            if (auto result = archive(size); failure(result))
+                [[unlikely]] {
+                return result;
+            }
+            break;
+        case wire_type::fixed_32:
+            size = sizeof(std::uint32_t);
+            break;
+        default:
+            return std::errc::protocol_error;
+        }
+
+        if (size > archive.remaining_data().size()) [[unlikely]] {
+            return std::errc::result_out_of_range;
+        }
+        archive.position() += size;
+        return {};
+    }
+
     template <std::size_t Index = 0>
     ZPP_BITS_INLINE constexpr static auto
     deserialize_field(auto & archive,
@@ -5012,7 +5044,7 @@ struct pb
             if (!field_num) [[unlikely]] {
                 return errc{std::errc::protocol_error};
             }
-            return errc{};
+            return skip_field(archive, field_type);
         } else if (field_number_from_struct<type, Index>() != field_num) {
             return deserialize_field<Index + 1>(
                 archive, item, field_num, field_type);
@@ -5048,7 +5080,9 @@ struct pb
         using archive_type = std::remove_reference_t<decltype(archive)>;
         static_assert(check_type<type>());
 
-        if constexpr (std::is_enum_v<type>) {
+        if constexpr (concepts::empty<type>) {
+            return skip_field(archive, field_type);
+        } else if constexpr (std::is_enum_v<type>) {
             varint<type> value;
             if (auto result = archive(value); failure(result))
                 [[unlikely]] {
-- 
2.43.0


From c36e039423b6a8c7957faa68684e576343d4033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:26 +0000
Subject: [PATCH 13/27] fix: skip a protobuf field whose wire type does not
 match its member

Its content was interpreted as if it had the expected wire type.
---
 zpp_bits.h | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 95893b5..3ed5b91 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5073,6 +5073,32 @@ struct pb
         }
     }
 
+    template <typename Type>
+    constexpr static bool accepts_wire_type(wire_type field_type)
+    {
+        using type = std::remove_cvref_t<Type>;
+        if constexpr (is_pb_field<type>()) {
+            return accepts_wire_type<typename type::pb_field_type>(
+                field_type);
+        } else if constexpr (
+            requires {
+                requires concepts::container<type>;
+                requires concepts::varint<typename type::value_type> ||
+                    std::is_enum_v<typename type::value_type> ||
+                    std::is_fundamental_v<typename type::value_type>;
+                requires !std::same_as<typename type::value_type,
+                                       std::byte>;
+                requires sizeof(typename type::value_type) >= 4 ||
+                    !std::is_fundamental_v<typename type::value_type> ||
+                    std::same_as<typename type::value_type, bool>;
+            }) {
+            return field_type == wire_type::length_delimited ||
+                   field_type == tag_type<typename type::value_type>();
+        } else {
+            return field_type == tag_type<type>();
+        }
+    }
+
     ZPP_BITS_INLINE constexpr static auto deserialize_field(
         auto & archive, wire_type field_type, auto & item)
     {
@@ -5082,6 +5108,8 @@ struct pb
 
         if constexpr (concepts::empty<type>) {
             return skip_field(archive, field_type);
+        } else if (!accepts_wire_type<type>(field_type)) [[unlikely]] {
+            return skip_field(archive, field_type);
         } else if constexpr (std::is_enum_v<type>) {
             varint<type> value;
             if (auto result = archive(value); failure(result))
-- 
2.43.0


From 80c9abc2de743a9b8a6589ab39c809ad0d5d6115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 14/27] fix: let the last protobuf map entry of a key win

---
 zpp_bits.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 3ed5b91..f79d095 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5158,7 +5158,17 @@ struct pb
                 return result;
             }
 
-            item.emplace(std::move(object->key), std::move(object->value));
+            if constexpr (requires {
+                              item.insert_or_assign(
+                                  std::move(object->key),
+                                  std::move(object->value));
+                          }) {
+                item.insert_or_assign(std::move(object->key),
+                                      std::move(object->value));
+            } else {
+                item.emplace(std::move(object->key),
+                             std::move(object->value));
+            }
             return errc{};
         } else {
             using orig_value_type = typename type::value_type;
-- 
2.43.0


From a4aca6c35dd442278fe370066e448c222b42165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 15/27] fix: concatenate the records of a packed repeated
 protobuf field

A later record of a fixed width field replaced the elements of the earlier
ones.
---
 zpp_bits.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index f79d095..ed8d069 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5232,13 +5232,33 @@ struct pb
                 }
 
                 if constexpr (requires { item.resize(1); } &&
+                              sizeof(value_type) == 1 &&
                               (std::is_fundamental_v<value_type> ||
                                std::same_as<value_type, std::byte>)) {
+                    item.resize(length);
+                    return archive(unsized(item));
+                } else if constexpr (
+                    requires {
+                        item.resize(1);
+                        item.data();
+                    } && std::is_fundamental_v<value_type>) {
                     if (length % sizeof(value_type)) [[unlikely]] {
                         return errc{std::errc::protocol_error};
                     }
-                    item.resize(length / sizeof(value_type));
-                    return archive(unsized(item));
+                    auto count = length / sizeof(value_type);
+                    auto size = item.size();
+                    if constexpr (archive_type::allocation_limit !=
+                                  std::numeric_limits<
+                                      std::size_t>::max()) {
+                        if (size + count > archive_type::allocation_limit /
+                                               sizeof(value_type))
+                            [[unlikely]] {
+                            return errc{std::errc::message_size};
+                        }
+                    }
+                    item.resize(size + count);
+                    auto elements = std::span{item.data() + size, count};
+                    return archive(unsized(elements));
                 } else {
                     if constexpr (requires { item.reserve(1); }) {
                         item.reserve(std::min<std::size_t>(
-- 
2.43.0


From 0d634469e4a42aec857eb007925378b62cdf9487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 16/27] fix: read protobuf integers, enums and booleans from
 any valid varint

Negative values are encoded in ten bytes by other implementations, and a
boolean is a varint rather than a single byte.
---
 zpp_bits.h | 46 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index ed8d069..f624354 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5099,6 +5099,29 @@ struct pb
         }
     }
 
+    ZPP_BITS_INLINE constexpr static errc deserialize_varint(auto & archive,
+                                                             auto & item)
+    {
+        using type = std::remove_cvref_t<decltype(item)>;
+        vuint64_t wide;
+        if (auto result = archive(wide); failure(result)) [[unlikely]] {
+            return result;
+        }
+
+        if constexpr (concepts::varint<type>) {
+            using value_type = typename type::value_type;
+            auto value = std::make_unsigned_t<value_type>(wide.value);
+            if constexpr (varint_encoding::zig_zag == type::encoding) {
+                item.value = value_type((value >> 1) ^ -(value & 0x1));
+            } else {
+                item.value = value_type(value);
+            }
+        } else {
+            item = type(wide.value);
+        }
+        return {};
+    }
+
     ZPP_BITS_INLINE constexpr static auto deserialize_field(
         auto & archive, wire_type field_type, auto & item)
     {
@@ -5110,14 +5133,10 @@ struct pb
             return skip_field(archive, field_type);
         } else if (!accepts_wire_type<type>(field_type)) [[unlikely]] {
             return skip_field(archive, field_type);
-        } else if constexpr (std::is_enum_v<type>) {
-            varint<type> value;
-            if (auto result = archive(value); failure(result))
-                [[unlikely]] {
-                return result;
-            }
-            item = value;
-            return errc{};
+        } else if constexpr (std::is_enum_v<type> ||
+                             std::same_as<type, bool> ||
+                             concepts::varint<type>) {
+            return deserialize_varint(archive, item);
         } else if constexpr (is_pb_field<type>()) {
             return deserialize_field(
                 archive,
@@ -5193,8 +5212,14 @@ struct pb
                     }
 
                     value_type value;
-                    if (auto result = archive(value); failure(result))
-                        [[unlikely]] {
+                    if constexpr (concepts::varint<value_type> ||
+                                  std::same_as<value_type, bool>) {
+                        if (auto result = deserialize_varint(archive, value);
+                            failure(result)) [[unlikely]] {
+                            return result;
+                        }
+                    } else if (auto result = archive(value);
+                               failure(result)) [[unlikely]] {
                         return result;
                     }
 
@@ -5233,6 +5258,7 @@ struct pb
 
                 if constexpr (requires { item.resize(1); } &&
                               sizeof(value_type) == 1 &&
+                              !std::same_as<value_type, bool> &&
                               (std::is_fundamental_v<value_type> ||
                                std::same_as<value_type, std::byte>)) {
                     item.resize(length);
-- 
2.43.0


From f4588ce10adc4ca4fd8aec9133303689e09dbe3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 17/27] fix: write only as many items as the size prefix tells

A container with more items than its size type can express had its size
truncated, and yet all of the items were written.
---
 zpp_bits.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index f624354..13926f1 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2209,14 +2209,16 @@ protected:
                                    requires concepts::
                                        has_fixed_nonzero_size<type>;
                                }))) {
-                if (auto result =
-                        serialize_one(static_cast<SizeType>(size));
-                    failure(result)) [[unlikely]] {
+                auto prefix = static_cast<SizeType>(size);
+                if (auto result = serialize_one(prefix); failure(result))
+                    [[unlikely]] {
                     return result;
                 }
+                size = prefix;
             }
             return serialize_one(bytes(container, size));
         } else {
+            std::size_t size = container.size();
             if constexpr (!std::is_void_v<SizeType> &&
                           (concepts::associative_container<
                                decltype(container)> ||
@@ -2233,13 +2235,17 @@ protected:
                                    requires concepts::
                                        has_fixed_nonzero_size<type>;
                                }))) {
-                if (auto result = serialize_one(
-                        static_cast<SizeType>(container.size()));
-                    failure(result)) [[unlikely]] {
+                auto prefix = static_cast<SizeType>(size);
+                if (auto result = serialize_one(prefix); failure(result))
+                    [[unlikely]] {
                     return result;
                 }
+                size = prefix;
             }
             for (auto & item : container) {
+                if (!size--) [[unlikely]] {
+                    break;
+                }
                 if (auto result = serialize_one(item); failure(result))
                     [[unlikely]] {
                     return result;
-- 
2.43.0


From 73701475e425c814c8342ed618519fba92655e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 18/27] fix: pad hashed messages which leave no room for their
 length in the last block

Hashing a message whose size modulo 64 is above 55 failed to compile.
---
 zpp_bits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 13926f1..328cff5 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5505,7 +5505,8 @@ constexpr auto sha1()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
@@ -5630,7 +5631,8 @@ constexpr auto sha256()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
-- 
2.43.0


From 7b383fc946439a26ee5c86eb97f4dd68ee87777c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 19/27] fix: check the length of repeated pb strings before
 allocating

---
 zpp_bits.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 328cff5..380442a 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5318,8 +5318,21 @@ struct pb
                 auto object = access::placement_new<value_type>(
                     std::addressof(storage));
                 destructor_guard guard{*object};
-                if (auto result = archive(*object); failure(result))
-                    [[unlikely]] {
+                auto fetch = [&]() ZPP_BITS_CONSTEXPR_INLINE_LAMBDA {
+                    if constexpr (requires {
+                                      requires concepts::container<
+                                          value_type>;
+                                      requires sizeof(
+                                          typename value_type::value_type) ==
+                                          1;
+                                  }) {
+                        return deserialize_field(
+                            archive, field_type, *object);
+                    } else {
+                        return archive(*object);
+                    }
+                };
+                if (auto result = fetch(); failure(result)) [[unlikely]] {
                     return result;
                 }
 
-- 
2.43.0


From 32ec09f1a1a532f3df14d7c16fc4ffdeb4e6b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 20/27] fix: give a default constructed result a live value

A default constructed value_or_errc reported success while its error was
the live member of the union, so the destructor destroyed a value which
was never constructed.
---
 zpp_bits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 380442a..05903a4 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3500,7 +3500,9 @@ struct [[nodiscard]] value_or_errc
             std::add_pointer_t<std::remove_reference_t<Type>>,
             Type>>;
 
-    constexpr value_or_errc() = default;
+    constexpr value_or_errc() : m_return_value{}
+    {
+    }
 
     constexpr explicit value_or_errc(auto && value) :
         m_return_value(std::forward<decltype(value)>(value))
-- 
2.43.0


From 10672c47fa6bc692d8cb593d83601fbc1391c2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 21/27] fix: do not copy the bytes of sequences of empty
 objects

An empty class has no members, so there is nothing to write for it, but
sequences of them were written by copying their (indeterminate) padding
byte when the byte order is native.
---
 zpp_bits.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 05903a4..a7e6d70 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1300,6 +1300,8 @@ constexpr auto access::byte_serializable()
 
     if constexpr (members_count < 0) {
         return false;
+    } else if constexpr (concepts::empty<type>) {
+        return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
     } else if constexpr (has_explicit_serialize<type,
-- 
2.43.0


From c53b013b3668d5c8eee1c8bcee606aae20c23e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 22/27] fix: encode objects with a protocol by it inside of
 sequences and classes

Fixed size objects of a class with a protocol were copied as bytes when
they were elements of a sequence or members of a fixed size class.
---
 zpp_bits.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index a7e6d70..9f98b8d 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1302,6 +1302,8 @@ constexpr auto access::byte_serializable()
         return false;
     } else if constexpr (concepts::empty<type>) {
         return false;
+    } else if constexpr (concepts::by_protocol<type>) {
+        return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
     } else if constexpr (has_explicit_serialize<type,
-- 
2.43.0


From 129bb5cd5c17cc9bd1538eebc1526aa383e0707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 23/27] fix: allow sequences of byte arrays on archives with a
 foreign byte order

A vector of std::array<unsigned char, N> takes the path which copies
bytes in any byte order, which then insisted on elements of a single
byte.
---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 9f98b8d..724ee66 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2095,7 +2095,7 @@ protected:
                              }) {
             static_assert(
                 !endian_aware ||
-                concepts::byte_type<
+                concepts::endian_independent_byte_serializable<
                     std::remove_cvref_t<decltype(*item.data())>>);
 
             auto item_size_in_bytes = item.size_in_bytes();
@@ -2667,7 +2667,7 @@ private:
                              }) {
             static_assert(
                 !endian_aware ||
-                concepts::byte_type<
+                concepts::endian_independent_byte_serializable<
                     std::remove_cvref_t<decltype(*item.data())>>);
 
             auto size = m_data.size();
-- 
2.43.0


From fbdfd8373343dd8ef1611ed05ac0af8dc6aef5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:38 +0000
Subject: [PATCH 24/27] fix: read arrays of arrays of numbers

The bytes of such an array could be written, but reading them did not
compile because an array cannot be assigned.
---
 zpp_bits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 724ee66..7ec0fbb 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2730,7 +2730,8 @@ private:
         using value_type = std::remove_cvref_t<decltype(array[0])>;
 
         if constexpr (concepts::serialize_as_bytes<decltype(*this),
-                                                   value_type>) {
+                                                   value_type> &&
+                      !std::is_array_v<value_type>) {
             return serialize_one(bytes(array));
         } else {
             for (auto & item : array) {
-- 
2.43.0


From 8c6fe01fb6170864bc9bb7001627775f56a128e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:40 +0000
Subject: [PATCH 25/27] fix: from_bytes of a string literal leaves its end
 uninitialized

---
 zpp_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 7ec0fbb..4219109 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3294,7 +3294,7 @@ constexpr auto to_bytes()
 template <auto Data, typename Type>
 constexpr auto from_bytes()
 {
-    Type object;
+    Type object{};
     in{Data}(object).or_throw();
     return object;
 }
-- 
2.43.0


From 91a3dd2f29537d1909ece0fe6b2039a940ff08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 26/27] fix: await bound coroutines which take parameters and
 return nothing, so that their errors are not lost

---
 zpp_bits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 4219109..22af264 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4211,9 +4211,11 @@ struct rpc_impl
                     } else if constexpr (requires {
                                              result.value().await_ready();
                                          }) {
-                        if constexpr (!std::is_void_v<
+                        if constexpr (std::is_void_v<
                                           decltype(result.value()
                                                        .await_resume())>) {
+                            co_await result.value();
+                        } else {
                             co_await out(co_await result.value());
                         }
                         co_return;
-- 
2.43.0


From adb5cfc1dc540cc10055e2e8ab2872818823113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:29 +0000
Subject: [PATCH 27/27] fix: keep containers and optionals which users define
 as aggregates from being copied as bytes

---
 zpp_bits.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 22af264..fe494ce 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1306,6 +1306,10 @@ constexpr auto access::byte_serializable()
         return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
+    } else if constexpr ((concepts::container<type> &&
+                          !concepts::array<type>) ||
+                         concepts::optional<type>) {
+        return false;
     } else if constexpr (has_explicit_serialize<type,
                                                 traits::visitor<type>>()) {
         return false;
@@ -1368,6 +1372,10 @@ constexpr auto access::endian_independent_byte_serializable()
         return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
+    } else if constexpr ((concepts::container<type> &&
+                          !concepts::array<type>) ||
+                         concepts::optional<type>) {
+        return false;
     } else if constexpr (has_explicit_serialize<type,
                                                 traits::visitor<type>>()) {
         return false;
-- 
2.43.0

