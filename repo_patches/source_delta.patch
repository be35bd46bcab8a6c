From b7c78fd042bf5786d75122d5592d81a3aa7e08da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:01 +0000
Subject: [PATCH 01/70] fix: serialize every oneof of a message

The generated serializers returned from inside the switch of the first set
oneof, so later oneofs were silently dropped from protobuf output; the JSON
serializer of a message with two oneofs did not even compile (duplicate local
variable).
---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 7 +++----
 src/spb-proto-compiler/dumper/pb/dumper.cpp   | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 270faf9..28d9f45 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -209,14 +209,13 @@ void dump_field_attributes(std::ostream &stream, const proto_file &file, const p
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_oneof &oneof)
 {
-    stream << "\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
-    stream << "\tswitch(index)\n\t{\n";
+    stream << "\tswitch(value." << oneof.name.get_name() << ".index())\n\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize<";
+        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
-               << json_field_name(oneof.fields[i]) << "\"sv);\n";
+               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\tbreak;\n";
     }
     stream << "\t}\n";
 }
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index a4814aa..38b65a7 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,10 +212,10 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
-               << oneof.name.get_name() << "));\n";
+               << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
     }
     stream << "\t\t}\n\t}\n\n";
 }
-- 
2.43.0


From aef3a1ae6185f67a13d67fb03511a2c7df1b634a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:42 +0000
Subject: [PATCH 02/70] fix: keep every byte of a value read in several chunks

istream_reader::read_exact_or_throw stored each chunk returned by a short read
at the start of the destination, so strings, bytes and fixed-size values read
through a reader that returns less than requested were corrupted.
---
 include/spb/pb/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index d6e2525..6c03919 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -81,12 +81,14 @@ struct istream_reader
 
     void read_exact_or_throw(void *data, size_t data_size)
     {
+        auto *p_data = static_cast<uint8_t *>(data);
         while (data_size > 0)
         {
-            auto chunk_size = read(data, data_size);
+            auto chunk_size = read(p_data, data_size);
             if (chunk_size == 0) [[unlikely]]
                 throw std::runtime_error("unexpected end of stream");
 
+            p_data += chunk_size;
             data_size -= chunk_size;
         }
     }
-- 
2.43.0


From 63e7e6a3549baf3897dbf9691fea55154b14fc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:42 +0000
Subject: [PATCH 03/70] fix: undefined behaviour in utf8 validation and empty
 reads

is_valid read a size_t through a misaligned pointer and formed a pointer before
the start of strings shorter than 8 bytes; empty values were copied with memcpy
from or to a null pointer.
---
 include/spb/pb/deserialize.hpp | 3 +++
 include/spb/utf8.h             | 9 +++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 6c03919..1aca9c3 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -139,6 +139,9 @@ struct istream_buffer
     [[nodiscard]] size_t read(void *data, size_t data_size) noexcept
     {
         data_size = std::min(data_size, size());
+        if (data_size == 0) [[unlikely]]
+            return 0;
+
         memcpy(data, p_start, data_size);
         p_start += data_size;
         return data_size;
diff --git a/include/spb/utf8.h b/include/spb/utf8.h
index 88c2460..681132e 100644
--- a/include/spb/utf8.h
+++ b/include/spb/utf8.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <string_view>
 
@@ -108,18 +109,18 @@ inline bool is_valid(std::string_view str)
     constexpr size_t mask = (size_t)0x8080808080808080ULL;
 
     const auto *start = str.data();
-    const auto *end   = str.data() + str.size() - sizeof(size_t);
+    const auto *end   = str.data() + str.size();
 
-    while (start <= end)
+    while (size_t(end - start) >= sizeof(size_t))
     {
-        const size_t value = *(size_t *)start;
+        size_t value;
+        memcpy(&value, start, sizeof(value));
         if ((value & mask) == 0) [[likely]]
             start += sizeof(value);
         else
             break;
     }
 
-    end            = str.data() + str.size();
     uint32_t state = ok;
     for (uint32_t codepoint; start < end; ++start)
     {
-- 
2.43.0


From 26551605e41fe69b95b7d2271ae6f0dd52d26b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:56 +0000
Subject: [PATCH 04/70] fix: bitfields of 63 and 64 bits

The limits of a bitfield were computed with signed shifts that overflow for 63
and 64 bits: undefined behaviour, and an uint64:63 limit of -2 rejected or
accepted the wrong values.
---
 include/spb/bits.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/spb/bits.h b/include/spb/bits.h
index 60bdc48..88d086a 100644
--- a/include/spb/bits.h
+++ b/include/spb/bits.h
@@ -27,8 +27,8 @@ static inline void check_if_value_fit_in_bits(signed_int auto value, uint32_t bi
     assert(sizeof(value) * CHAR_BIT >= bits);
     assert(bits > 0);
 
-    decltype(value) max = (1LL << (bits - 1)) - 1;
-    decltype(value) min = -(1LL << (bits - 1));
+    const auto max = int64_t((1ULL << (bits - 1)) - 1);
+    const auto min = -max - 1;
 
     if ((value < min) | (value > max)) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
@@ -38,7 +38,7 @@ static inline void check_if_value_fit_in_bits(unsigned_int auto value, uint32_t
 {
     assert(sizeof(value) * CHAR_BIT >= bits);
 
-    decltype(value) max = (1LL << bits) - 1;
+    const auto max = bits < 64 ? (1ULL << bits) - 1 : UINT64_MAX;
 
     if (value > max) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
-- 
2.43.0


From 3ca8ce11a2d67ebca86cb6aa8c7ab4d1040f25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:26 +0000
Subject: [PATCH 05/70] fix: accept packed and unpacked encoding of repeated
 scalars

A packed field received unpacked swallowed the rest of the message as elements
(silently corrupting it), an unpacked field received packed was rejected, and
the wire type of repeated bool was not checked at all. Parsers have to accept
both encodings.
---
 include/spb/pb/deserialize.hpp | 29 ++++++++++++++++-------------
 include/spb/pb/wire-types.h    |  6 ++++++
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 1aca9c3..18acc33 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -602,23 +602,26 @@ void deserialize(auto &stream, Container &value, wire_type type)
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
 void deserialize(auto &stream, Container &value, wire_type type)
 {
-    if constexpr (is_packed(mode.encoder))
+    if constexpr (mode.encoder != scalar_encoder::none)
     {
-        deserialize_packed<mode>(stream, value);
+        //- scalars: parsers have to accept both encodings, packed and unpacked
+        //- https://protobuf.dev/programming-guides/encoding/#packed
+        if (type == wire_type::length_delimited)
+            return deserialize_packed<make_packed(mode)>(stream, value);
+
+        check_wire_type_or_throw(type, to_wire_type(mode.encoder));
+    }
+
+    if constexpr (mode.max_count)
+        check_size(value.size() + 1, mode.max_count);
+
+    if constexpr (std::is_same_v<typename Container::value_type, bool>)
+    {
+        value.emplace_back(read_varint<bool>(stream));
     }
     else
     {
-        if constexpr (mode.max_count)
-            check_size(value.size() + 1, mode.max_count);
-
-        if constexpr (std::is_same_v<typename Container::value_type, bool>)
-        {
-            value.emplace_back(read_varint<bool>(stream));
-        }
-        else
-        {
-            deserialize<mode>(stream, value.emplace_back(), type);
-        }
+        deserialize<reset_packed(mode)>(stream, value.emplace_back(), type);
     }
 }
 
diff --git a/include/spb/pb/wire-types.h b/include/spb/pb/wire-types.h
index 5327182..204f5ab 100644
--- a/include/spb/pb/wire-types.h
+++ b/include/spb/pb/wire-types.h
@@ -71,6 +71,12 @@ constexpr auto is_packed(scalar_encoder a) noexcept -> bool
     return (a & scalar_encoder::packed) == scalar_encoder::packed;
 }
 
+constexpr auto make_packed(serialize_mode a) noexcept -> serialize_mode
+{
+    a.encoder = make_packed(a.encoder);
+    return a;
+}
+
 constexpr auto reset_packed(serialize_mode a) noexcept -> serialize_mode
 {
     a.encoder = scalar_encoder(a.encoder & ~scalar_encoder::packed);
-- 
2.43.0


From 30a98a102b30200dc96208a668bed1fc68520459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 06/70] fix: map entries follow the protobuf map rules

A missing key or value means the default value, unknown fields of an entry are
skipped and the last entry of a duplicated key wins. Entries written by this
library for an empty string key or an empty value could not be read back.
---
 include/spb/pb/deserialize.hpp | 36 ++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 18acc33..94fa8ed 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -637,17 +637,17 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 
     check_wire_type_or_throw(type, wire_type::length_delimited);
 
-    auto pair          = std::pair<key_type, mapped_type>();
-    auto key_defined   = false;
-    auto value_defined = false;
+    //- missing key or value has the default value
+    auto pair = std::pair<key_type, mapped_type>();
     while (!stream.empty())
     {
-        const auto tag          = tag_type(read_varint<uint32_t>(stream));
+        const auto tag = read_tag_or_eof(stream);
+        if (tag == tag_type::invalid)
+            break;
+
         const auto field_number = field_from_tag(tag);
         const auto field_type   = wire_type_from_tag(tag);
 
-        check_tag_or_throw(tag);
-
         switch (field_number)
         {
         case 1:
@@ -669,7 +669,6 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     deserialize<key_encoder>(stream, pair.first, field_type);
                 }
             }
-            key_defined = true;
             break;
         case 2:
             if constexpr (spb::detail::proto_field_number<mapped_type>)
@@ -690,20 +689,23 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
                     throw std::runtime_error("invalid field");
                 }
             }
-            value_defined = true;
             break;
         default:
-            throw std::runtime_error("invalid field");
+            if (field_type == wire_type::length_delimited)
+            {
+                const auto size = read_varint<uint32_t>(stream);
+                auto substream  = stream.sub_stream(size);
+                skip(substream, field_type);
+            }
+            else
+            {
+                skip(stream, field_type);
+            }
+            break;
         }
     }
-    if (key_defined && value_defined) [[likely]]
-    {
-        value.insert(std::move(pair));
-    }
-    else [[unlikely]]
-    {
-        throw std::runtime_error("invalid map item");
-    }
+    //- the last one of duplicated keys wins
+    value[std::move(pair.first)] = std::move(pair.second);
 }
 
 template <serialize_mode mode, size_t ordinal, typename T>
-- 
2.43.0


From bfc3dab1f3af833476d8bfe3f44c1b03f5682865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 07/70] fix: keep present fields whose value is empty

Empty elements of repeated string, bytes and message fields, set optional
strings, bytes and messages and the selected oneof case were left out of the
protobuf output when the value was empty: elements and presence were lost.
---
 include/spb/pb/serialize.hpp                | 56 ++++++++++++++++-----
 src/spb-proto-compiler/dumper/pb/dumper.cpp |  2 +-
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index aaf2297..3b78e5e 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -245,14 +245,15 @@ void serialize(auto &stream, const spb::detail::proto_label_repeated auto &conta
     serialize_packed<mode>(stream, container);
 }
 
+/**
+ * @brief serialize a field that is present, even when its value is empty:
+ *        elements of repeated fields, set optional and oneof fields
+ */
 template <serialize_mode mode>
-void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_string auto &value)
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_string auto &value)
 {
     using stream_type = std::remove_cvref_t<decltype(stream)>;
 
-    if (value.empty())
-        return;
-
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
 
@@ -261,23 +262,52 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_stri
 
     serialize_tag(stream, field, wire_type::length_delimited);
     serialize_varint(stream, value.size());
-    stream.write(value.data(), value.size());
+    if (value.size() != 0)
+        stream.write(value.data(), value.size());
 }
 
 template <serialize_mode mode>
-void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_bytes auto &value)
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_bytes auto &value)
 {
     using stream_type = std::remove_cvref_t<decltype(stream)>;
 
-    if (value.empty())
-        return;
-
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
 
     serialize_tag(stream, field, wire_type::length_delimited);
     serialize_varint(stream, value.size());
-    stream.write(value.data(), value.size());
+    if (value.size() != 0)
+        stream.write(value.data(), value.size());
+}
+
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_message auto &value)
+{
+    const auto size = serialize_size<mode>(value);
+
+    serialize_tag(stream, field, wire_type::length_delimited);
+    serialize_varint(stream, size);
+    serialize_value(stream, value);
+}
+
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_number auto &value)
+{
+    serialize<mode>(stream, field, value);
+}
+
+template <serialize_mode mode>
+void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_string auto &value)
+{
+    if (!value.empty())
+        serialize_present<mode>(stream, field, value);
+}
+
+template <serialize_mode mode>
+void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_bytes auto &value)
+{
+    if (!value.empty())
+        serialize_present<mode>(stream, field, value);
 }
 
 template <serialize_mode mode>
@@ -325,7 +355,7 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_repe
             if constexpr (std::is_same_v<value_type, bool>)
                 serialize<mode>(stream, field, bool(value));
             else
-                serialize<mode>(stream, field, value);
+                serialize_present<mode>(stream, field, value);
         }
     }
 }
@@ -346,14 +376,14 @@ template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_optional auto &p_value)
 {
     if (p_value.has_value())
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode, typename T>
 void serialize(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
 {
     if (p_value)
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode>
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 38b65a7..0625f43 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,7 +212,7 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize_present<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
                << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
-- 
2.43.0


From 4d483446e787c53e5e467c446656647acb0866b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 08/70] fix: merge repeated occurrences of a message field

When the same optional, oneof or recursive message field occurs more than once
in the input, the occurrences have to be merged; all but the last one were
dropped.
---
 include/spb/pb/deserialize.hpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 94fa8ed..8ac7ddd 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -24,6 +24,7 @@
 #include <stdexcept>
 #include <string_view>
 #include <type_traits>
+#include <variant>
 
 namespace spb::pb::detail
 {
@@ -495,6 +496,13 @@ void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value
 template <serialize_mode mode, spb::detail::proto_label_optional Container>
 void deserialize(auto &stream, Container &p_value, wire_type type)
 {
+    if constexpr (spb::detail::proto_message<typename Container::value_type>)
+    {
+        //- messages are merged
+        if (p_value.has_value())
+            return deserialize<mode>(stream, *p_value, type);
+    }
+
     auto &value = p_value.emplace(typename Container::value_type());
     deserialize<mode>(stream, value, type);
 }
@@ -522,7 +530,10 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 template <serialize_mode mode, typename T>
 void deserialize(auto &stream, std::unique_ptr<T> &value, wire_type type)
 {
-    value = std::make_unique<T>();
+    //- messages are merged
+    if (!value)
+        value = std::make_unique<T>();
+
     deserialize<mode>(stream, *value, type);
 }
 
@@ -711,6 +722,14 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
 template <serialize_mode mode, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant, wire_type type)
 {
+    using value_type = std::variant_alternative_t<ordinal, T>;
+    if constexpr (spb::detail::proto_message<value_type>)
+    {
+        //- messages are merged
+        if (variant.index() == ordinal)
+            return deserialize<mode>(stream, std::get<ordinal>(variant), type);
+    }
+
     deserialize<mode>(stream, variant.template emplace<ordinal>(), type);
 }
 
-- 
2.43.0


From 35c684d547aa7f2498dc5f85ef86a79ad38b8181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 09/70] fix: reject a truncated delimited message read through
 a reader

A stream that ended between two fields, before the announced length, was
accepted as a complete message.
---
 include/spb/pb.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/pb.hpp b/include/spb/pb.hpp
index 2aecf5c..3a48ca7 100644
--- a/include/spb/pb.hpp
+++ b/include/spb/pb.hpp
@@ -135,6 +135,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size, const deseria
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        detail::check_if_empty_or_throw(substream);
     }
     else
     {
@@ -159,6 +160,7 @@ size_t deserialize(auto &message, spb::io::reader reader, const deserialize_opti
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        detail::check_if_empty_or_throw(substream);
     }
     else
     {
-- 
2.43.0


From 1dc25f58dcd2c6d04ffeef775a08a7491c8854ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 10/70] fix: reject varints that do not fit into narrow
 integers

---
 include/spb/pb/deserialize.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 8ac7ddd..21ab32f 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -274,6 +274,16 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
             value |= uint64_t(byte & 0x7F) << shift;
             if ((byte & 0x80) == 0)
             {
+                if constexpr (std::is_signed_v<T> && sizeof(T) < sizeof(int32_t))
+                {
+                    //- narrow types (int8, int16) must not be silently truncated
+                    const auto wide = value <= UINT32_MAX ? int64_t(int32_t(value)) : int64_t(value);
+                    if (wide < std::numeric_limits<T>::min() || wide > std::numeric_limits<T>::max())
+                        [[unlikely]]
+                        break;
+
+                    return T(wide);
+                }
                 if constexpr (std::is_signed_v<T> && sizeof(T) < sizeof(value))
                 {
                     //- GPB encodes signed varints always as 64-bits
-- 
2.43.0


From 81f124be6d96b708f8e463da13f1f41a76c78d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 11/70] fix: consume JSON tokens (true, false, null) read from
 a reader

---
 include/spb/json/deserialize.hpp | 44 +++++++++++---------------------
 1 file changed, 15 insertions(+), 29 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 01879a1..9453c07 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -147,23 +147,16 @@ struct istream_buffer
         if (memcmp(token.data(), p_start, token.size()) != 0)
             return false;
 
-        if (size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = p_start[token.size()];
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
+        if (size() > token.size()) [[likely]]
         {
-            skip(token.size());
-            return true;
+            const auto char_behind_token = p_start[token.size()];
+            if (isalnum(char_behind_token) || char_behind_token == '_')
+                return false;
         }
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
     [[nodiscard]] int current_char() const
     {
@@ -252,23 +245,16 @@ struct istream_reader
         if (!token_view.starts_with(token))
             return false;
 
-        if (token_view.size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = token_view.back();
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
+        if (token_view.size() > token.size()) [[likely]]
         {
-            skip(token.size());
-            return true;
+            const auto char_behind_token = uint8_t(token_view[token.size()]);
+            if (isalnum(char_behind_token) || char_behind_token == '_')
+                return false;
         }
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
 
     void skip_white_spaces()
@@ -280,7 +266,7 @@ struct istream_reader
                 return;
 
             size_t spaces = 0;
-            for (auto c : view)
+            for (uint8_t c : view)
             {
                 if (!isspace(c))
                 {
-- 
2.43.0


From 3734779ea84e66d38842b2f128c83144993d90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 12/70] fix: do not terminate when a reader throws while JSON
 is parsed

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 9453c07..9105c2a 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -291,7 +291,7 @@ struct istream_reader
         return result;
     }
 
-    void consume_current_char(bool skip_white_space) noexcept
+    void consume_current_char(bool skip_white_space)
     {
         consume_bytes(1);
         if (skip_white_space)
-- 
2.43.0


From d8b102c1abfbc5c69ae2f5822180c4005145c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 13/70] fix: skip white spaces around every JSON token

---
 include/spb/json.hpp             | 2 ++
 include/spb/json/base64.h        | 1 +
 include/spb/json/deserialize.hpp | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/include/spb/json.hpp b/include/spb/json.hpp
index 6fcada2..c77cb90 100644
--- a/include/spb/json.hpp
+++ b/include/spb/json.hpp
@@ -94,6 +94,7 @@ template <spb::resizable_container Container = std::string>
 size_t deserialize(auto &message, const void *buffer, size_t size)
 {
     detail::istream_buffer stream((const uint8_t *)buffer, size);
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return size - stream.size();
 }
@@ -109,6 +110,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size)
 size_t deserialize(auto &message, spb::io::reader reader)
 {
     detail::istream_reader stream{reader};
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return stream.consumed_size();
 }
diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 92a692e..a768cca 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -198,6 +198,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
             {
                 *p_out++ = std::byte((v0 << 2) | (v1 >> 4));
             }
+            stream.skip_white_spaces();
             return;
         }
     }
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 9105c2a..105457c 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -515,6 +515,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
+            stream.skip_white_spaces();
             return;
         }
         char utf8_buffer[4];
@@ -544,6 +545,7 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
         throw std::runtime_error("invalid number");
 
     stream.skip(result.ptr - view.data());
+    stream.skip_white_spaces();
 }
 
 template <field_attributes> void deserialize(auto &stream, bool &value)
-- 
2.43.0


From 28742227ee307e254da3aeffbb0f33ff42c9af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 14/70] fix: reject invalid UTF-8 in JSON strings

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 105457c..9d0a95a 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -515,6 +515,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
+            spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
             stream.skip_white_spaces();
             return;
         }
@@ -522,7 +523,6 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
         auto utf8_size = unescape(stream, utf8_buffer);
         append_to_value(utf8_buffer, utf8_size);
     }
-    spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
 }
 
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value)
-- 
2.43.0


From 3809e1df9950f956f4f814a6e7a8bdefa89765b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 15/70] fix: decode escape sequences in JSON keys, enums and
 quoted numbers

---
 include/spb/json/deserialize.hpp | 81 ++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 9d0a95a..64e71c1 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -352,41 +352,6 @@ void ignore_string(auto &stream)
     ignore_string_until_double_quota(stream);
 }
 
-auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size, char *buffer)
-    -> std::string_view
-{
-    assert(max_size < io::buffered_reader::BUFFER_SIZE);
-
-    if (!stream.consume('"')) [[unlikely]]
-        throw std::runtime_error(R"(expecting '"')");
-
-    // +1 for "
-    auto view    = stream.view(1, max_size + 1);
-    size_t start = 0;
-    for (;;)
-    {
-        const auto pos = view.find_first_of(R"(\")", start);
-        if (pos == view.npos) [[unlikely]]
-        {
-            stream.skip(view.size());
-            break;
-        }
-
-        if (view[pos] == '"') [[likely]]
-        {
-            memcpy(buffer, view.data(), pos);
-            // +1 for '""
-            stream.skip(pos + 1);
-            stream.skip_white_spaces();
-            return (pos >= min_size) ? std::string_view{buffer, pos} : std::string_view{};
-        }
-
-        // +2 for \ and char behind
-        start = pos + 2;
-    }
-    ignore_string_until_double_quota(stream);
-    return {};
-}
 
 auto unicode_from_hex(auto &stream) -> uint16_t
 {
@@ -460,6 +425,52 @@ auto unescape(auto &stream, char utf8[4]) -> uint32_t
     }
 }
 
+auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size, char *buffer)
+    -> std::string_view
+{
+    if (!stream.consume('"')) [[unlikely]]
+        throw std::runtime_error(R"(expecting '"')");
+
+    auto result_size      = size_t(0);
+    auto fits             = true;
+    auto append_to_buffer = [&](const char *str, size_t size)
+    {
+        fits = fits && size <= max_size - result_size;
+        if (fits) [[likely]]
+        {
+            memcpy(buffer + result_size, str, size);
+            result_size += size;
+        }
+    };
+
+    for (;;)
+    {
+        const auto view = stream.view(1, UINT32_MAX);
+        const auto pos  = view.find_first_of(R"(\")");
+        if (pos == view.npos) [[unlikely]]
+        {
+            append_to_buffer(view.data(), view.size());
+            stream.skip(view.size());
+            continue;
+        }
+
+        const auto is_end = view[pos] == '"';
+        append_to_buffer(view.data(), pos);
+        // +1 for '"' or '\'
+        stream.skip(pos + 1);
+        if (is_end) [[likely]]
+        {
+            stream.skip_white_spaces();
+            return (fits && result_size >= min_size) ? std::string_view{buffer, result_size}
+                                                     : std::string_view{};
+        }
+
+        char utf8_buffer[4];
+        const auto utf8_size = unescape(stream, utf8_buffer);
+        append_to_buffer(utf8_buffer, utf8_size);
+    }
+}
+
 template <field_attributes attributes>
 void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
 {
-- 
2.43.0


From 0d8f10ff381cccb05e5e69c60243108860f18e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 16/70] fix: exactly one comma between elements of JSON arrays

---
 include/spb/json/deserialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 64e71c1..3dd9aab 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -641,8 +641,8 @@ void deserialize(auto &stream, Container &value)
         if (i + 1 >= value.size())
             break;
 
-        while (stream.consume_and_skip_white_space(','))
-            ;
+        if (!stream.consume_and_skip_white_space(',')) [[unlikely]]
+            throw std::runtime_error("expecting ','");
     }
 
     if (!stream.consume_and_skip_white_space(']')) [[unlikely]]
-- 
2.43.0


From 5aa6e362e990c83961880c2248bdd1270fe05f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 17/70] fix: reject JSON map keys with trailing characters

---
 include/spb/json/deserialize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 3dd9aab..229b078 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -673,6 +673,8 @@ template <field_attributes attributes, typename T> void deserialize_map_key(auto
         auto str_key_map = deserialize_string_to_buffer(stream, 1, 128, buffer);
         auto key_stream  = istream_buffer(str_key_map.data(), str_key_map.size());
         deserialize<attributes>(key_stream, map_key);
+        if (!key_stream.empty()) [[unlikely]]
+            throw std::runtime_error("invalid map key");
     }
 }
 
-- 
2.43.0


From fc70300bece14956e9aed263e156ddf5acefb82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 18/70] fix: endless loop on truncated base64 string

---
 include/spb/json/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index a768cca..7a9de09 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -109,6 +109,9 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
 
         //- align to 4 bytes
         auto aligned_length = length & ~3;
+        if (!end_found && aligned_length <= 4) [[unlikely]]
+            throw std::runtime_error("unexpected end of stream");
+
         if (aligned_length > 4) [[likely]]
         {
             auto out_length = ((aligned_length - 4) / 4) * 3;
-- 
2.43.0


From f90eddcbea144f07a0d47bf1b4af41821f9d304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 19/70] fix: escape string keys of JSON maps

---
 include/spb/json/serialize.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f5e3f57..0d9ae6e 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -445,7 +445,10 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     {
         if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
         {
-            serialize_key(stream, map_key);
+            put_comma_if_needed(stream);
+            stream.write('"');
+            write_escaped(stream, map_key);
+            write_string(stream, R"(":)");
         }
         else
         {
-- 
2.43.0


From 2390b219e1cb2c0dad8584ccfc6e33ded1e98842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 20/70] fix: serialize NaN and Infinity into valid JSON

---
 include/spb/json/serialize.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index 0d9ae6e..d4fd39b 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -20,6 +20,7 @@
 #include <array>
 #include <charconv>
 #include <cinttypes>
+#include <cmath>
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
@@ -306,6 +307,16 @@ void serialize(auto &stream, const spb::detail::proto_field_string auto &value)
 template <field_attributes>
 void serialize(auto &stream, const spb::detail::proto_field_int_or_float auto &value)
 {
+    if constexpr (std::is_floating_point_v<std::remove_cvref_t<decltype(value)>>)
+    {
+        //- https://protobuf.dev/programming-guides/json/
+        if (std::isnan(value)) [[unlikely]]
+            return write_string(stream, R"("NaN")");
+
+        if (std::isinf(value)) [[unlikely]]
+            return value > 0 ? write_string(stream, R"("Infinity")") : write_string(stream, R"("-Infinity")");
+    }
+
     auto buffer = std::array<char, 32>();
     auto result = spb_std_emu::to_chars(buffer.data(), buffer.data() + sizeof(buffer), value);
     stream.write(buffer.data(), static_cast<size_t>(result.ptr - buffer.data()));
-- 
2.43.0


From 319cd100ee65b0ef76798fce304fe3bf1d911971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 21/70] fix: keep present fields whose value is empty in JSON

---
 include/spb/json/serialize.hpp                | 16 ++++++++++++----
 src/spb-proto-compiler/dumper/json/dumper.cpp |  7 ++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index d4fd39b..1013b1e 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -488,8 +488,12 @@ void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_val
 template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_value, std::string_view field)
 {
-    if (p_value.has_value())
-        return serialize<attributes>(stream, *p_value, field);
+    if (!p_value.has_value())
+        return;
+
+    //- a value that is present is always serialized, even if it is empty
+    serialize_key(stream, field);
+    serialize<attributes>(stream, *p_value);
 }
 
 template <field_attributes attributes, typename T>
@@ -502,8 +506,12 @@ void serialize(auto &stream, const std::unique_ptr<T> &p_value)
 template <field_attributes attributes, typename T>
 void serialize(auto &stream, const std::unique_ptr<T> &p_value, std::string_view field)
 {
-    if (p_value)
-        return serialize<attributes>(stream, *p_value, field);
+    if (!p_value)
+        return;
+
+    //- a value that is present is always serialized, even if it is empty
+    serialize_key(stream, field);
+    serialize<attributes>(stream, *p_value);
 }
 
 template <field_attributes> void serialize(auto &stream, const spb::detail::proto_message auto &value)
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 28d9f45..fcd8c1f 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -212,10 +212,11 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\tswitch(value." << oneof.name.get_name() << ".index())\n\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize<";
+        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize_key(stream, \""
+               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\tserialize<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
-        stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
-               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\tbreak;\n";
+        stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name()
+               << "));\n\t\t\tbreak;\n";
     }
     stream << "\t}\n";
 }
-- 
2.43.0


From 065271f32e44b7532a16f14c5c8518e7c97e2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 22/70] fix: ignore unknown JSON keys of messages without
 fields

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index fcd8c1f..65c6bf4 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -367,8 +367,9 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
 {
     if (message.fields.empty() && message.maps.empty() && message.oneofs.empty())
     {
-        stream << "void deserialize_value_gen(auto &, " << full_name << " &)\n{\n";
-        stream << "\n}\n\n";
+        //- all keys are unknown
+        stream << "void deserialize_value_gen(auto &stream, " << full_name << " &)\n{\n";
+        stream << "\treturn ignore_key_and_value(stream);\n}\n\n";
         return;
     }
 
-- 
2.43.0


From 2120c3b112dce2d1e41de3565737e7aa790e41cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 23/70] fix: use proto names of enum values in JSON

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 65c6bf4..74ea00c 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -240,7 +240,7 @@ void dump_cpp_serialize_enum_gen(std::ostream &stream, const proto_enum &my_enum
             continue;
 
         stream << "\tcase " << full_name << "::" << field.name.get_name()
-               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.get_name() << "\"sv);\n";
+               << ":\n\t\treturn serialize_enum(stream, \"" << field.name.proto_name << "\"sv);\n";
     }
     stream << "\tdefault:\n\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
@@ -260,12 +260,13 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     size_t key_size_min = UINT32_MAX;
     size_t key_size_max = 0;
 
-    auto name_map = std::multimap<uint32_t, std::string_view>();
+    auto name_map = std::multimap<uint32_t, const cpp_ident *>();
     for (const auto &field : my_enum.fields)
     {
-        name_map.emplace(spb::json::detail::djb2_hash(field.name.get_name()), field.name.get_name());
-        key_size_min = std::min(key_size_min, field.name.get_name().size());
-        key_size_max = std::max(key_size_max, field.name.get_name().size());
+        const auto proto_name = field.name.proto_name;
+        name_map.emplace(spb::json::detail::djb2_hash(proto_name), &field.name);
+        key_size_min = std::min(key_size_min, proto_name.size());
+        key_size_max = std::max(key_size_max, proto_name.size());
     }
 
     stream << "void deserialize_value_gen(auto &stream, " << full_name << " & value)\n{\n";
@@ -286,10 +287,10 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
                 stream << "\t\t\t\tbreak;\n";
 
             put_break = true;
-            stream << "\t\t\tcase detail::djb2_hash(\"" << name << "\"sv):\n";
+            stream << "\t\t\tcase detail::djb2_hash(\"" << name->proto_name << "\"sv):\n";
         }
-        stream << "\t\t\t\tif (enum_str == \"" << name << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name
-               << "::" << name << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
+        stream << "\t\t\t\tif (enum_str == \"" << name->proto_name
+               << "\"sv)\n\t\t\t\t{\n\t\t\t\t\tvalue = " << full_name << "::" << name->get_name() << ";\n\t\t\t\t\treturn ;\n\t\t\t\t}\n";
     }
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From e42eec6bd000c0866a4841051f38322d884b509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:43 +0000
Subject: [PATCH 24/70] fix: do not truncate numbers of enums with a narrow
 type in JSON

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 74ea00c..23ac58f 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -295,15 +295,14 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
-    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (" << full_name
-           << "(enum_int))\n\t\t\t{\n";
+    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (enum_int)\n\t\t\t{\n";
     std::set<int32_t> numbers_taken;
     for (const auto &field : my_enum.fields)
     {
         if (!numbers_taken.insert(field.number).second)
             continue;
 
-        stream << "\t\t\tcase " << full_name << "::" << field.name.get_name() << ":\n";
+        stream << "\t\t\tcase int32_t(" << full_name << "::" << field.name.get_name() << "):\n";
     }
     stream << "\t\t\t\tvalue = " << full_name << "(enum_int);\n\t\t\t\treturn ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From 855ae867110d250ff940710d38969409b2e37a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:30 +0000
Subject: [PATCH 25/70] fix: camelCase JSON names compatible with GPB

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 23ac58f..3ce9502 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -43,15 +43,9 @@ auto json_name_from_options(const proto_attributes &attributes) -> std::string_v
 
 auto convert_to_camelCase(std::string_view input) -> std::string
 {
-    auto result = std::string(input);
-    if (!result.empty())
-        result[0] = char(std::tolower(result[0]));
-
-    if (input.find('_') == std::string::npos)
-        return result;
-
-    auto index = 0U;
-    auto up    = false;
+    //- same as ToJsonName() from GPB
+    auto result = std::string();
+    auto up     = false;
     for (auto c : input)
     {
         if (c == '_')
@@ -60,12 +54,10 @@ auto convert_to_camelCase(std::string_view input) -> std::string
         }
         else
         {
-            result[index] = char((up && index > 0) ? std::toupper(c) : std::tolower(c));
-            index += 1;
+            result += up ? char(std::toupper(uint8_t(c))) : c;
             up = false;
         }
     }
-    result.resize(index);
     return result;
 }
 
-- 
2.43.0


From 8b4f71b18f4df948b6430c3bf56d584d697f6e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 26/70] fix: apply options of oneof fields

---
 src/spb-proto-compiler/ast/ast-options.cpp    | 8 ++++++++
 src/spb-proto-compiler/dumper/json/dumper.cpp | 2 ++
 src/spb-proto-compiler/parser/parser.cpp      | 1 +
 3 files changed, 11 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 259c89d..97201da 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -289,6 +289,14 @@ void resolve_options(proto_file &file, proto_message &message)
         convert_options(file, map.attributes, map.options, option_type::option_field, true);
         convert_options(file, message.attributes, map.options, option_type::option_message, false);
     }
+    for (auto &oneof : message.oneofs)
+    {
+        for (auto &field : oneof.fields)
+        {
+            convert_options(file, field.attributes, field.options, option_type::option_field, true);
+            convert_options(file, message.attributes, field.options, option_type::option_message, false);
+        }
+    }
     for (auto &sub_message : message.messages)
     {
         resolve_options(file, sub_message);
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 3ce9502..9f677b9 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -436,6 +436,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
             name_map.emplace(spb::json::detail::djb2_hash(field_name), one_field{
                                                                            .parsed_name = field_name,
                                                                            .name        = oneof.name,
+                                                                           .attributes  = oneof.fields[i].attributes,
                                                                            .oneof_index = i,
                                                                        });
             if (field_name != oneof.fields[i].name.proto_name)
@@ -447,6 +448,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
                                  one_field{
                                      .parsed_name = std::string(oneof.fields[i].name.proto_name),
                                      .name        = oneof.name,
+                                     .attributes  = oneof.fields[i].attributes,
                                      .oneof_index = i,
                                  });
             }
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 873448c..f7cfbe6 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -770,6 +770,7 @@ void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_com
     new_field.options = parse_field_options(stream);
     new_field.comment = std::move(comment);
     consume_statement_end(stream, new_field.comment);
+    parse_options_from_comments(stream, new_field.options, new_field.comment);
     fields.push_back(new_field);
 }
 
-- 
2.43.0


From 474f0d4e8192c94fbaa50f5c2b8e2ba5482848b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 27/70] fix: identifiers starting with a keyword followed by an
 underscore

---
 src/spb-proto-compiler/parser/char_stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 9ae8e89..954694b 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -12,6 +12,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cstdint>
 #include <stdexcept>
 #include <string>
 #include <string_view>
@@ -107,7 +108,7 @@ struct char_stream
             p_begin += token.size();
             update_current(false);
             auto next = current_char();
-            if (isspace(next) || !isalnum(next))
+            if (!isalnum(uint8_t(next)) && next != '_')
             {
                 update_current(true);
                 return true;
-- 
2.43.0


From 89eea084f31737ea6187f923559058480b48a41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 28/70] fix: option values without white spaces ({a:1}, [1,2])

---
 src/spb-proto-compiler/parser/parser.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index f7cfbe6..9c409d7 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -454,24 +454,24 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 void parse_option_value(spb::char_stream &stream, proto_option &value);
 void parse_option_array(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "[");
-    while (!stream.consume("]"))
+    consume_or_fail(stream, '[');
+    while (!stream.consume(']'))
     {
         parse_option_value(stream, value);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
 void parse_option_struct(spb::char_stream &stream, proto_option &value)
 {
-    consume_or_fail(stream, "{");
+    consume_or_fail(stream, '{');
     auto &options = value.options.emplace_back();
-    while (!stream.consume("}"))
+    while (!stream.consume('}'))
     {
         const auto option_name = parse_ident(stream).proto_name;
         consume_or_fail(stream, ':');
         parse_option_value(stream, options[option_name]);
-        stream.consume(",");
+        (void)stream.consume(',');
     }
 }
 
-- 
2.43.0


From 045190f42823cd1fa42197cd9770bd3bb6fc41a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 29/70] fix: dangling pointers into content of short proto
 files

---
 src/spb-proto-compiler/io/file.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/io/file.cpp b/src/spb-proto-compiler/io/file.cpp
index cc7d645..7b91925 100644
--- a/src/spb-proto-compiler/io/file.cpp
+++ b/src/spb-proto-compiler/io/file.cpp
@@ -9,6 +9,7 @@
 \***************************************************************************/
 
 #include "file.h"
+#include <algorithm>
 #include <cstdio>
 #include <cstring>
 #include <stdexcept>
@@ -16,7 +17,12 @@
 auto load_file(const std::filesystem::path &file_path) -> std::string
 {
     const auto file_size = std::filesystem::file_size(file_path);
-    auto file_content = std::string(file_size, '\0');
+    auto file_content = std::string();
+
+    //- parsed files hold pointers into the content, they have to survive a move of the string
+    //- so the content must be never stored in-place (small string optimization)
+    file_content.reserve(std::max<size_t>(file_size, 256));
+    file_content.resize(file_size);
 
     if (auto *p_file = fopen(file_path.string().c_str(), "rb"); p_file)
     {
-- 
2.43.0


From 1e1f5a62225818dc73a7af0a1a2938a3de0866b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 30/70] fix: line comment ending with a backslash comments out
 the next line of generated header

---
 src/spb-proto-compiler/dumper/header.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 88d69d0..9a2399d 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -49,9 +49,13 @@ void dump_comment(std::ostream &stream, const proto_comment &comment)
             continue;
         }
 
-        stream << comm;
-        if (comm.back() != '\n')
-            stream << '\n';
+        //- line comment ending with '\' would comment out the next line
+        auto line = comm;
+        while (line.starts_with("//") && (line.ends_with('\\') || isspace(uint8_t(line.back()))))
+        {
+            line.remove_suffix(1);
+        }
+        stream << line << '\n';
     }
 }
 
-- 
2.43.0


From d162c987171901955630bbb5a39b6ec012298800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 31/70] fix: report errors of writing generated files

---
 src/spb-proto-compiler/main.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 1deb7eb..5e6449a 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -11,11 +11,14 @@
 #include "dumper/dumper.h"
 #include "parser/parser.h"
 #include <cstdio>
+#include <cerrno>
 #include <cstring>
 #include <exception>
 #include <filesystem>
 #include <fstream>
 #include <iostream>
+#include <sstream>
+#include <stdexcept>
 #include <vector>
 
 namespace
@@ -69,6 +72,15 @@ auto get_relative_output_dir(const fs::path &input_file, std::span<const fs::pat
     return {};
 }
 
+void write_file(const fs::path &path, std::string_view content)
+{
+    auto stream = std::ofstream(path);
+    stream.write(content.data(), std::streamsize(content.size()));
+    stream.close();
+    if (!stream)
+        throw std::runtime_error(path.string() + ": " + strerror(errno));
+}
+
 void process_file(const fs::path &input_file, std::span<const fs::path> import_paths,
                   const fs::path &output_dir)
 {
@@ -78,11 +90,14 @@ void process_file(const fs::path &input_file, std::span<const fs::path> import_p
     const auto rel_output_dir = get_relative_output_dir(input_file, import_paths);
 
     fs::create_directories(output_dir / rel_output_dir);
-    auto cpp_header_stream = std::ofstream(output_dir / rel_output_dir / output_cpp_header);
-    dump_cpp_header(parsed_file, cpp_header_stream);
+    auto cpp_header = std::ostringstream();
+    dump_cpp_header(parsed_file, cpp_header);
+
+    auto cpp = std::ostringstream();
+    dump_cpp(parsed_file, rel_output_dir / output_cpp_header, cpp);
 
-    auto cpp_stream = std::ofstream(output_dir / rel_output_dir / output_cpp);
-    dump_cpp(parsed_file, rel_output_dir / output_cpp_header, cpp_stream);
+    write_file(output_dir / rel_output_dir / output_cpp_header, cpp_header.str());
+    write_file(output_dir / rel_output_dir / output_cpp, cpp.str());
 }
 
 } // namespace
-- 
2.43.0


From 870bf5abe769370a2887cba0ddbda640f820d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 32/70] fix: report errors of reading proto files

---
 src/spb-proto-compiler/io/file.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/io/file.cpp b/src/spb-proto-compiler/io/file.cpp
index 7b91925..f58abf0 100644
--- a/src/spb-proto-compiler/io/file.cpp
+++ b/src/spb-proto-compiler/io/file.cpp
@@ -26,10 +26,14 @@ auto load_file(const std::filesystem::path &file_path) -> std::string
 
     if (auto *p_file = fopen(file_path.string().c_str(), "rb"); p_file)
     {
-        const auto read = fread(file_content.data(), 1, file_content.size(), p_file);
+        const auto read   = fread(file_content.data(), 1, file_content.size(), p_file);
+        const auto failed = ferror(p_file) != 0;
         fclose(p_file);
-        file_content.resize(read);
-        return file_content;
+        if (!failed)
+        {
+            file_content.resize(read);
+            return file_content;
+        }
     }
     throw std::runtime_error(std::string(" ") + strerror(errno));
 }
-- 
2.43.0


From 7ed52149cfe3d9ab17957c6e54e2bcf394886beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:58 +0000
Subject: [PATCH 33/70] fix: accept identifiers starting with an underscore

---
 src/spb-proto-compiler/parser/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 9c409d7..3dd5f62 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -254,7 +254,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
 
     const auto *start = stream.begin();
 
-    if (isalpha(stream.current_char()) == 0)
+    if (isalpha(stream.current_char()) == 0 && stream.current_char() != '_')
     {
         stream.throw_parse_error("expecting identifier(a-zA-Z)");
         return {};
-- 
2.43.0


From 8172d0db4a9ad7005391e5b447552124c2db3cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 34/70] fix: file imported by more than one file

---
 src/spb-proto-compiler/parser/parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 3dd5f62..46f7606 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -385,6 +385,10 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
 
             file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx)).comment =
                 std::move(import_comment);
+
+            //- `already_parsed` detects cyclic imports only,
+            //- the same file can be imported from more than one file
+            ctx.already_parsed.erase(import_file_path.string());
         }
         catch (const std::runtime_error &)
         {
-- 
2.43.0


From f3147910d8b70264e9cc25b465ed5ee8e4b34492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 35/70] fix: types of imported files relative to the package of
 the importing file

---
 .../ast/ast-messages-order.cpp                | 24 +------
 src/spb-proto-compiler/ast/ast-types.cpp      | 66 ++++++++++++++-----
 src/spb-proto-compiler/ast/ast-types.h        |  8 +++
 3 files changed, 57 insertions(+), 41 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 7b68b9b..d88ef7b 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -271,35 +271,13 @@ auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_
     return resolve_field(*self.p_parent, field, type_part);
 }
 
-[[nodiscard]]
-auto resolve_from_import(const proto_file &import, const proto_field &field) -> bool
-{
-    if (import.package.name.proto_name.empty())
-        return resolve_from_message(import.package, field, 0);
-
-    if (field.type_name.proto_name.size() > import.package.name.proto_name.size() &&
-        field.type_name.proto_name[import.package.name.proto_name.size()] == '.' &&
-        field.type_name.proto_name.starts_with(import.package.name.proto_name))
-    {
-        return resolve_from_message(import.package, field, type_parts(import.package.name.proto_name) + 1);
-    }
-
-    return false;
-}
-
 [[nodiscard]]
 auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
 {
     if (type_part > 0)
         return false;
 
-    for (const auto &import : self.state.file.imports)
-    {
-        if (resolve_from_import(import, field))
-            return true;
-    }
-
-    return false;
+    return resolve_type_from_imports(self.state.file, field) != proto_field::Type::NONE;
 }
 
 [[nodiscard]]
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index ea6a040..e3b91af 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -11,6 +11,7 @@
 #include "ast/proto-oneof.h"
 
 #include "../dumper/header.h"
+#include "ast-types.h"
 #include "proto-field.h"
 #include "proto-file.h"
 #include "proto-message.h"
@@ -252,20 +253,44 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     return resolve_type(*self.p_parent, field, type_part).first;
 }
 
-[[nodiscard]] auto resolve_from_import(const proto_file &import, const proto_field &field)
-    -> proto_field::Type
+/**
+ * @brief resolve type from an imported file, the type name can be relative to any scope of the package
+ *        of the importing file (package a.b.c can use message a.b.d.M as `a.b.d.M`, `b.d.M` and `d.M`)
+ */
+[[nodiscard]] auto resolve_from_import(const proto_file &import, const proto_field &field,
+                                       std::string_view scope) -> proto_field::Type
 {
-    if (import.package.name.proto_name.empty())
-        return resolve_from_message(import.package, field, 0);
-
-    if (field.type_name.proto_name.size() > import.package.name.proto_name.size() &&
-        field.type_name.proto_name[import.package.name.proto_name.size()] == '.' &&
-        field.type_name.proto_name.starts_with(import.package.name.proto_name))
+    const auto package = import.package.name.proto_name;
+    for (;;)
     {
-        return resolve_from_message(import.package, field, type_parts(import.package.name.proto_name) + 1);
-    }
+        const auto is_prefix = scope.empty() || (package.starts_with(scope) &&
+                                                 (package.size() == scope.size() || package[scope.size()] == '.'));
+        if (is_prefix)
+        {
+            auto prefix = package.substr(scope.size());
+            if (!scope.empty() && !prefix.empty())
+                prefix.remove_prefix(1);
+
+            const auto type_name = field.type_name.proto_name;
+            if (prefix.empty())
+            {
+                if (const auto type = resolve_from_message(import.package, field, 0); type)
+                    return type;
+            }
+            else if (type_name.size() > prefix.size() && type_name[prefix.size()] == '.' &&
+                     type_name.starts_with(prefix))
+            {
+                if (const auto type = resolve_from_message(import.package, field, type_parts(prefix) + 1);
+                    type)
+                    return type;
+            }
+        }
+        if (scope.empty())
+            return proto_field::Type::NONE;
 
-    return proto_field::Type::NONE;
+        const auto dot_index = scope.rfind('.');
+        scope                = scope.substr(0, dot_index == scope.npos ? 0 : dot_index);
+    }
 }
 
 [[nodiscard]] auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part)
@@ -274,13 +299,7 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     if (type_part > 0)
         return proto_field::Type::NONE;
 
-    for (const auto &import : self.file.imports)
-    {
-        if (const auto type = resolve_from_import(import, field); type)
-            return type;
-    }
-
-    return proto_field::Type::NONE;
+    return resolve_type_from_imports(self.file, field);
 }
 
 auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_part)
@@ -353,6 +372,17 @@ void resolve_types(const search_ctx &parent, proto_message &message)
 }
 } // namespace
 
+auto resolve_type_from_imports(const proto_file &file, const proto_field &field) -> proto_field::Type
+{
+    for (const auto &import : file.imports)
+    {
+        if (const auto type = resolve_from_import(import, field, file.package.name.proto_name); type)
+            return type;
+    }
+
+    return proto_field::Type::NONE;
+}
+
 auto is_packed_array(const proto_file &file, const proto_field &field) -> bool
 {
     if (field.label != proto_field::Label::REPEATED)
diff --git a/src/spb-proto-compiler/ast/ast-types.h b/src/spb-proto-compiler/ast/ast-types.h
index dac1d54..09ed2fc 100644
--- a/src/spb-proto-compiler/ast/ast-types.h
+++ b/src/spb-proto-compiler/ast/ast-types.h
@@ -16,6 +16,14 @@
 [[nodiscard]] auto is_scalar(const proto_field::Type &type) -> bool;
 [[nodiscard]] auto is_packed_array(const proto_file &file, const proto_field &field) -> bool;
 
+/**
+ * @brief resolve type of a field from imported files
+ *
+ * @return proto_field::Type::NONE if the type was not found
+ */
+[[nodiscard]] auto resolve_type_from_imports(const proto_file &file, const proto_field &field)
+    -> proto_field::Type;
+
 /**
  * @brief resolve types in a proto file
  *
-- 
2.43.0


From 6ae19fbdef9186ec1adb8e0c0c4ec9e483a267d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 36/70] fix: stack overflow on deeply nested messages

---
 include/spb/pb/deserialize.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 21ab32f..442af1e 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -29,14 +29,27 @@
 namespace spb::pb::detail
 {
 
+//- maximal nesting of messages (protects the stack, GPB uses 100)
+static constexpr size_t max_nesting = 128;
+
+[[nodiscard]] constexpr size_t next_nesting_or_throw(size_t nesting)
+{
+    if (nesting >= max_nesting) [[unlikely]]
+        throw std::runtime_error("message is nested too deep");
+
+    return nesting + 1;
+}
+
 struct istream_reader
 {
     size_t bytes_left;
     size_t consumed_bytes = 0;
+    size_t nesting        = 0;
     spb::io::reader on_read;
 
-    istream_reader(spb::io::reader reader, size_t size = std::numeric_limits<size_t>::max()) noexcept
-        : bytes_left(size), on_read(reader)
+    istream_reader(spb::io::reader reader, size_t size = std::numeric_limits<size_t>::max(),
+                   size_t stream_nesting = 0) noexcept
+        : bytes_left(size), nesting(stream_nesting), on_read(reader)
     {
     }
     size_t consumed_size() const noexcept
@@ -101,7 +114,7 @@ struct istream_reader
 
         bytes_left -= sub_size;
         consumed_bytes += sub_size;
-        return istream_reader(on_read, sub_size);
+        return istream_reader(on_read, sub_size, next_nesting_or_throw(nesting));
     }
 
     void skip_or_throw(size_t size)
@@ -120,12 +133,14 @@ struct istream_buffer
 {
     const uint8_t *p_start;
     const uint8_t *p_end;
+    size_t nesting = 0;
 
     istream_buffer(const uint8_t *start, const uint8_t *end) noexcept : p_start(start), p_end(end)
     {
         assert(start <= end);
     }
-    istream_buffer(const uint8_t *start, size_t size) noexcept : p_start(start), p_end(start + size)
+    istream_buffer(const uint8_t *start, size_t size, size_t stream_nesting = 0) noexcept
+        : p_start(start), p_end(start + size), nesting(stream_nesting)
     {
     }
     size_t size() const noexcept
@@ -177,7 +192,7 @@ struct istream_buffer
 
         const auto sub_start = p_start;
         p_start += sub_size;
-        return istream_buffer(sub_start, sub_size);
+        return istream_buffer(sub_start, sub_size, next_nesting_or_throw(nesting));
     }
 
     void skip_or_throw(size_t size)
-- 
2.43.0


From b8e3d9557214549994b7d1e17059dc1024797fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:19 +0000
Subject: [PATCH 37/70] fix: stack overflow on deeply nested JSON

---
 include/spb/json/deserialize.hpp | 35 ++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 229b078..3978f6c 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -93,10 +93,37 @@ template <spb::detail::proto_field_bytes T> void clear(T &container)
     }
 }
 
+//- maximal nesting of objects and arrays (protects the stack, GPB uses 100)
+static constexpr size_t max_nesting = 128;
+
+/**
+ * @brief guards nesting of objects and arrays
+ *
+ */
+template <typename Stream> struct nesting_guard
+{
+    Stream &stream;
+
+    explicit nesting_guard(Stream &stream_) : stream(stream_)
+    {
+        if (stream.nesting >= max_nesting) [[unlikely]]
+            throw std::runtime_error("JSON is nested too deep");
+
+        ++stream.nesting;
+    }
+    ~nesting_guard()
+    {
+        --stream.nesting;
+    }
+    nesting_guard(const nesting_guard &)            = delete;
+    nesting_guard &operator=(const nesting_guard &) = delete;
+};
+
 struct istream_buffer
 {
     const uint8_t *p_start;
     const uint8_t *p_end;
+    size_t nesting = 0;
 
     istream_buffer(const void *start, const void *end) noexcept
         : p_start((uint8_t *)start), p_end((uint8_t *)end)
@@ -201,6 +228,8 @@ struct istream_reader
     }
 
   public:
+    size_t nesting = 0;
+
     istream_reader(spb::io::reader reader) : reader(reader)
     {
     }
@@ -762,6 +791,8 @@ void ignore_key_and_value(auto &stream)
 
 void ignore_object(auto &stream)
 {
+    const auto guard = nesting_guard(stream);
+
     //- '{' was already checked by caller
     stream.consume_current_char(true);
 
@@ -781,6 +812,8 @@ void ignore_object(auto &stream)
 
 void ignore_array(auto &stream)
 {
+    const auto guard = nesting_guard(stream);
+
     //- '[' was already checked by caller
     stream.consume_current_char(true);
 
@@ -850,6 +883,8 @@ void deserialize_variant(auto &stream, T &variant)
 
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_message auto &value)
 {
+    const auto guard = nesting_guard(stream);
+
     if (!stream.consume_and_skip_white_space('{')) [[unlikely]]
         throw std::runtime_error("expecting '{'");
 
-- 
2.43.0


From f2fdb70163ec445072436d80f373af39e2729ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:51 +0000
Subject: [PATCH 38/70] fix: skip unknown groups

---
 include/spb/pb/deserialize.hpp              | 42 ++++++++++++++++++---
 src/spb-proto-compiler/dumper/pb/dumper.cpp |  4 +-
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 442af1e..c443f15 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -204,7 +204,7 @@ struct istream_buffer
     }
 };
 
-void skip(auto &stream, wire_type);
+void skip(auto &stream, tag_type tag);
 
 // template <serialize_mode> void deserialize(auto &stream, auto &value, wire_type type);
 
@@ -731,11 +731,11 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
             {
                 const auto size = read_varint<uint32_t>(stream);
                 auto substream  = stream.sub_stream(size);
-                skip(substream, field_type);
+                skip(substream, tag);
             }
             else
             {
-                skip(stream, field_type);
+                skip(stream, tag);
             }
             break;
         }
@@ -788,9 +788,39 @@ template <serialize_mode mode> void deserialize(auto &stream, spb::detail::proto
     return deserialize<mode>(stream, value, wire_type::length_delimited);
 }
 
-void skip(auto &stream, wire_type type)
+void skip_group(auto &stream, uint32_t field_number, size_t nesting)
 {
-    switch (type)
+    nesting = next_nesting_or_throw(nesting);
+
+    for (;;)
+    {
+        const auto tag = read_tag_or_eof(stream);
+        if (tag == tag_type::invalid) [[unlikely]]
+            throw std::runtime_error("unexpected end of stream");
+
+        switch (wire_type_from_tag(tag))
+        {
+        case wire_type::EndGroup:
+            if (field_from_tag(tag) != field_number) [[unlikely]]
+                throw std::runtime_error("invalid end of group");
+            return;
+        case wire_type::StartGroup:
+            skip_group(stream, field_from_tag(tag), nesting);
+            break;
+        case wire_type::length_delimited:
+            stream.skip_or_throw(read_varint<uint32_t>(stream));
+            break;
+        default:
+            skip(stream, tag);
+            break;
+        }
+    }
+}
+
+//- skip value of an unknown field (`stream` is limited to the value of length delimited field)
+void skip(auto &stream, tag_type tag)
+{
+    switch (wire_type_from_tag(tag))
     {
     case wire_type::varint:
         return (void)read_varint<uint64_t>(stream);
@@ -800,6 +830,8 @@ void skip(auto &stream, wire_type type)
         return stream.skip_or_throw(sizeof(uint32_t));
     case wire_type::fixed64:
         return stream.skip_or_throw(sizeof(uint64_t));
+    case wire_type::StartGroup:
+        return skip_group(stream, field_from_tag(tag), stream.nesting);
     default:
         throw std::runtime_error("invalid wire type");
     }
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 0625f43..f00bdb2 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -258,7 +258,7 @@ void dump_cpp_deserialize_value_gen(std::ostream &stream, const proto_file &file
     if (message.fields.empty() && message.maps.empty() && message.oneofs.empty())
     {
         stream << "static void deserialize_value_gen(auto &stream, " << full_name << " &, tag_type tag)\n{\n";
-        stream << "\tskip(stream, wire_type_from_tag(tag));\n}\n\n";
+        stream << "\tskip(stream, tag);\n}\n\n";
         return;
     }
 
@@ -303,7 +303,7 @@ void dump_cpp_deserialize_value_gen(std::ostream &stream, const proto_file &file
         }
     }
 
-    stream << "\t\tdefault:\n\t\t\treturn skip(stream, type);\t\n\t}\n}\n\n";
+    stream << "\t\tdefault:\n\t\t\treturn skip(stream, tag);\t\n\t}\n}\n\n";
 }
 
 void dump_cpp_messages(std::ostream &stream, const proto_file &file, const proto_messages &messages,
-- 
2.43.0


From 827f7c119e67afb858220848c0b724adf80db790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:13 +0000
Subject: [PATCH 39/70] fix: memory allocated by a length prefix without data

---
 include/spb/pb/deserialize.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index c443f15..b220510 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -532,6 +532,24 @@ void deserialize(auto &stream, Container &p_value, wire_type type)
     deserialize<mode>(stream, value, type);
 }
 
+/**
+ * @brief read rest of the `stream`, the size of `stream` is not trusted (it is a number from the input),
+ *        so the memory is allocated with incoming data
+ */
+void read_all_or_throw(auto &stream, auto &value)
+{
+    static constexpr auto chunk_size = size_t(64) * 1024U;
+
+    auto offset = size_t(0);
+    do
+    {
+        const auto size = std::min(stream.size(), chunk_size);
+        value.resize(offset + size);
+        stream.read_exact_or_throw(value.data() + offset, size);
+        offset += size;
+    } while (!stream.empty());
+}
+
 template <serialize_mode mode>
 void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire_type type)
 {
@@ -541,14 +559,15 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value, wire
 
     if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
     {
-        value.resize(stream.size());
+        read_all_or_throw(stream, value);
     }
     else
     {
         if (value.size() != stream.size()) [[unlikely]]
             throw std::runtime_error("invalid string size");
+
+        stream.read_exact_or_throw(value.data(), stream.size());
     }
-    stream.read_exact_or_throw(value.data(), stream.size());
     spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
 }
 
@@ -572,14 +591,15 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value, wire_
 
     if constexpr (spb::detail::proto_field_bytes_resizable<decltype(value)>)
     {
-        value.resize(stream.size());
+        read_all_or_throw(stream, value);
     }
     else
     {
         if (stream.size() != value.size()) [[unlikely]]
             throw std::runtime_error("invalid bytes size");
+
+        stream.read_exact_or_throw(value.data(), stream.size());
     }
-    stream.read_exact_or_throw(value.data(), stream.size());
 }
 
 template <serialize_mode mode, spb::detail::proto_label_repeated Container>
-- 
2.43.0


From ea28337b12a2a684475ae69d83c3f5139acd6372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:54 +0000
Subject: [PATCH 40/70] fix: reject empty base64 string for bytes with a fixed
 size

---
 include/spb/json/base64.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 7a9de09..e5ffbd9 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -93,7 +93,14 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
         throw std::runtime_error("expecting '\"'");
 
     if (stream.consume_and_skip_white_space('"'))
+    {
+        if constexpr (!spb::detail::proto_field_bytes_resizable<decltype(output)>)
+        {
+            if (output.size() != 0) [[unlikely]]
+                throw std::runtime_error("too short base64");
+        }
         return;
+    }
 
     auto mask = uint8_t(0);
 
-- 
2.43.0


From 5a58a9784a96a8afa10b877eca72a4babfc6f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 41/70] fix: numbers longer than 32 characters and out of range
 numbers of unknown JSON keys

---
 include/spb/json/deserialize.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 3978f6c..f3375fe 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -565,21 +565,24 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
     }
 }
 
+//- max number of characters of a number
+static constexpr size_t max_number_size = 256;
+
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value)
 {
     if (stream.current_char() == '"') [[unlikely]]
     {
         //- https://protobuf.dev/programming-guides/proto2/#json
         //- number can be a string
-        char buffer[32];
-        auto view   = deserialize_string_to_buffer(stream, 1, 32, buffer);
+        char buffer[max_number_size];
+        auto view   = deserialize_string_to_buffer(stream, 1, max_number_size, buffer);
         auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
         if (result.ec != std::errc{} || result.ptr != (view.data() + view.size())) [[unlikely]]
             throw std::runtime_error("invalid number");
 
         return;
     }
-    auto view   = stream.view(1, 32);
+    auto view   = stream.view(1, max_number_size);
     auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
     if (result.ec != std::errc{}) [[unlikely]]
         throw std::runtime_error("invalid number");
@@ -831,8 +834,15 @@ void ignore_array(auto &stream)
 
 void ignore_number(auto &stream)
 {
+    //- the number is not used, so it can be out of range
     double value;
-    deserialize<field_attributes{}>(stream, value);
+    auto view   = stream.view(1, max_number_size);
+    auto result = spb_std_emu::from_chars(view.data(), view.data() + view.size(), value);
+    if (result.ec != std::errc{} && result.ec != std::errc::result_out_of_range) [[unlikely]]
+        throw std::runtime_error("invalid number");
+
+    stream.skip(result.ptr - view.data());
+    stream.skip_white_spaces();
 }
 
 void ignore_bool(auto &stream)
-- 
2.43.0


From 8c17d5557fc6a1030896c0df9db8fbe743751642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 42/70] fix: default values of fields (float, inf, hex, escaped
 strings, bytes, keywords)

---
 src/spb-proto-compiler/dumper/header.cpp | 172 +++++++++++++++++++++--
 src/spb-proto-compiler/parser/parser.cpp |  44 ++++--
 src/spb-proto-compiler/parser/parser.h   |   7 +
 3 files changed, 204 insertions(+), 19 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 9a2399d..7cd6b3e 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -374,23 +374,175 @@ void dump_message_map(std::ostream &stream, const proto_map &map, const proto_me
            << " " << map.name.get_name() << ";\n";
 }
 
-void dump_default_value(std::ostream &stream, const proto_field &field)
+/**
+ * @brief decode escape sequences of a proto string literal
+ *        https://protobuf.dev/reference/protobuf/proto2-spec/#string_literals
+ */
+auto unescape_string_literal(const proto_file &file, std::string_view literal) -> std::string
 {
-    auto default_value = field.attributes.default_;
-    if (default_value.empty())
-        return;
+    auto result = std::string();
+
+    const auto parse_number = [&](size_t max_size, int base) -> uint32_t
+    {
+        auto value         = uint32_t(0);
+        const auto *p_data = literal.data();
+        const auto parsed =
+            spb_std_emu::from_chars(p_data, p_data + std::min(max_size, literal.size()), value, base);
+        if (parsed.ec != std::errc{})
+            throw_parse_error(file, literal, "invalid escape sequence");
+
+        literal.remove_prefix(static_cast<size_t>(parsed.ptr - p_data));
+        return value;
+    };
+
+    while (!literal.empty())
+    {
+        const auto c = literal.front();
+        literal.remove_prefix(1);
+        if (c != '\\' || literal.empty())
+        {
+            result += c;
+            continue;
+        }
+
+        const auto escaped = literal.front();
+        if (escaped >= '0' && escaped <= '7')
+        {
+            result += char(parse_number(3, 8));
+            continue;
+        }
+
+        literal.remove_prefix(1);
+        switch (escaped)
+        {
+        case 'a':
+            result += '\a';
+            break;
+        case 'b':
+            result += '\b';
+            break;
+        case 'f':
+            result += '\f';
+            break;
+        case 'n':
+            result += '\n';
+            break;
+        case 'r':
+            result += '\r';
+            break;
+        case 't':
+            result += '\t';
+            break;
+        case 'v':
+            result += '\v';
+            break;
+        case 'x':
+        case 'X':
+            result += char(parse_number(2, 16));
+            break;
+        case 'u':
+        case 'U':
+        {
+            char utf8[4];
+            result.append(utf8, spb::detail::utf8::encode_point(parse_number(escaped == 'u' ? 4 : 8, 16), utf8));
+            break;
+        }
+        default:
+            result += escaped;
+            break;
+        }
+    }
+
+    return result;
+}
+
+void dump_default_string(std::ostream &stream, std::string_view value, std::string_view ctype)
+{
+    static constexpr auto digits = "01234567"sv;
+
+    const auto has_zero = value.find('\0') != value.npos;
+    stream << " = ";
+    if (has_zero)
+        stream << ctype << "(";
+    stream << '"';
+    for (const auto c : value)
+    {
+        const auto byte = uint8_t(c);
+        if (byte < ' ' || byte > '~' || c == '"' || c == '\\' || c == '?')
+        {
+            stream << '\\' << digits[byte >> 6] << digits[(byte >> 3) & 7] << digits[byte & 7];
+        }
+        else
+        {
+            stream << c;
+        }
+    }
+    stream << '"';
+    if (has_zero)
+        stream << ", " << value.size() << ")";
+}
+
+void dump_default_bytes(std::ostream &stream, std::string_view value, std::string_view ctype)
+{
+    stream << " = " << ctype << "{";
+    for (const auto c : value)
+    {
+        stream << "std::byte(" << uint32_t(uint8_t(c)) << "),";
+    }
+    stream << "}";
+}
 
-    if (field.type == proto_field::Type::ENUM)
+void dump_default_float(std::ostream &stream, std::string_view value, proto_field::Type type)
+{
+    const auto ctype = type == proto_field::Type::FLOAT ? "float"sv : "double"sv;
+
+    if (value == "inf")
+    {
+        stream << " = std::numeric_limits<" << ctype << ">::infinity()";
+    }
+    else if (value == "-inf")
     {
-        stream << " = " << field.type_name.get_name() << "::" << default_value;
+        stream << " = -std::numeric_limits<" << ctype << ">::infinity()";
     }
-    else if (field.type == proto_field::Type::STRING &&
-             (default_value.size() < 2 || default_value.front() != '"' || default_value.back() != '"'))
+    else if (value == "nan" || value == "-nan")
     {
-        stream << " = \"" << default_value << "\"";
+        stream << " = std::numeric_limits<" << ctype << ">::quiet_NaN()";
     }
     else
     {
+        //- '1F' is not a valid C++ literal
+        const auto is_int = value.find_first_of(".eE") == value.npos;
+        stream << " = " << value << (is_int ? ".0" : "") << type_literal_suffix(type);
+    }
+}
+
+void dump_default_value(std::ostream &stream, const proto_field &field, const proto_message &message,
+                        const proto_file &file)
+{
+    auto default_value = field.attributes.default_;
+    if (default_value.empty())
+        return;
+
+    switch (field.type)
+    {
+    case proto_field::Type::ENUM:
+        stream << " = " << field.type_name.get_name() << "::" << cpp_name_from_proto(default_value);
+        return;
+    case proto_field::Type::STRING:
+        return dump_default_string(stream, unescape_string_literal(file, default_value),
+                                   convert_to_ctype(file, field, message));
+    case proto_field::Type::BYTES:
+        return dump_default_bytes(stream, unescape_string_literal(file, default_value),
+                                  convert_to_ctype(file, field, message));
+    case proto_field::Type::FLOAT:
+    case proto_field::Type::DOUBLE:
+        return dump_default_float(stream, default_value, field.type);
+    default:
+        if (default_value == "-9223372036854775808" || default_value == "-0x8000000000000000")
+        {
+            stream << " = std::numeric_limits<int64_t>::min()";
+            return;
+        }
         stream << " = " << default_value << type_literal_suffix(field.type);
     }
 }
@@ -407,7 +559,7 @@ void dump_message_field(std::ostream &stream, const proto_field &field, const pr
     dump_comment(stream, field.comment);
     dump_deprecated_attribute(stream, field);
     dump_field_type_and_name(stream, field, message, file);
-    dump_default_value(stream, field);
+    dump_default_value(stream, field, message, file);
     stream << ";\n";
 }
 
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 46f7606..edc6474 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -12,6 +12,7 @@
 #include "ast/proto-field.h"
 #include "ast/proto-file.h"
 #include "dumper/header.h"
+#include <algorithm>
 #include <array>
 #include <ast/ast-types.h>
 #include <ast/ast.h>
@@ -141,8 +142,22 @@ template <int_or_float T> auto parse_number(spb::char_stream &stream) -> T
 auto parse_int_or_float(spb::char_stream &stream) -> std::string_view
 {
     const auto *start = stream.begin();
-    auto number       = double();
-    auto result       = spb_std_emu::from_chars(stream.begin(), stream.end(), number);
+
+    //- hexLit
+    const auto *hex = start + (stream.current_char() == '-' ? 1 : 0);
+    if (stream.end() - hex > 2 && hex[0] == '0' && (hex[1] == 'x' || hex[1] == 'X'))
+    {
+        auto number       = uint64_t();
+        const auto result = spb_std_emu::from_chars(hex + 2, stream.end(), number, 16);
+        if (result.ec != std::errc{}) [[unlikely]]
+            stream.throw_parse_error("expecting number");
+
+        stream.skip_to(result.ptr);
+        return {start, static_cast<size_t>(result.ptr - start)};
+    }
+
+    auto number = double();
+    auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number);
     if (result.ec == std::errc{}) [[likely]]
     {
         stream.skip_to(result.ptr);
@@ -222,6 +237,9 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     auto current      = stream.current_char();
     while ((current != 0) && current != c)
     {
+        //- escaped character can be a quote
+        if (current == '\\')
+            stream.consume_current_char(false);
         stream.consume_current_char(false);
         current = stream.current_char();
     }
@@ -234,7 +252,7 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     return result;
 }
 
-[[nodiscard]] auto parse_ident(spb::char_stream &stream, bool skip_last_white_space = true) -> cpp_ident
+[[nodiscard]] auto is_cpp_reserved_keyword(std::string_view name) -> bool
 {
     static constexpr auto cpp_reserved_keywords = std::array<std::string_view, 92>{
         "alignas",     "alignof",   "and",        "and_eq",    "asm",      "auto",         "bitand",
@@ -252,6 +270,12 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
         "using",       "virtual",   "void",       "volatile",  "wchar_t",  "while",        "xor",
         "xor_eq"};
 
+    return std::find(cpp_reserved_keywords.begin(), cpp_reserved_keywords.end(), name) !=
+           cpp_reserved_keywords.end();
+}
+
+[[nodiscard]] auto parse_ident(spb::char_stream &stream, bool skip_last_white_space = true) -> cpp_ident
+{
     const auto *start = stream.begin();
 
     if (isalpha(stream.current_char()) == 0 && stream.current_char() != '_')
@@ -272,11 +296,8 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     if (skip_last_white_space)
         stream.consume_space();
 
-    for (const auto keyword : cpp_reserved_keywords)
-    {
-        if (keyword == result)
-            return cpp_ident{.proto_name = result, .cpp_name = std::string(result) + "_"};
-    }
+    if (is_cpp_reserved_keyword(result))
+        return cpp_ident{.proto_name = result, .cpp_name = cpp_name_from_proto(result)};
 
     return cpp_ident{.proto_name = result};
 }
@@ -449,7 +470,7 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
     if (c == '"' || c == '\'')
         return parse_string_literal(stream);
 
-    if (isdigit(c) || c == '+' || c == '-')
+    if (isdigit(c) || c == '+' || c == '-' || c == '.')
         return parse_int_or_float(stream);
 
     return parse_full_ident(stream).proto_name;
@@ -1071,3 +1092,8 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
 {
     return proto_file_path.stem().concat(extension);
 }
+
+[[nodiscard]] auto cpp_name_from_proto(std::string_view proto_name) -> std::string
+{
+    return std::string(proto_name) + (is_cpp_reserved_keyword(proto_name) ? "_" : "");
+}
diff --git a/src/spb-proto-compiler/parser/parser.h b/src/spb-proto-compiler/parser/parser.h
index aab2121..b11144f 100644
--- a/src/spb-proto-compiler/parser/parser.h
+++ b/src/spb-proto-compiler/parser/parser.h
@@ -27,6 +27,13 @@
 [[nodiscard]] auto cpp_file_name_from_proto(const std::filesystem::path &proto_file_path,
                                             std::string_view extension) -> std::filesystem::path;
 
+/**
+ * @brief convert proto identifier to C++ identifier
+ *        example: "private" -> "private_"
+ *
+ */
+[[nodiscard]] auto cpp_name_from_proto(std::string_view proto_name) -> std::string;
+
 /**
  * @brief parse proto file
  *
-- 
2.43.0


From c628059fa457aef1d48b08a72d56095de9137abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 43/70] fix: types qualified by own package, leading dot and
 import public

---
 src/spb-proto-compiler/ast/ast-types.cpp | 56 ++++++++++++++++++++++++
 src/spb-proto-compiler/ast/proto-file.h  |  2 +
 src/spb-proto-compiler/parser/parser.cpp | 28 +++++++++---
 3 files changed, 80 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index e3b91af..4660963 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -260,6 +260,15 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
 [[nodiscard]] auto resolve_from_import(const proto_file &import, const proto_field &field,
                                        std::string_view scope) -> proto_field::Type
 {
+    for (const auto &public_import : import.imports)
+    {
+        if (!public_import.is_public_import)
+            continue;
+
+        if (const auto type = resolve_from_import(public_import, field, scope); type)
+            return type;
+    }
+
     const auto package = import.package.name.proto_name;
     for (;;)
     {
@@ -320,8 +329,55 @@ auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_
     throw_parse_error(self.file, field.type_name.proto_name, "type can't be resolved");
 }
 
+[[nodiscard]] auto is_visible_message(const search_ctx &self, const proto_field &field) -> bool
+{
+    for (const auto *p_ctx = &self; p_ctx != nullptr; p_ctx = p_ctx->p_parent)
+    {
+        if (get_sub_message(p_ctx->message, field, 0) != nullptr)
+            return true;
+    }
+    return false;
+}
+
+/**
+ * @brief types can be qualified by the package (or by a part of it) even in the same file:
+ *        message M from the package a.b can be used as `.a.b.M`, `a.b.M`, `b.M` and `M`
+ */
+void remove_own_package(const search_ctx &self, proto_field &field)
+{
+    auto &name             = field.type_name;
+    const auto is_absolute = name.proto_name.starts_with('.');
+    if (is_absolute)
+        name.proto_name.remove_prefix(1);
+
+    if (name.proto_name.find('.') == name.proto_name.npos || (!is_absolute && is_visible_message(self, field)))
+        return;
+
+    for (auto scope = self.file.package.name.proto_name; !scope.empty();)
+    {
+        if (name.proto_name.size() > scope.size() && name.proto_name[scope.size()] == '.' &&
+            name.proto_name.starts_with(scope))
+        {
+            auto local_field = proto_field{.type_name = {.proto_name = name.proto_name.substr(scope.size() + 1)}};
+            if (resolve_from_message(self.file.package, local_field, 0) != proto_field::Type::NONE)
+            {
+                name.proto_name = local_field.type_name.proto_name;
+                return;
+            }
+        }
+
+        const auto dot_index = scope.find('.');
+        if (is_absolute || dot_index == scope.npos)
+            return;
+
+        scope.remove_prefix(dot_index + 1);
+    }
+}
+
 void resolve_types(const search_ctx &self, proto_field &field)
 {
+    remove_own_package(self, field);
+
     const auto [type, bit_type] = resolve_type(self, field, 0);
 
     field.type     = type;
diff --git a/src/spb-proto-compiler/ast/proto-file.h b/src/spb-proto-compiler/ast/proto-file.h
index 7b6778f..45d010f 100644
--- a/src/spb-proto-compiler/ast/proto-file.h
+++ b/src/spb-proto-compiler/ast/proto-file.h
@@ -33,6 +33,8 @@ struct proto_file
     proto_syntax syntax;
     proto_comment comment;
     proto_files imports;
+    //- types of this file are visible in files importing the file which imports this one
+    bool is_public_import = false;
     proto_message package;
     proto_extends extends;
     proto_options options;
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index edc6474..3a94418 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -326,6 +326,21 @@ auto parse_comment(spb::char_stream &stream) -> proto_comment
     return {.proto_name = proto_name, .cpp_name = std::move(cpp_name)};
 }
 
+//- [ "." ] { ident "." } typeName
+[[nodiscard]] auto parse_type_name(spb::char_stream &stream) -> cpp_ident
+{
+    const auto *start = stream.begin();
+    if (stream.current_char() != '.')
+        return parse_full_ident(stream);
+
+    stream.consume_current_char(false);
+    const auto name = parse_full_ident(stream);
+    return {
+        .proto_name = {start, name.proto_name.size() + 1},
+        .cpp_name   = "::" + std::string(name.get_name()),
+    };
+}
+
 void parse_top_level_service_body(spb::char_stream &stream, proto_file &, proto_comment &&)
 {
     return stream.throw_parse_error("not implemented");
@@ -385,7 +400,7 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
 {
     // "import" [ "weak" | "public" ] strLit ";"
     consume_or_fail(stream, "import");
-    stream.consume("weak") || stream.consume("public");
+    const auto is_public   = !stream.consume("weak") && stream.consume("public");
     const auto import_name = parse_string_literal(stream);
     auto import_comment    = std::move(comment);
     consume_statement_end(stream, import_comment);
@@ -404,8 +419,9 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
             if (!ctx.already_parsed.insert(import_file_path.string()).second)
                 return;
 
-            file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx)).comment =
-                std::move(import_comment);
+            auto &import            = file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx));
+            import.comment          = std::move(import_comment);
+            import.is_public_import = is_public;
 
             //- `already_parsed` detects cyclic imports only,
             //- the same file can be imported from more than one file
@@ -730,7 +746,7 @@ void parse_field(spb::char_stream &stream, proto_fields &fields, proto_comment &
     //- fieldOption = optionName "=" constant
     auto new_field = proto_field{
         .label     = parse_field_label(stream),
-        .type_name = parse_full_ident(stream),
+        .type_name = parse_type_name(stream),
     };
 
     new_field.name    = parse_ident(stream);
@@ -763,7 +779,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
 
     auto new_map = proto_map{
         .key   = proto_field{.type_name = {.proto_name = parse_map_key_type(stream)}},
-        .value = proto_field{.type_name = (consume_or_fail(stream, ','), parse_full_ident(stream))},
+        .value = proto_field{.type_name = (consume_or_fail(stream, ','), parse_type_name(stream))},
     };
     new_map.name    = (consume_or_fail(stream, '>'), parse_ident(stream));
     new_map.number  = (consume_or_fail(stream, '='), parse_number<decltype(proto_map::number)>(stream));
@@ -788,7 +804,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
 void parse_oneof_field(spb::char_stream &stream, proto_fields &fields, proto_comment &&comment)
 {
     //- oneofField = type fieldName "=" fieldNumber [ "[" fieldOptions "]" ] ";"
-    auto new_field = proto_field{.type_name = parse_full_ident(stream)};
+    auto new_field = proto_field{.type_name = parse_type_name(stream)};
 
     new_field.name    = parse_ident(stream);
     new_field.number  = (consume_or_fail(stream, '='), parse_number<decltype(proto_field::number)>(stream));
-- 
2.43.0


From 6830d258615a1aa5d92e9a88173fefc758933cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 44/70] fix: option (nanopb).max_count

---
 src/spb-proto-compiler/ast/ast-options.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 97201da..fddcc96 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -115,6 +115,9 @@ void convert_nanopb_options(const proto_file &file, proto_attributes &attributes
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_length"}, options); value.has_value())
         attributes.max_size = *value + 1;
+
+    if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_count"}, options); value.has_value())
+        attributes.max_count = *value;
 }
 
 void convert_nanopb_options(const proto_file &file, proto_attributes &attributes,
-- 
2.43.0


From 03c60d73b325ef425007a796dbcbf8d7d9ced64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 45/70] fix: resizable containers without append() as a string
 (std::vector<char>)

---
 include/spb/concepts.h           | 2 +-
 include/spb/json/deserialize.hpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/spb/concepts.h b/include/spb/concepts.h
index 84572a2..d216a9a 100644
--- a/include/spb/concepts.h
+++ b/include/spb/concepts.h
@@ -65,7 +65,7 @@ concept proto_field_string = container<T> && std::is_same_v<typename std::decay_
 
 template <class T>
 concept proto_field_string_resizable = proto_field_string<T> && requires(T obj) {
-    { obj.append("1", 1) };
+    { obj.resize(1) };
     { obj.clear() };
 };
 
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index f3375fe..b99c76d 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -518,7 +518,9 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
 
         if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
         {
-            value.append(str, size);
+            const auto offset = value.size();
+            value.resize(offset + size);
+            std::copy_n(str, size, value.data() + offset);
         }
         else
         {
-- 
2.43.0


From c948de1ce8a976f082ef99e1bb6e4fdf899cbed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 46/70] fix: undefined behaviour when an empty string is
 written to a buffer

---
 include/spb/json/serialize.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index 1013b1e..e54f5f7 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -69,6 +69,9 @@ struct ostream_buffer
 
     void write(const void *data, size_t data_size) noexcept
     {
+        if (data_size == 0)
+            return;
+
         memcpy(p_buffer, data, data_size);
         p_buffer += data_size;
     }
-- 
2.43.0


From f092727ef16cba991d6f770e558d2208b23f250e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:44 +0000
Subject: [PATCH 47/70] fix: decode escape sequences in base64 strings

---
 include/spb/json/base64.h | 70 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index e5ffbd9..36c8fa5 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -60,6 +60,69 @@ void base64_encode(auto &output, std::span<const std::byte> input)
     }
 }
 
+//
+//- decode the rest of a base64 string which contains JSON escape sequences (eg. "\/")
+//
+template <typename istream>
+void base64_decode_escaped(spb::detail::proto_field_bytes auto &output, istream &stream, size_t out_index,
+                           size_t max_output_size, const uint8_t (&decode_table)[256])
+{
+    auto is_last = false;
+    while (!is_last)
+    {
+        uint8_t quad[4];
+        for (auto &c : quad)
+        {
+            c = uint8_t(stream.view(1, UINT32_MAX)[0]);
+            stream.skip(1);
+            if (c == '\\')
+            {
+                char utf8[4];
+                (void)stream.view(1, UINT32_MAX);
+                if (unescape(stream, utf8) != 1) [[unlikely]]
+                    throw std::runtime_error("invalid base64");
+                c = uint8_t(utf8[0]);
+            }
+            else if (c == '"') [[unlikely]]
+                throw std::runtime_error("invalid base64");
+        }
+        is_last = stream.view(1, UINT32_MAX)[0] == '"';
+
+        const auto padding_size = !is_last || quad[3] != '=' ? 0U : quad[2] != '=' ? 1U : 2U;
+        auto bits               = uint32_t(0);
+        for (auto i = 0U; i < 4U; i++)
+        {
+            const auto value = i + padding_size < 4U ? decode_table[quad[i]] : uint8_t(0);
+            if (value & 128) [[unlikely]]
+                throw std::runtime_error("invalid base64");
+            bits = (bits << 6U) | value;
+        }
+
+        const auto out_size = 3U - padding_size;
+        if constexpr (spb::detail::proto_field_bytes_resizable<decltype(output)>)
+        {
+            if (max_output_size && (out_index + out_size > max_output_size)) [[unlikely]]
+                throw std::length_error("bytes is too large");
+
+            output.resize(out_index + out_size);
+        }
+        else
+        {
+            if (out_size > output.size() - out_index) [[unlikely]]
+                throw std::runtime_error("too large base64");
+        }
+        for (auto i = 0U; i < out_size; i++)
+        {
+            output.data()[out_index++] = std::byte(bits >> (16U - 8U * i));
+        }
+    }
+    if (out_index != output.size()) [[unlikely]]
+        throw std::runtime_error("too short base64");
+
+    stream.skip(1);
+    stream.skip_white_spaces();
+}
+
 template <typename istream>
 void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &stream,
                           size_t max_output_size = 0)
@@ -109,6 +172,13 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
         auto view      = stream.view(1, UINT32_MAX);
         auto length    = view.find('"');
         auto end_found = length < view.npos;
+        if (view.substr(0, length).find('\\') != view.npos) [[unlikely]]
+        {
+            if (mask & 128) [[unlikely]]
+                throw std::runtime_error("invalid base64");
+
+            return base64_decode_escaped(output, stream, out_index, max_output_size, decode_table);
+        }
         if ((end_found && length % 4 != 0) || view.size() <= 4) [[unlikely]]
             throw std::runtime_error("invalid base64");
 
-- 
2.43.0


From dad0759eb1de969c405786ad510086fee0e94c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:15 +0000
Subject: [PATCH 48/70] fix: time of serialize_size doubled with every nested
 message

---
 include/spb/pb/serialize.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index 3b78e5e..4d351ca 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -280,14 +280,26 @@ void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_fi
         stream.write(value.data(), value.size());
 }
 
+/**
+ * @brief serialize message with already known size, `ostream_size` doesn't need to visit the message again
+ *        (every level of nesting would double the time)
+ */
+void serialize_sized(auto &stream, size_t size, const spb::detail::proto_message auto &value)
+{
+    serialize_varint(stream, size);
+    if constexpr (std::remove_cvref_t<decltype(stream)>::size_only)
+        stream.size += size;
+    else
+        serialize_value(stream, value);
+}
+
 template <serialize_mode mode>
 void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_message auto &value)
 {
     const auto size = serialize_size<mode>(value);
 
     serialize_tag(stream, field, wire_type::length_delimited);
-    serialize_varint(stream, size);
-    serialize_value(stream, value);
+    serialize_sized(stream, size, value);
 }
 
 template <serialize_mode mode>
@@ -324,8 +336,15 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &
         const auto size = serialize_size<key_encoder>(1, k) + serialize_size<value_encoder>(2, v);
         serialize_tag(stream, field, wire_type::length_delimited);
         serialize_varint(stream, size);
-        serialize<key_encoder>(stream, 1, k);
-        serialize<value_encoder>(stream, 2, v);
+        if constexpr (std::remove_cvref_t<decltype(stream)>::size_only)
+        {
+            stream.size += size;
+        }
+        else
+        {
+            serialize<key_encoder>(stream, 1, k);
+            serialize<value_encoder>(stream, 2, v);
+        }
     }
 }
 
@@ -394,8 +413,7 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_message au
         return;
 
     serialize_tag(stream, field, wire_type::length_delimited);
-    serialize_varint(stream, size);
-    serialize_value(stream, value);
+    serialize_sized(stream, size, value);
 }
 
 template <serialize_mode mode> auto serialize_size(const auto &value) -> size_t
-- 
2.43.0


From b24a93e4c87887a2ee654b845a9324462c4925e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 49/70] fix: reject int64 values that do not fit into the
 smaller type of the field

An int64 field with option type int32, int16 or int8 (or a bit field of one of
these types) took values outside of the range and stored their low bits.
---
 include/spb/pb/deserialize.hpp              | 12 ++++++------
 include/spb/pb/wire-types.h                 |  2 ++
 src/spb-proto-compiler/dumper/pb/dumper.cpp |  7 +++++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index b220510..4aff285 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -265,7 +265,7 @@ void check_if_empty_or_throw(auto &stream)
     return result;
 }
 
-template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
+template <typename T, bool narrow_int64 = false> [[nodiscard]] auto read_varint(auto &stream) -> T
 {
     if constexpr (std::is_same_v<T, bool>)
     {
@@ -289,10 +289,10 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
             value |= uint64_t(byte & 0x7F) << shift;
             if ((byte & 0x80) == 0)
             {
-                if constexpr (std::is_signed_v<T> && sizeof(T) < sizeof(int32_t))
+                if constexpr (std::is_signed_v<T> && (sizeof(T) < sizeof(int32_t) || narrow_int64))
                 {
-                    //- narrow types (int8, int16) must not be silently truncated
-                    const auto wide = value <= UINT32_MAX ? int64_t(int32_t(value)) : int64_t(value);
+                    //- narrow types (int8, int16, int32 for int64) must not be silently truncated
+                    const auto wide = !narrow_int64 && value <= UINT32_MAX ? int64_t(int32_t(value)) : int64_t(value);
                     if (wide < std::numeric_limits<T>::min() || wide > std::numeric_limits<T>::max())
                         [[unlikely]]
                         break;
@@ -372,7 +372,7 @@ auto deserialize_bitfield(auto &stream, uint32_t bits, wire_type type) -> T
     else if constexpr (scalar_encoder(mode.encoder) == scalar_encoder::varint)
     {
         check_wire_type_or_throw(type, wire_type::varint);
-        value = read_varint<T>(stream);
+        value = read_varint<T, mode.narrow_int64>(stream);
     }
     else if constexpr (scalar_encoder(mode.encoder) == scalar_encoder::i32)
     {
@@ -447,7 +447,7 @@ void deserialize(auto &stream, spb::detail::proto_field_int_or_float auto &value
         {
             check_wire_type_or_throw(type, wire_type::varint);
         }
-        value = read_varint<T>(stream);
+        value = read_varint<T, mode.narrow_int64>(stream);
     }
     else if constexpr (scalar_encoder(mode.encoder) == scalar_encoder::i32)
     {
diff --git a/include/spb/pb/wire-types.h b/include/spb/pb/wire-types.h
index 204f5ab..9116d23 100644
--- a/include/spb/pb/wire-types.h
+++ b/include/spb/pb/wire-types.h
@@ -59,6 +59,8 @@ struct serialize_mode
     scalar_encoder encoder2 = {};
     size_t max_count        = 0;
     size_t max_size         = 0;
+    //- int64 kept in a smaller type
+    bool narrow_int64 = false;
 };
 
 constexpr auto make_packed(scalar_encoder a) noexcept -> scalar_encoder
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index f00bdb2..4ea3f94 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -136,6 +136,8 @@ void dump_serialize_mode(std::ostream &stream, const proto_file &file, const pro
     const auto encoder   = encoder_type_str(file, field);
     const auto max_count = field_max_count(file, message, field);
     const auto max_size  = field_max_size(file, message, field);
+    const auto narrow_int64 =
+        field.type == proto_field::Type::INT64 && field.bit_type != proto_field::BitType::NONE;
 
     stream << "serialize_mode";
 
@@ -158,7 +160,12 @@ void dump_serialize_mode(std::ostream &stream, const proto_file &file, const pro
         next = ", ";
     }
     if (max_size)
+    {
         stream << next << ".max_size = " << max_size;
+        next = ", ";
+    }
+    if (narrow_int64)
+        stream << next << ".narrow_int64 = true";
     stream << "}";
 }
 
-- 
2.43.0


From d740e4bf542a402a769a9a897b8458219c3ace99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 50/70] fix: hex numbers beginning with a letter (0xa) were
 read as 0

---
 src/spb-proto-compiler/parser/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 3a94418..c002281 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -97,7 +97,7 @@ auto consume_number(spb::char_stream &stream, std::integral auto &number) -> boo
         if (stream.consume('x') || stream.consume('X'))
             base = 16;
 
-        if (!::isdigit(stream.current_char()))
+        if (base == 16 ? !::isxdigit(stream.current_char()) : !::isdigit(stream.current_char()))
             return true;
     }
     auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
-- 
2.43.0


From 716632850008b258f03ac277ffe25cd9e28bc088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 51/70] fix: options in a comment below a statement with a
 trailing comment were applied to that statement

---
 src/spb-proto-compiler/parser/parser.cpp | 49 ++++++++++++++----------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index c002281..0669085 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -191,28 +191,32 @@ void parse_comment_multiline(spb::char_stream &stream, proto_comment &comment)
 }
 
 //- parse // \n or /**/
+void parse_single_comment(spb::char_stream &stream, proto_comment &comment)
+{
+    stream.consume_current_char(false);
+    if (stream.current_char() == '/')
+    {
+        stream.consume_current_char(false);
+        parse_comment_line(stream, comment);
+    }
+    else if (stream.current_char() == '*')
+    {
+        stream.consume_current_char(false);
+        parse_comment_multiline(stream, comment);
+    }
+    else
+    {
+        stream.throw_parse_error("expecting // or /*");
+    }
+}
+
 auto parse_comment(spb::char_stream &stream) -> proto_comment
 {
     auto result = proto_comment{};
 
     while (stream.current_char() == '/')
-    {
-        stream.consume_current_char(false);
-        if (stream.current_char() == '/')
-        {
-            stream.consume_current_char(false);
-            parse_comment_line(stream, result);
-        }
-        else if (stream.current_char() == '*')
-        {
-            stream.consume_current_char(false);
-            parse_comment_multiline(stream, result);
-        }
-        else
-        {
-            stream.throw_parse_error("expecting // or /*");
-        }
-    }
+        parse_single_comment(stream, result);
+
     return result;
 }
 
@@ -353,11 +357,14 @@ void consume_statement_end(spb::char_stream &stream, proto_comment &comment)
 
     stream.consume_current_char(false);
     skip_white_space_until_new_line(stream);
-    if (stream.current_char() == '/')
+    while (stream.current_char() == '/')
     {
-        const auto line_comment = parse_comment(stream);
-        comment.comments.insert(comment.comments.end(), line_comment.comments.begin(),
-                                line_comment.comments.end());
+        parse_single_comment(stream, comment);
+
+        //- comments on the following lines belong to the next statement
+        const auto *end = comment.comments.back().data() + comment.comments.back().size();
+        if (std::string_view(end, size_t(stream.begin() - end)).find('\n') != std::string_view::npos)
+            break;
     }
     stream.consume_space();
 }
-- 
2.43.0


From 65fbc2f50c56d8b58a00a738baecc9f5fe454f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 52/70] fix: syntax = 'proto3' in single quotes was rejected

---
 src/spb-proto-compiler/parser/parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 0669085..cf0c412 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -376,13 +376,13 @@ void parse_top_level_syntax_body(spb::char_stream &stream, proto_syntax &syntax,
     consume_or_fail(stream, '=');
 
     syntax.comments = std::move(comment);
-    if (stream.consume(R"("proto2")"))
+    if (stream.consume(R"("proto2")") || stream.consume("'proto2'"))
     {
         syntax.version = 2;
         return consume_statement_end(stream, syntax.comments);
     }
 
-    if (stream.consume(R"("proto3")"))
+    if (stream.consume(R"("proto3")") || stream.consume("'proto3'"))
     {
         syntax.version = 3;
         return consume_statement_end(stream, syntax.comments);
-- 
2.43.0


From c73cca9bf9b04baacbc0b685d1537eafb2a5a575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 53/70] fix: fields with a type nested in a message which is
 just being defined were rejected

---
 .../ast/ast-messages-order.cpp                | 204 ++++++++----------
 1 file changed, 84 insertions(+), 120 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index d88ef7b..70078db 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -17,6 +17,7 @@
 #include <array>
 #include <cerrno>
 #include <cstddef>
+#include <optional>
 #include <parser/char_stream.h>
 #include <string_view>
 
@@ -85,25 +86,16 @@ auto get_type_part(const proto_field &field, size_t type_part) -> std::string_vi
 }
 
 /**
- * @brief if the field is self-referencing and can be forward declared
- *        field label must be LABEL_OPTIONAL or LABEL_PTR or LABEL_REPEATED
+ * @brief type of the field is the message with the field or a message around it, such a type is
+ *        incomplete and the field label must be LABEL_OPTIONAL or LABEL_PTR or LABEL_REPEATED
  *
- * @param field filed
  * @param ctx search context
- * @return true if field can be forward declared
+ * @param field filed
+ * @return true if field can be defined
  */
 [[nodiscard]]
-auto is_self(const search_ctx &ctx, proto_field &field, size_t type_part) -> bool
+auto is_self_resolved(const search_ctx &ctx, proto_field &field) -> bool
 {
-    if (field.type != proto_field::Type::MESSAGE)
-        return false;
-
-    if (!is_last_part(field, type_part))
-        return false;
-
-    if (get_type_part(field, type_part) != ctx.message.name.proto_name)
-        return false;
-
     switch (field.label)
     {
     case proto_field::Label::NONE:
@@ -122,17 +114,8 @@ auto is_self(const search_ctx &ctx, proto_field &field, size_t type_part) -> boo
 }
 
 [[nodiscard]]
-auto is_self(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool
+auto is_self_resolved(const search_ctx &, const proto_field &field) -> bool
 {
-    if (field.type != proto_field::Type::MESSAGE)
-        return false;
-
-    if (!is_last_part(field, type_part))
-        return false;
-
-    if (get_type_part(field, type_part) != ctx.message.name.proto_name)
-        return false;
-
     switch (field.label)
     {
     case proto_field::Label::REPEATED:
@@ -147,60 +130,55 @@ auto is_self(const search_ctx &ctx, const proto_field &field, size_t type_part)
  * @brief if this dependency can be forward declared, do it
  *        field label must be LABEL_REPEATED or LABEL_PTR
  *
- * @param ctx search context
+ * @param scope scope where the message is defined
+ * @param message type of the field
  * @param field field
  * @return true if field can be forward declared
  */
 [[nodiscard]]
-auto is_forwarded(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
+auto is_forwarded(search_ctx &scope, const proto_message &message, proto_field &field) -> bool
 {
-    if (ctx.p_parent == nullptr)
-        return false;
-
-    if (!is_last_part(field, type_part))
-        return false;
-
-    for (const auto &message : ctx.p_parent->message.messages)
+    switch (field.label)
     {
-        if (get_type_part(field, type_part) != message.name.proto_name)
-            continue;
-
-        switch (field.label)
+    case proto_field::Label::NONE:
+        return false;
+    case proto_field::Label::OPTIONAL:
+        switch (scope.state.mode)
         {
-        case proto_field::Label::NONE:
+        case search_state::dependencies_only:
             return false;
-        case proto_field::Label::OPTIONAL:
-            switch (ctx.state.mode)
-            {
-            case search_state::dependencies_only:
-                return false;
-
-            case search_state::optional_pointers:
-                field.label = proto_field::Label::PTR;
-                //
-                //- revert the mode to dependencies_only and try again
-                //- reason is to create as little pointers as possible
-                //
-                ctx.state.mode = search_state::dependencies_only;
-            }
-            [[fallthrough]];
-        case proto_field::Label::REPEATED:
-        case proto_field::Label::PTR:
-            ctx.p_parent->message.forwards.insert(message.name.proto_name);
-            return true;
+
+        case search_state::optional_pointers:
+            field.label = proto_field::Label::PTR;
+            //
+            //- revert the mode to dependencies_only and try again
+            //- reason is to create as little pointers as possible
+            //
+            scope.state.mode = search_state::dependencies_only;
         }
+        [[fallthrough]];
+    case proto_field::Label::REPEATED:
+    case proto_field::Label::PTR:
+        scope.message.forwards.insert(message.name.proto_name);
+        return true;
     }
     return false;
 }
 
+[[nodiscard]]
+auto is_forwarded(const search_ctx &, const proto_message &, const proto_field &) -> bool
+{
+    return false;
+}
+
 [[nodiscard]]
 auto get_sub_message(const proto_message &message, const proto_field &field, size_t type_part)
     -> const proto_message *
 {
     const auto type_name = get_type_part(field, type_part);
-    const auto index     = std::find_if(
-        message.messages.begin(), message.messages.end(), [type_name](const auto &sub_message) -> bool
-        { return type_name == sub_message.name.proto_name && sub_message.resolved > 0; });
+    const auto index     = std::find_if(message.messages.begin(), message.messages.end(),
+                                        [type_name](const auto &sub_message) -> bool
+                                        { return type_name == sub_message.name.proto_name; });
     return (index != message.messages.end()) ? &*index : nullptr;
 }
 
@@ -231,86 +209,72 @@ auto is_enum(const proto_message &message, const proto_field &field, size_t type
 }
 
 [[nodiscard]]
-auto resolve_from_message(const proto_message &message, const proto_field &field, size_t type_part) -> bool
+auto has_type(const proto_message &message, const proto_field &field, size_t type_part) -> bool
 {
-    if (const auto type = is_enum(message, field, type_part); type)
-        return type;
-
-    if (const auto *sub_message = get_sub_message(message, field, type_part); sub_message)
-    {
-        if (is_last_part(field, type_part))
-            return true;
-
-        return resolve_from_message(*sub_message, field, type_part + 1);
-    }
+    if (is_enum(message, field, type_part))
+        return true;
 
-    return false;
+    const auto *sub_message = get_sub_message(message, field, type_part);
+    return sub_message && (is_last_part(field, type_part) || has_type(*sub_message, field, type_part + 1));
 }
 
 [[nodiscard]]
-auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> bool;
-
-[[nodiscard]]
-auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool;
-
-[[nodiscard]]
-auto resolve_from_parent(const search_ctx &self, proto_field &field, size_t type_part) -> bool
+auto resolve_from_imports(const search_ctx &self, const proto_field &field) -> bool
 {
-    if (!self.p_parent || type_part > 0)
-        return false;
-
-    return resolve_field(*self.p_parent, field, type_part);
+    return resolve_type_from_imports(self.state.file, field) != proto_field::Type::NONE;
 }
 
+/**
+ * @brief find the type of the field in the `scope`
+ *
+ * @param self message with the field
+ * @param scope message around the field (or `self`)
+ * @param field field
+ * @param type_part first part of the type name to look for
+ * @return no value if there is no such type in the `scope`, otherwise true if the type can be used
+ */
 [[nodiscard]]
-auto resolve_from_parent(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
+auto resolve_from_scope(search_ctx &self, search_ctx &scope, auto &field, size_t type_part) -> std::optional<bool>
 {
-    if (!self.p_parent || type_part > 0)
-        return false;
+    if (is_enum(scope.message, field, type_part))
+        return true;
 
-    return resolve_field(*self.p_parent, field, type_part);
-}
+    const auto *message = get_sub_message(scope.message, field, type_part);
+    if (!message)
+        return {};
 
-[[nodiscard]]
-auto resolve_from_imports(const search_ctx &self, const proto_field &field, size_t type_part) -> bool
-{
-    if (type_part > 0)
-        return false;
+    //- message in the `scope` which is just being defined (null if its the `scope`)
+    auto *p_inner = &self != &scope ? &self : nullptr;
+    while (p_inner && p_inner->p_parent != &scope)
+        p_inner = p_inner->p_parent;
 
-    return resolve_type_from_imports(self.state.file, field) != proto_field::Type::NONE;
-}
-
-[[nodiscard]]
-auto resolve_field(const search_ctx &ctx, const proto_field &field, size_t type_part) -> bool
-{
-    if (is_scalar(field.type) || is_self(ctx, field, type_part))
-        return true;
+    if (p_inner && &p_inner->message == message)
+    {
+        if (is_last_part(field, type_part))
+            return is_self_resolved(self, field);
 
-    if (resolve_from_message(ctx.message, field, type_part))
-        return true;
+        return resolve_from_scope(self, *p_inner, field, type_part + 1);
+    }
 
-    if (resolve_from_parent(ctx, field, type_part))
-        return true;
+    if (!is_last_part(field, type_part))
+        return has_type(*message, field, type_part + 1) ? std::optional(message->resolved > 0) : std::nullopt;
 
-    return resolve_from_imports(ctx, field, type_part);
+    return message->resolved > 0 || (p_inner && is_forwarded(scope, *message, field));
 }
 
 [[nodiscard]]
-auto resolve_field(search_ctx &ctx, proto_field &field, size_t type_part) -> bool
+auto resolve_field(search_ctx &ctx, auto &field) -> bool
 {
-    if (is_scalar(field.type) || is_self(ctx, field, type_part))
-        return true;
-
-    if (resolve_from_message(ctx.message, field, type_part))
+    if (is_scalar(field.type))
         return true;
 
-    if (resolve_from_parent(ctx, field, type_part))
-        return true;
-
-    if (resolve_from_imports(ctx, field, type_part))
-        return true;
+    for (auto *p_scope = &ctx; p_scope != nullptr; p_scope = p_scope->p_parent)
+    {
+        if (const auto result = resolve_from_scope(ctx, *p_scope, field, 0); result)
+            return *result;
+    }
 
-    return is_forwarded(ctx, field, type_part);
+    return resolve_from_imports(ctx, field);
 }
 
 void resolve_message_fields(search_ctx &ctx)
@@ -320,13 +284,13 @@ void resolve_message_fields(search_ctx &ctx)
 
     for (auto &field : ctx.message.fields)
     {
-        if (!resolve_field(ctx, field, 0))
+        if (!resolve_field(ctx, field))
             return;
     }
 
     for (const auto &map : ctx.message.maps)
     {
-        if (!resolve_field(ctx, map.value, 0))
+        if (!resolve_field(ctx, map.value))
             return;
     }
 
@@ -334,7 +298,7 @@ void resolve_message_fields(search_ctx &ctx)
     {
         for (const auto &field : oneof.fields)
         {
-            if (!resolve_field(ctx, field, 0))
+            if (!resolve_field(ctx, field))
                 return;
         }
     }
-- 
2.43.0


From f77a6d3a939f94e87f73d30503123281b15004d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 54/70] fix: type qualified by the package was searched for in
 nested messages

---
 src/spb-proto-compiler/ast/ast-messages-order.cpp | 3 +++
 src/spb-proto-compiler/ast/ast-types.cpp          | 8 ++++++--
 src/spb-proto-compiler/ast/proto-field.h          | 2 ++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-messages-order.cpp b/src/spb-proto-compiler/ast/ast-messages-order.cpp
index 70078db..e1052ab 100644
--- a/src/spb-proto-compiler/ast/ast-messages-order.cpp
+++ b/src/spb-proto-compiler/ast/ast-messages-order.cpp
@@ -270,6 +270,9 @@ auto resolve_field(search_ctx &ctx, auto &field) -> bool
 
     for (auto *p_scope = &ctx; p_scope != nullptr; p_scope = p_scope->p_parent)
     {
+        if (field.is_top_level_type && p_scope->p_parent)
+            continue;
+
         if (const auto result = resolve_from_scope(ctx, *p_scope, field, 0); result)
             return *result;
     }
diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index 4660963..b6b99b8 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -317,7 +317,9 @@ auto resolve_type(const search_ctx &self, const proto_field &field, size_t type_
     if (const auto type = get_scalar_type(self.file, field, type_part); type.first)
         return type;
 
-    if (const auto type = resolve_from_message(self.message, field, type_part); type)
+    const auto is_scope = !field.is_top_level_type || !self.p_parent;
+    if (const auto type = is_scope ? resolve_from_message(self.message, field, type_part) : proto_field::Type::NONE;
+        type)
         return {type, proto_field::BitType::NONE};
 
     if (const auto type = resolve_from_parent(self, field, type_part); type)
@@ -350,6 +352,7 @@ void remove_own_package(const search_ctx &self, proto_field &field)
     if (is_absolute)
         name.proto_name.remove_prefix(1);
 
+    field.is_top_level_type = is_absolute;
     if (name.proto_name.find('.') == name.proto_name.npos || (!is_absolute && is_visible_message(self, field)))
         return;
 
@@ -361,7 +364,8 @@ void remove_own_package(const search_ctx &self, proto_field &field)
             auto local_field = proto_field{.type_name = {.proto_name = name.proto_name.substr(scope.size() + 1)}};
             if (resolve_from_message(self.file.package, local_field, 0) != proto_field::Type::NONE)
             {
-                name.proto_name = local_field.type_name.proto_name;
+                name.proto_name         = local_field.type_name.proto_name;
+                field.is_top_level_type = true;
                 return;
             }
         }
diff --git a/src/spb-proto-compiler/ast/proto-field.h b/src/spb-proto-compiler/ast/proto-field.h
index b247718..aae5976 100644
--- a/src/spb-proto-compiler/ast/proto-field.h
+++ b/src/spb-proto-compiler/ast/proto-field.h
@@ -69,6 +69,8 @@ struct proto_field : public proto_base
     Label label = Label::OPTIONAL;
 
     cpp_ident type_name;
+    //- `type_name` starts at the top level of a file (package was removed), do not search for it in messages
+    bool is_top_level_type = false;
 
     BitType bit_type = BitType::NONE;
     std::string_view bit_field;
-- 
2.43.0


From 6544b7987d130d9a967dba800e14f36b20333c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:25 +0000
Subject: [PATCH 55/70] fix: options in comments of map fields were ignored

---
 src/spb-proto-compiler/parser/parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index cf0c412..585cebc 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -793,6 +793,7 @@ auto parse_map_body(spb::char_stream &stream, proto_comment &&comment) -> proto_
     new_map.options = parse_field_options(stream);
     new_map.comment = std::move(comment);
     consume_statement_end(stream, new_map.comment);
+    parse_options_from_comments(stream, new_map.options, new_map.comment);
     return new_map;
 }
 
-- 
2.43.0


From d40615882466b360c564fd176a17278b1bb6c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:04 +0000
Subject: [PATCH 56/70] fix: oneof member of a nested message type with default
 values did not compile (clang)

---
 include/spb/json/deserialize.hpp | 3 ++-
 include/spb/pb/deserialize.hpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index b99c76d..0bf21da 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -890,7 +890,8 @@ template <field_attributes attributes, typename T> T deserialize_bitfield(auto &
 template <field_attributes attributes, size_t ordinal, typename T>
 void deserialize_variant(auto &stream, T &variant)
 {
-    deserialize<attributes>(stream, variant.template emplace<ordinal>());
+    using value_type = std::variant_alternative_t<ordinal, T>;
+    deserialize<attributes>(stream, variant.template emplace<ordinal>(value_type()));
 }
 
 template <field_attributes> void deserialize(auto &stream, spb::detail::proto_message auto &value)
diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 4aff285..807815b 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -775,7 +775,7 @@ void deserialize_variant(auto &stream, T &variant, wire_type type)
             return deserialize<mode>(stream, std::get<ordinal>(variant), type);
     }
 
-    deserialize<mode>(stream, variant.template emplace<ordinal>(), type);
+    deserialize<mode>(stream, variant.template emplace<ordinal>(value_type()), type);
 }
 
 template <serialize_mode>
-- 
2.43.0


From 991a7ee9561acb6b2be5854e3592f8bed0af4350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 57/70] fix: endless loop on a zero byte between top level
 definitions

---
 src/spb-proto-compiler/parser/parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 585cebc..3310aa8 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -1028,7 +1028,10 @@ void parse_top_level(spb::char_stream &stream, proto_file &file, parsing_ctx &ct
     switch (stream.current_char())
     {
     case '\0':
-        return;
+        if (stream.empty())
+            return;
+
+        return stream.throw_parse_error("expecting top level definition");
     case 's':
         return parse_top_level_syntax_or_service(stream, file, std::move(comment));
     case 'i':
-- 
2.43.0


From 568a2c44a80796ea6078dd8a0fea8b1aefc802bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 58/70] fix: stack overflow of the compiler on deeply nested
 messages and options

---
 src/spb-proto-compiler/parser/char_stream.h | 20 ++++++++++++++++++++
 src/spb-proto-compiler/parser/parser.cpp    | 12 ++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/src/spb-proto-compiler/parser/char_stream.h b/src/spb-proto-compiler/parser/char_stream.h
index 954694b..6dea738 100644
--- a/src/spb-proto-compiler/parser/char_stream.h
+++ b/src/spb-proto-compiler/parser/char_stream.h
@@ -31,6 +31,8 @@ struct char_stream
     const char *p_end = nullptr;
     //- current char
     char m_current = {};
+    //- number of nested definitions being parsed
+    size_t m_nesting = 0;
 
     /**
      * @brief gets the next char from the stream
@@ -143,6 +145,24 @@ struct char_stream
         update_current(true);
     }
 
+    /**
+     * @brief starts a nested definition
+     *
+     * @throws if there are too many of them, a parser of nested definitions is recursive
+     */
+    void enter_nested()
+    {
+        static constexpr auto max_nesting = size_t(100);
+
+        if (++m_nesting > max_nesting)
+            throw_parse_error("too many nested definitions");
+    }
+
+    void leave_nested() noexcept
+    {
+        m_nesting -= 1;
+    }
+
     [[nodiscard]] auto content() const noexcept -> std::string_view
     {
         return {begin(), size_t(end() - begin())};
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 3310aa8..3ddfe5c 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -461,10 +461,13 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 {
     auto *current = &options;
     auto *option  = (proto_option *)nullptr;
+    auto nesting  = size_t(0);
     //- ( ident | "(" fullIdent ")" ) { "." ident }
     parse_comment(stream);
     do
     {
+        stream.enter_nested();
+        nesting += 1;
         const auto full_ident = stream.consume('(');
         const auto ident =
             full_ident ? parse_full_ident(stream).proto_name : parse_ident(stream, false).proto_name;
@@ -475,6 +478,9 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
         current = option->options.empty() ? &option->options.emplace_back() : &option->options.front();
     } while (stream.consume('.'));
 
+    for (; nesting > 0; nesting--)
+        stream.leave_nested();
+
     stream.consume_space();
     return *option;
 }
@@ -503,16 +509,19 @@ void parse_option_value(spb::char_stream &stream, proto_option &value);
 void parse_option_array(spb::char_stream &stream, proto_option &value)
 {
     consume_or_fail(stream, '[');
+    stream.enter_nested();
     while (!stream.consume(']'))
     {
         parse_option_value(stream, value);
         (void)stream.consume(',');
     }
+    stream.leave_nested();
 }
 
 void parse_option_struct(spb::char_stream &stream, proto_option &value)
 {
     consume_or_fail(stream, '{');
+    stream.enter_nested();
     auto &options = value.options.emplace_back();
     while (!stream.consume('}'))
     {
@@ -521,6 +530,7 @@ void parse_option_struct(spb::char_stream &stream, proto_option &value)
         parse_option_value(stream, options[option_name]);
         (void)stream.consume(',');
     }
+    stream.leave_nested();
 }
 
 void parse_option_value(spb::char_stream &stream, proto_option &option)
@@ -867,6 +877,7 @@ void parse_message_body(spb::char_stream &stream, proto_messages &messages, prot
     }};
 
     consume_or_fail(stream, '{');
+    stream.enter_nested();
     parse_options_from_comments(stream, new_message.options, new_message.comment);
 
     while (!stream.consume('}'))
@@ -887,6 +898,7 @@ void parse_message_body(spb::char_stream &stream, proto_messages &messages, prot
             parse_field(stream, new_message.fields, std::move(comment));
         }
     }
+    stream.leave_nested();
     messages.push_back(new_message);
 }
 
-- 
2.43.0


From 8552d1daf6616c5b703e7c530959d968cd89b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 59/70] fix: compile time exponential in the depth of imports,
 file importing itself as ./file.proto

---
 src/spb-proto-compiler/ast/ast-types.cpp |  6 +++---
 src/spb-proto-compiler/ast/proto-file.h  | 16 ++++++++++++----
 src/spb-proto-compiler/dumper/header.cpp |  4 ++--
 src/spb-proto-compiler/parser/parser.cpp | 22 +++++++++++++---------
 src/spb-proto-compiler/parser/parser.h   |  7 +++++--
 5 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index b6b99b8..1e7ede4 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -262,10 +262,10 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
 {
     for (const auto &public_import : import.imports)
     {
-        if (!public_import.is_public_import)
+        if (!public_import.is_public)
             continue;
 
-        if (const auto type = resolve_from_import(public_import, field, scope); type)
+        if (const auto type = resolve_from_import(*public_import.file, field, scope); type)
             return type;
     }
 
@@ -436,7 +436,7 @@ auto resolve_type_from_imports(const proto_file &file, const proto_field &field)
 {
     for (const auto &import : file.imports)
     {
-        if (const auto type = resolve_from_import(import, field, file.package.name.proto_name); type)
+        if (const auto type = resolve_from_import(*import.file, field, file.package.name.proto_name); type)
             return type;
     }
 
diff --git a/src/spb-proto-compiler/ast/proto-file.h b/src/spb-proto-compiler/ast/proto-file.h
index 45d010f..184b298 100644
--- a/src/spb-proto-compiler/ast/proto-file.h
+++ b/src/spb-proto-compiler/ast/proto-file.h
@@ -19,12 +19,22 @@
 #include "proto-service.h"
 #include "proto-syntax.h"
 #include <filesystem>
+#include <memory>
 #include <string>
 #include <vector>
 
 struct proto_file;
 
-using proto_files = std::vector<proto_file>;
+struct proto_import
+{
+    //- the same file can be imported from more than one file
+    std::shared_ptr<const proto_file> file;
+    proto_comment comment;
+    //- types of this file are visible in files importing the file which imports this one
+    bool is_public = false;
+};
+
+using proto_imports = std::vector<proto_import>;
 
 struct proto_file
 {
@@ -32,9 +42,7 @@ struct proto_file
     std::string content;
     proto_syntax syntax;
     proto_comment comment;
-    proto_files imports;
-    //- types of this file are visible in files importing the file which imports this one
-    bool is_public_import = false;
+    proto_imports imports;
     proto_message package;
     proto_extends extends;
     proto_options options;
diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 7cd6b3e..2f200bf 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -105,10 +105,10 @@ void get_imports(cpp_includes &includes, const proto_file &file)
 {
     for (const auto &import : file.imports)
     {
-        if (file.attributes.exclude.contains(import.path.filename().string()))
+        if (file.attributes.exclude.contains(import.file->path.filename().string()))
             continue;
 
-        includes.insert("\"" + cpp_file_name_from_proto(import.path, ".pb.h").string() + "\"");
+        includes.insert("\"" + cpp_file_name_from_proto(import.file->path, ".pb.h").string() + "\"");
     }
 }
 
diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 3ddfe5c..501b586 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -423,16 +423,20 @@ void parse_top_level_import(spb::char_stream &stream, proto_file &file, parsing_
         try
         {
             const auto import_file_path = find_file_in_paths(import_name, import_ctx);
-            if (!ctx.already_parsed.insert(import_file_path.string()).second)
-                return;
+            const auto [it, is_new] = ctx.already_parsed.try_emplace(fs::canonical(import_file_path).string());
+            auto &p_file = it->second;
+            if (is_new)
+                p_file = std::make_shared<const proto_file>(parse_proto_file(import_file_path, import_ctx));
 
-            auto &import            = file.imports.emplace_back(parse_proto_file(import_file_path, import_ctx));
-            import.comment          = std::move(import_comment);
-            import.is_public_import = is_public;
+            //- cyclic imports are ignored
+            if (!p_file)
+                return;
 
-            //- `already_parsed` detects cyclic imports only,
-            //- the same file can be imported from more than one file
-            ctx.already_parsed.erase(import_file_path.string());
+            file.imports.push_back({
+                .file      = p_file,
+                .comment   = std::move(import_comment),
+                .is_public = is_public,
+            });
         }
         catch (const std::runtime_error &)
         {
@@ -1122,7 +1126,7 @@ auto parse_proto_file(const fs::path &file, std::span<const fs::path> import_pat
         .import_paths   = import_paths,
     };
     const auto file_path = find_file_in_paths(file, ctx);
-    already_parsed.insert(file_path.string());
+    already_parsed.try_emplace(fs::canonical(file_path).string());
     return parse_proto_file(file_path, ctx);
 }
 
diff --git a/src/spb-proto-compiler/parser/parser.h b/src/spb-proto-compiler/parser/parser.h
index b11144f..ae27050 100644
--- a/src/spb-proto-compiler/parser/parser.h
+++ b/src/spb-proto-compiler/parser/parser.h
@@ -12,8 +12,10 @@
 
 #include "ast/proto-file.h"
 #include <filesystem>
-#include <set>
+#include <map>
+#include <memory>
 #include <span>
+#include <string>
 #include <string_view>
 
 /**
@@ -47,7 +49,8 @@ auto parse_proto_file(const std::filesystem::path &file_path,
                       const std::filesystem::path &base_dir = std::filesystem::current_path()) -> proto_file;
 
 namespace fs       = std::filesystem;
-using parsed_files = std::set<std::string>;
+//- parsed files by their path, empty pointer is a file which is being parsed
+using parsed_files = std::map<std::string, std::shared_ptr<const proto_file>>;
 
 struct parsing_ctx
 {
-- 
2.43.0


From 8d0115a0246d584d46d244d84bb5d64324a854b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 60/70] fix: compiler aborted on an empty path in its arguments

---
 src/spb-proto-compiler/main.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/spb-proto-compiler/main.cpp b/src/spb-proto-compiler/main.cpp
index 5e6449a..79011c8 100644
--- a/src/spb-proto-compiler/main.cpp
+++ b/src/spb-proto-compiler/main.cpp
@@ -103,6 +103,7 @@ void process_file(const fs::path &input_file, std::span<const fs::path> import_p
 } // namespace
 
 auto main(int argc, char *argv[]) -> int
+try
 {
     if (argc < 2)
     {
@@ -192,18 +193,15 @@ auto main(int argc, char *argv[]) -> int
         return 1;
     }
 
-    try
+    for (const auto &input_file : input_files)
     {
-        for (const auto &input_file : input_files)
-        {
-            process_file(input_file, import_paths, output_dir);
-        }
-    }
-    catch (const std::exception &e)
-    {
-        std::cerr << e.what() << '\n';
-        return 1;
+        process_file(input_file, import_paths, output_dir);
     }
 
     return 0;
+}
+catch (const std::exception &e)
+{
+    std::cerr << e.what() << '\n';
+    return 1;
 }
\ No newline at end of file
-- 
2.43.0


From 68e8f902ba86aa55b9e444384de60fc6d7fd06eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 61/70] fix: error about an option with a value true or false
 was reported at a foreign address

---
 src/spb-proto-compiler/parser/parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 501b586..499e9f2 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -493,11 +493,13 @@ void parse_top_level_package(spb::char_stream &stream, proto_base &package, prot
 {
     //- fullIdent | ( [ "-" | "+" ] intLit ) | ( [ "-" | "+" ] floatLit ) | strLit | boolLit |
     // MessageValue
+    //- the result is a part of the file, errors are reported at its position
+    const auto *start = stream.begin();
     if (stream.consume("true"))
-        return "true";
+        return {start, 4};
 
     if (stream.consume("false"))
-        return "false";
+        return {start, 5};
 
     const auto c = stream.current_char();
     if (c == '"' || c == '\'')
-- 
2.43.0


From a5fb3f7916c6ec9e62499f09a204b0e39335a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 62/70] fix: fixed size strings counted twice against max_size
 in JSON

---
 include/spb/json/deserialize.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 0bf21da..4694b5d 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -514,7 +514,13 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
     auto append_to_value = [&](const char *str, size_t size)
     {
         if constexpr (attributes.max_size)
-            check_size(value.size() + size, attributes.max_size);
+        {
+            //- a fixed size string has its final size from the beginning
+            if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
+                check_size(value.size() + size, attributes.max_size);
+            else
+                check_size(index + size, attributes.max_size);
+        }
 
         if constexpr (spb::detail::proto_field_string_resizable<decltype(value)>)
         {
-- 
2.43.0


From 4aa3032db924e43852c40561b8de38a9792e0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 63/70] fix: string keys of a map in a container other than
 std::string were quoted twice in JSON

---
 include/spb/json/deserialize.hpp | 2 +-
 include/spb/json/serialize.hpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 4694b5d..1deff83 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -703,7 +703,7 @@ void deserialize(auto &stream, spb::detail::proto_field_bytes auto &value)
 
 template <field_attributes attributes, typename T> void deserialize_map_key(auto &stream, T &map_key)
 {
-    if constexpr (std::is_same_v<T, std::string>)
+    if constexpr (spb::detail::proto_field_string<T>)
     {
         deserialize<attributes>(stream, map_key);
     }
diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index e54f5f7..914c28c 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -457,11 +457,11 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     stream.put_comma = false;
     for (const auto &[map_key, map_value] : map)
     {
-        if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
+        if constexpr (std::is_same_v<key_type, std::string_view> || spb::detail::proto_field_string<key_type>)
         {
             put_comma_if_needed(stream);
             stream.write('"');
-            write_escaped(stream, map_key);
+            write_escaped(stream, std::string_view(map_key.data(), map_key.size()));
             write_string(stream, R"(":)");
         }
         else
-- 
2.43.0


From 4b477433148c38f569d3b72471f298937ee693e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 64/70] fix: spb_msgopt string and bytes were ignored by oneof
 members and map keys and values

---
 src/spb-proto-compiler/dumper/header.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 2f200bf..39ac569 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -350,14 +350,15 @@ void dump_enum(std::ostream &stream, const proto_enum &my_enum, const proto_mess
     stream << "};\n";
 }
 
-void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_file &file)
+void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const proto_message &message,
+                        const proto_file &file)
 {
     dump_comment(stream, oneof.comment);
 
     stream << "std::variant<std::monostate";
     for (const auto &field : oneof.fields)
     {
-        stream << ", " << convert_to_ctype(file, field);
+        stream << ", " << convert_to_ctype(file, field, message);
     }
     stream << "> " << oneof.name.get_name() << ";\n";
 }
@@ -365,8 +366,8 @@ void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const pr
 void dump_message_map(std::ostream &stream, const proto_map &map, const proto_message &message,
                       const proto_file &file)
 {
-    const auto key_type   = convert_to_ctype(file, map.key);
-    const auto value_type = convert_to_ctype(file, map.value);
+    const auto key_type   = convert_to_ctype(file, map.key, message);
+    const auto value_type = convert_to_ctype(file, map.value, message);
 
     dump_comment(stream, map.comment);
     stream << get_map_type(map.attributes.map, message.attributes.map, file.attributes.map, key_type,
@@ -587,8 +588,8 @@ void get_std_includes(std::string_view ctype, std::string_view type, std_include
 void get_std_includes(const proto_map &map, const proto_message &message, const proto_file &file,
                       std_includes &result)
 {
-    const auto key_type   = convert_to_ctype(file, map.key);
-    const auto value_type = convert_to_ctype(file, map.value);
+    const auto key_type   = convert_to_ctype(file, map.key, message);
+    const auto value_type = convert_to_ctype(file, map.value, message);
 
     result.map |= get_map_type(map.attributes.map, message.attributes.map, file.attributes.map, key_type,
                                value_type, "std::map<$, @>")
@@ -607,11 +608,12 @@ void get_std_includes(const proto_field &field, const proto_message &message, co
     get_std_includes(ctype, type, result);
 }
 
-void get_std_includes(const proto_oneof &oneof, const proto_file &file, std_includes &result)
+void get_std_includes(const proto_oneof &oneof, const proto_message &message, const proto_file &file,
+                      std_includes &result)
 {
     for (const auto &field : oneof.fields)
     {
-        get_std_includes(convert_to_ctype(file, field), "", result);
+        get_std_includes(convert_to_ctype(file, field, message), "", result);
     }
 }
 
@@ -625,7 +627,7 @@ void get_std_includes(const proto_message &message, const proto_file &file, std_
     for (const auto &oneof : message.oneofs)
     {
         result.variant = true;
-        get_std_includes(oneof, file, result);
+        get_std_includes(oneof, message, file, result);
     }
 
     for (const auto &field : message.fields)
@@ -678,7 +680,7 @@ void dump_message(std::ostream &stream, const proto_message &message, const prot
 
     for (const auto &oneof : message.oneofs)
     {
-        dump_message_oneof(stream, oneof, file);
+        dump_message_oneof(stream, oneof, message, file);
     }
 
     //- TODO: is this used in any way?
-- 
2.43.0


From e704463dcc9e215e2c7a28e1fb4d317f59872c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 65/70] fix: own integer from_chars accepted numbers out of
 range, spaces and '+', misread long numbers

---
 include/spb/to_from_chars.h | 80 +++++++++++--------------------------
 1 file changed, 24 insertions(+), 56 deletions(-)

diff --git a/include/spb/to_from_chars.h b/include/spb/to_from_chars.h
index d97b60a..6ceea85 100644
--- a/include/spb/to_from_chars.h
+++ b/include/spb/to_from_chars.h
@@ -19,6 +19,7 @@ namespace spb_std_emu = std;
 #include <cassert>
 #include <cctype>
 #include <concepts>
+#include <cstdint>
 #include <cstdlib>
 #include <cstring>
 #include <limits>
@@ -43,72 +44,39 @@ static inline auto from_chars(const char *first, const char *last, std::integral
     -> from_chars_result
 {
     assert(first <= last);
-    char buffer[32];
-    auto copy_size = std::min<size_t>(last - first, sizeof(buffer) - 1);
-    memcpy(buffer, first, copy_size);
-    buffer[copy_size] = '\0';
-    const char *end   = nullptr;
-
     using T = std::decay_t<decltype(number)>;
 
     static_assert(sizeof(number) >= 1 && sizeof(number) <= 8, "unsupported size");
-    errno       = 0;
-    auto result = T(0);
 
-    if constexpr (std::is_signed_v<T>)
-    {
-        if constexpr (sizeof(number) < 4)
-        {
-            auto tmp = strtol(buffer, (char **)&end, base);
-            if (tmp <= std::numeric_limits<T>::max() && tmp >= std::numeric_limits<T>::min()) [[likely]]
-            {
-                result = T(tmp);
-            }
-            else
-            {
-                errno = ERANGE;
-            }
-        }
-        else if constexpr (sizeof(number) == 4)
-        {
-            result = strtol(buffer, (char **)&end, base);
-        }
-        else if constexpr (sizeof(number) == 8)
-        {
-            result = strtoll(buffer, (char **)&end, base);
-        }
-    }
-    else
+    const auto is_negative = std::is_signed_v<T> && first != last && *first == '-';
+    const auto max_value   = uint64_t(std::numeric_limits<T>::max()) + (is_negative ? 1U : 0U);
+    const auto *begin      = first + (is_negative ? 1 : 0);
+    const auto *end        = begin;
+    auto result            = uint64_t(0);
+    auto is_out_of_range   = false;
+
+    for (; end != last; ++end)
     {
-        if constexpr (sizeof(number) < 4)
-        {
-            auto tmp = strtoul(buffer, (char **)&end, base);
-            if (tmp <= std::numeric_limits<T>::max()) [[likely]]
-            {
-                result = T(tmp);
-            }
-            else
-            {
-                errno = ERANGE;
-            }
-        }
-        else if constexpr (sizeof(number) == 4)
-        {
-            result = strtoul(buffer, (char **)&end, base);
-        }
-        else if constexpr (sizeof(number) == 8)
-        {
-            result = strtoull(buffer, (char **)&end, base);
-        }
+        const auto c     = *end;
+        const auto digit = c >= '0' && c <= '9'   ? c - '0'
+                           : c >= 'a' && c <= 'z' ? c - 'a' + 10
+                           : c >= 'A' && c <= 'Z' ? c - 'A' + 10
+                                                  : base;
+        if (digit >= base)
+            break;
+
+        if (is_out_of_range || result > (max_value - uint64_t(digit)) / uint64_t(base)) [[unlikely]]
+            is_out_of_range = true;
+        else
+            result = result * uint64_t(base) + uint64_t(digit);
     }
-    end = first + (end - buffer);
-    if (end == first)
+    if (end == begin)
         return {first, std::errc::invalid_argument};
 
-    if (errno == ERANGE)
+    if (is_out_of_range)
         return {end, std::errc::result_out_of_range};
 
-    number = result;
+    number = T(is_negative ? 0U - result : result);
     return {end, std::errc()};
 }
 
-- 
2.43.0


From 8405467b1d14b03f48ca40c30500dd1be536a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 66/70] fix: own floating point from_chars rejected subnormal
 numbers, accepted hex, spaces and '+', cut long numbers

---
 include/spb/to_from_chars.h | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/include/spb/to_from_chars.h b/include/spb/to_from_chars.h
index 6ceea85..c1205db 100644
--- a/include/spb/to_from_chars.h
+++ b/include/spb/to_from_chars.h
@@ -18,11 +18,15 @@ namespace spb_std_emu = std;
 #include <algorithm>
 #include <cassert>
 #include <cctype>
+#include <cerrno>
+#include <cmath>
 #include <concepts>
 #include <cstdint>
 #include <cstdlib>
 #include <cstring>
 #include <limits>
+#include <string>
+#include <string_view>
 #include <system_error>
 #include <type_traits>
 
@@ -84,28 +88,37 @@ static inline auto from_chars(const char *first, const char *last, std::floating
     -> from_chars_result
 {
     assert(first <= last);
-    char buffer[256];
-    auto copy_size = std::min<size_t>(last - first, sizeof(buffer) - 1);
-    memcpy(buffer, first, copy_size);
-    buffer[copy_size] = '\0';
-    const char *end   = nullptr;
-
     static_assert(sizeof(number) == 4 || sizeof(number) == 8, "unsupported size");
-    errno       = 0;
-    auto result = std::decay_t<decltype(number)>{0};
+
+    //- strtof/strtod are accepting more than std::from_chars (white spaces, '+', hex numbers)
+    const auto *digits = first != last && *first == '-' ? first + 1 : first;
+    if (digits == last || *digits == '+' || *digits == '-' || isspace(uint8_t(*digits)))
+        return {first, std::errc::invalid_argument};
+
+    if (last - digits > 1 && digits[0] == '0' && (digits[1] == 'x' || digits[1] == 'X'))
+        last = digits + 1;
+
+    const auto *token_last = std::find_if(
+        first, last, [](char c)
+        { return !isalnum(uint8_t(c)) && std::string_view("+-._()").find(c) == std::string_view::npos; });
+    const auto token = std::string(first, token_last);
+    char *token_end  = nullptr;
+    auto result      = std::decay_t<decltype(number)>{0};
+    errno            = 0;
     if constexpr (sizeof(number) == 4)
     {
-        result = strtof(buffer, (char **)&end);
+        result = strtof(token.c_str(), &token_end);
     }
     else if constexpr (sizeof(number) == 8)
     {
-        result = strtod(buffer, (char **)&end);
+        result = strtod(token.c_str(), &token_end);
     }
-    end = first + (end - buffer);
+    const auto *end = first + (token_end - token.c_str());
     if (end == first)
         return {end, std::errc::invalid_argument};
 
-    if (errno == ERANGE)
+    //- a subnormal number is not an error
+    if (errno == ERANGE && (result == 0 || std::isinf(result)))
         return {end, std::errc::result_out_of_range};
 
     number = result;
-- 
2.43.0


From 808f9425e81db8c457b02dc92408d5ed9fef97bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 67/70] fix: own floating point to_chars wrote only 6 digits

---
 include/spb/to_from_chars.h | 44 ++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/include/spb/to_from_chars.h b/include/spb/to_from_chars.h
index c1205db..aaaf150 100644
--- a/include/spb/to_from_chars.h
+++ b/include/spb/to_from_chars.h
@@ -22,6 +22,7 @@ namespace spb_std_emu = std;
 #include <cmath>
 #include <concepts>
 #include <cstdint>
+#include <cstdio>
 #include <cstdlib>
 #include <cstring>
 #include <limits>
@@ -150,34 +151,31 @@ static inline auto to_chars(char *first, char *last, const std::floating_point a
     if (last <= first)
         return {first, std::errc::value_too_large};
 
+    using T                = std::remove_cvref_t<decltype(number)>;
     const auto buffer_size = last - first;
 
-    const char *format;
-
-    if constexpr (std::is_same_v<std::remove_cvref_t<decltype(number)>, double>)
-    {
-        format = "%lg";
-    }
-    else if constexpr (std::is_same_v<std::remove_cvref_t<decltype(number)>, long double>)
+    //- the shortest representation which is converted back to the same number
+    for (auto precision = std::numeric_limits<T>::digits10;; ++precision)
     {
-        format = "%Lg";
-    }
-    else
-    {
-        format = "%g";
-    }
+        const int written =
+            snprintf(first, size_t(buffer_size), "%.*Lg", precision, static_cast<long double>(number));
+        if (written < 0)
+            return {first, std::errc::invalid_argument};
+
+        if (written >= buffer_size)
+            return {first, std::errc::value_too_large};
+
+        auto result = T(0);
+        if constexpr (std::is_same_v<T, float>)
+            result = strtof(first, nullptr);
+        else if constexpr (std::is_same_v<T, double>)
+            result = strtod(first, nullptr);
+        else
+            result = strtold(first, nullptr);
 
-    const int written = snprintf(first, buffer_size, format, number);
-    if (written < 0)
-    {
-        return {first, std::errc::invalid_argument};
-    }
-    else if (written > buffer_size)
-    {
-        return {first, std::errc::value_too_large};
+        if (result == number || precision >= std::numeric_limits<T>::max_digits10)
+            return {first + written, std::errc{}};
     }
-
-    return {first + written, std::errc{}};
 }
 
 } // namespace spb::std_emu
-- 
2.43.0


From 4c7d2e969d1eccd264eae4acc948c4ef5e4a9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 68/70] fix: surrogate pairs in default values of strings were
 dropped

---
 src/spb-proto-compiler/dumper/header.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 39ac569..3df9400 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -445,7 +445,19 @@ auto unescape_string_literal(const proto_file &file, std::string_view literal) -
         case 'U':
         {
             char utf8[4];
-            result.append(utf8, spb::detail::utf8::encode_point(parse_number(escaped == 'u' ? 4 : 8, 16), utf8));
+            auto point = parse_number(escaped == 'u' ? 4 : 8, 16);
+            //- surrogate pair
+            if (point >= 0xD800 && point < 0xDC00 && literal.starts_with("\\u"sv))
+            {
+                const auto rest = literal;
+                literal.remove_prefix(2);
+                const auto low = parse_number(4, 16);
+                if (low >= 0xDC00 && low < 0xE000)
+                    point = 0x10000 + ((point & 0x3FF) << 10) + (low & 0x3FF);
+                else
+                    literal = rest;
+            }
+            result.append(utf8, spb::detail::utf8::encode_point(point, utf8));
             break;
         }
         default:
-- 
2.43.0


From ca0327be1a3d4a5885d83c076b04bb1ad8ab9c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 69/70] fix: spaces around an included file name were kept
 inside the quotes

---
 src/spb-proto-compiler/dumper/header.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 3df9400..c21cf29 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -79,6 +79,7 @@ auto trim_include(std::string_view str) -> std::string
     auto add_prefix  = *p_begin != '"' && *p_begin != '<';
     auto add_postfix = p_end[-1] != '"' && p_end[-1] != '>';
 
+    str = std::string_view(p_begin, size_t(p_end - p_begin));
     if (add_prefix || add_postfix)
         return '"' + std::string(str) + '"';
 
-- 
2.43.0


From edd8b594c642979bd3d30b5186a13df7c4e15dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:31 +0000
Subject: [PATCH 70/70] fix: nanopb max_length of 4294967295 became a limit of
 0

---
 src/spb-proto-compiler/ast/ast-options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index fddcc96..0a7f12b 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -10,6 +10,8 @@
 
 #include "ast-options.h"
 #include "dumper/header.h"
+#include <algorithm>
+#include <cstdint>
 #include <initializer_list>
 #include <span>
 #include <spb/to_from_chars.h>
@@ -114,7 +116,7 @@ void convert_nanopb_options(const proto_file &file, proto_attributes &attributes
         attributes.max_size = *value;
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_length"}, options); value.has_value())
-        attributes.max_size = *value + 1;
+        attributes.max_size = std::max(*value, *value + 1);
 
     if (auto value = option_value_int<uint32_t>(file, {opt_value, "max_count"}, options); value.has_value())
         attributes.max_count = *value;
-- 
2.43.0

