From 21fee595d03f5da5bcbe30257433320ace2fae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 01/28] fix: pb istream_reader stores every chunk of a short
 read behind the previous one

---
 include/spb/pb/deserialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index d6e2525..6c03919 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -81,12 +81,14 @@ struct istream_reader
 
     void read_exact_or_throw(void *data, size_t data_size)
     {
+        auto *p_data = static_cast<uint8_t *>(data);
         while (data_size > 0)
         {
-            auto chunk_size = read(data, data_size);
+            auto chunk_size = read(p_data, data_size);
             if (chunk_size == 0) [[unlikely]]
                 throw std::runtime_error("unexpected end of stream");
 
+            p_data += chunk_size;
             data_size -= chunk_size;
         }
     }
-- 
2.43.0


From ca1b988d14f69d9c518b08a29eec0995eb223df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 02/28] fix: pb repeated fields reject a wire type that does
 not match

---
 include/spb/pb/deserialize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 6c03919..20a2597 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -601,6 +601,7 @@ void deserialize(auto &stream, Container &value, wire_type type)
 {
     if constexpr (is_packed(mode.encoder))
     {
+        check_wire_type_or_throw(type, wire_type::length_delimited);
         deserialize_packed<mode>(stream, value);
     }
     else
@@ -610,6 +611,7 @@ void deserialize(auto &stream, Container &value, wire_type type)
 
         if constexpr (std::is_same_v<typename Container::value_type, bool>)
         {
+            check_wire_type_or_throw(type, wire_type::varint);
             value.emplace_back(read_varint<bool>(stream));
         }
         else
-- 
2.43.0


From a805b5aa555a4ee00583e2dbc75456801ce67f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 03/28] fix: pb tags that do not fit in 32 bits are rejected

---
 include/spb/pb/deserialize.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 20a2597..01c3c8f 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -237,8 +237,12 @@ void check_if_empty_or_throw(auto &stream)
         if (shift >= sizeof(tag) * CHAR_BIT) [[unlikely]]
             throw std::runtime_error("invalid tag");
 
-        byte = stream.read_byte_or_throw();
-        tag |= uint64_t(byte & 0x7F) << shift;
+        byte             = stream.read_byte_or_throw();
+        const auto value = uint64_t(byte & 0x7F) << shift;
+        if (value > std::numeric_limits<uint32_t>::max()) [[unlikely]]
+            throw std::runtime_error("invalid tag");
+
+        tag |= uint32_t(value);
     }
 
     const auto result = tag_type(tag);
-- 
2.43.0


From 140aa631e9b43c0c7f285617b36992ea4f58922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:47 +0000
Subject: [PATCH 04/28] fix: pb varints that do not fit in int8/int16 are
 rejected, not truncated

---
 include/spb/pb/deserialize.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 01c3c8f..dbb1a0e 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -274,6 +274,14 @@ template <typename T> [[nodiscard]] auto read_varint(auto &stream) -> T
             value |= uint64_t(byte & 0x7F) << shift;
             if ((byte & 0x80) == 0)
             {
+                if constexpr (std::is_signed_v<T> && sizeof(T) < sizeof(int32_t))
+                {
+                    //- int8_t and int16_t can't hold every int32
+                    const auto value32 = int32_t(value);
+                    if (T(value32) != value32 ||
+                        (value != uint64_t(int64_t(value32)) && value != uint32_t(value32))) [[unlikely]]
+                        break;
+                }
                 if constexpr (std::is_signed_v<T> && sizeof(T) < sizeof(value))
                 {
                     //- GPB encodes signed varints always as 64-bits
-- 
2.43.0


From baf2c12c63135c88823770274347eaebc9b984ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:47 +0000
Subject: [PATCH 05/28] fix: pb map keeps the last value of a duplicated key

---
 include/spb/pb/deserialize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index dbb1a0e..5fc6f8b 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -706,7 +706,8 @@ void deserialize(auto &stream, spb::detail::proto_map auto &value, wire_type typ
     }
     if (key_defined && value_defined) [[likely]]
     {
-        value.insert(std::move(pair));
+        //- the last value of a duplicated key wins
+        value[std::move(pair.first)] = std::move(pair.second);
     }
     else [[unlikely]]
     {
-- 
2.43.0


From 24c0fec0b30788f31c62ed519329b182d8b93d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:07 +0000
Subject: [PATCH 06/28] fix: pb keeps empty elements of repeated, map and
 optional fields

---
 include/spb/pb/serialize.hpp | 73 +++++++++++++++++++++++++++++++-----
 1 file changed, 63 insertions(+), 10 deletions(-)

diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index aaf2297..ad08ce0 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -139,6 +139,25 @@ void serialize(auto &stream, uint32_t field, spb::detail::proto_field_number aut
     serialize<mode>(stream, value);
 }
 
+/**
+ * @brief serialize a value with presence (element of repeated or map, optional, oneof),
+ *        the value is written even when it is empty
+ */
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_number auto &value)
+{
+    serialize<mode>(stream, field, value);
+}
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_string auto &value);
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_bytes auto &value);
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_message auto &value);
+template <serialize_mode mode, typename T>
+void serialize_present(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value);
+template <serialize_mode mode> size_t serialize_present_size(uint32_t field, const auto &value);
+
 template <serialize_mode mode> void serialize(auto &stream, const spb::detail::proto_enum auto &value)
 {
     serialize_varint(stream, int32_t(value));
@@ -248,11 +267,17 @@ void serialize(auto &stream, const spb::detail::proto_label_repeated auto &conta
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_string auto &value)
 {
-    using stream_type = std::remove_cvref_t<decltype(stream)>;
-
     if (value.empty())
         return;
 
+    serialize_present<mode>(stream, field, value);
+}
+
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_string auto &value)
+{
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
+
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
 
@@ -267,11 +292,17 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_stri
 template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_field_bytes auto &value)
 {
-    using stream_type = std::remove_cvref_t<decltype(stream)>;
-
     if (value.empty())
         return;
 
+    serialize_present<mode>(stream, field, value);
+}
+
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_field_bytes auto &value)
+{
+    using stream_type = std::remove_cvref_t<decltype(stream)>;
+
     if constexpr (!stream_type::size_only && mode.max_size)
         check_size(value.size(), mode.max_size);
 
@@ -291,11 +322,12 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_map auto &
 
     for (const auto &[k, v] : value)
     {
-        const auto size = serialize_size<key_encoder>(1, k) + serialize_size<value_encoder>(2, v);
+        const auto size =
+            serialize_present_size<key_encoder>(1, k) + serialize_present_size<value_encoder>(2, v);
         serialize_tag(stream, field, wire_type::length_delimited);
         serialize_varint(stream, size);
-        serialize<key_encoder>(stream, 1, k);
-        serialize<value_encoder>(stream, 2, v);
+        serialize_present<key_encoder>(stream, 1, k);
+        serialize_present<value_encoder>(stream, 2, v);
     }
 }
 
@@ -325,7 +357,7 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_repe
             if constexpr (std::is_same_v<value_type, bool>)
                 serialize<mode>(stream, field, bool(value));
             else
-                serialize<mode>(stream, field, value);
+                serialize_present<mode>(stream, field, value);
         }
     }
 }
@@ -346,14 +378,20 @@ template <serialize_mode mode>
 void serialize(auto &stream, uint32_t field, const spb::detail::proto_label_optional auto &p_value)
 {
     if (p_value.has_value())
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode, typename T>
 void serialize(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
+{
+    serialize_present<mode>(stream, field, p_value);
+}
+
+template <serialize_mode mode, typename T>
+void serialize_present(auto &stream, uint32_t field, const std::unique_ptr<T> &p_value)
 {
     if (p_value)
-        serialize<mode>(stream, field, *p_value);
+        serialize_present<mode>(stream, field, *p_value);
 }
 
 template <serialize_mode mode>
@@ -368,6 +406,14 @@ void serialize(auto &stream, uint32_t field, const spb::detail::proto_message au
     serialize_value(stream, value);
 }
 
+template <serialize_mode mode>
+void serialize_present(auto &stream, uint32_t field, const spb::detail::proto_message auto &value)
+{
+    serialize_tag(stream, field, wire_type::length_delimited);
+    serialize_varint(stream, serialize_size<mode>(value));
+    serialize_value(stream, value);
+}
+
 template <serialize_mode mode> auto serialize_size(const auto &value) -> size_t
 {
     auto stream = ostream_size();
@@ -382,6 +428,13 @@ template <serialize_mode mode> auto serialize_size(uint32_t field, const auto &v
     return stream.size;
 }
 
+template <serialize_mode mode> auto serialize_present_size(uint32_t field, const auto &value) -> size_t
+{
+    auto stream = ostream_size();
+    serialize_present<mode>(stream, field, value);
+    return stream.size;
+}
+
 template <serialize_mode mode> void serialize(auto &stream, const spb::detail::proto_message auto &value)
 {
     serialize_value(stream, value);
-- 
2.43.0


From ac9616559e730640453f0eab7fb028cba0cc5311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 07/28] fix: sprotoc serializes every oneof of a message

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 7 +++----
 src/spb-proto-compiler/dumper/pb/dumper.cpp   | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 270faf9..28d9f45 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -209,14 +209,13 @@ void dump_field_attributes(std::ostream &stream, const proto_file &file, const p
 void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, const proto_message &message,
                               const proto_oneof &oneof)
 {
-    stream << "\tconst auto index = value." << oneof.name.get_name() << ".index();\n";
-    stream << "\tswitch(index)\n\t{\n";
+    stream << "\tswitch(value." << oneof.name.get_name() << ".index())\n\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\treturn serialize<";
+        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
-               << json_field_name(oneof.fields[i]) << "\"sv);\n";
+               << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\tbreak;\n";
     }
     stream << "\t}\n";
 }
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index a4814aa..38b65a7 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,10 +212,10 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\treturn serialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
-               << oneof.name.get_name() << "));\n";
+               << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
     }
     stream << "\t\t}\n\t}\n\n";
 }
-- 
2.43.0


From 2eebf20c1832b3b94f2f2151f6fe7a3ad91150ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 08/28] fix: empty values of optional and oneof fields keep
 their presence

---
 include/spb/json/serialize.hpp                | 19 ++++++++++++++++++-
 src/spb-proto-compiler/dumper/json/dumper.cpp |  2 +-
 src/spb-proto-compiler/dumper/pb/dumper.cpp   |  2 +-
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index f5e3f57..73d1755 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -471,11 +471,28 @@ void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_val
         return serialize<attributes>(stream, *p_value);
 }
 
+/**
+ * @brief serialize a value with presence (optional, oneof), the value is written even when it is empty
+ */
+template <field_attributes attributes>
+void serialize_present(auto &stream, const auto &value, std::string_view field)
+{
+    serialize_key(stream, field);
+    serialize<attributes>(stream, value);
+}
+
+template <field_attributes attributes, typename T>
+void serialize_present(auto &stream, const std::unique_ptr<T> &p_value, std::string_view field)
+{
+    if (p_value)
+        serialize_present<attributes>(stream, *p_value, field);
+}
+
 template <field_attributes attributes>
 void serialize(auto &stream, const spb::detail::proto_label_optional auto &p_value, std::string_view field)
 {
     if (p_value.has_value())
-        return serialize<attributes>(stream, *p_value, field);
+        return serialize_present<attributes>(stream, *p_value, field);
 }
 
 template <field_attributes attributes, typename T>
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 28d9f45..75486f9 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -212,7 +212,7 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\tswitch(value." << oneof.name.get_name() << ".index())\n\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize<";
+        stream << "\t\tcase " << i + 1 << ":\n\t\t\tserialize_present<";
         dump_field_attributes(stream, file, message, oneof.fields[i]);
         stream << ">(stream, std::get<" << i + 1 << ">(value." << oneof.name.get_name() << "), \""
                << json_field_name(oneof.fields[i]) << "\"sv);\n\t\t\tbreak;\n";
diff --git a/src/spb-proto-compiler/dumper/pb/dumper.cpp b/src/spb-proto-compiler/dumper/pb/dumper.cpp
index 38b65a7..0625f43 100644
--- a/src/spb-proto-compiler/dumper/pb/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/pb/dumper.cpp
@@ -212,7 +212,7 @@ void dump_cpp_serialize_field(std::ostream &stream, const proto_file &file, cons
     stream << "\t\tswitch (index)\n\t\t{\n";
     for (size_t i = 0; i < oneof.fields.size(); ++i)
     {
-        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize<";
+        stream << "\t\t\tcase " << i + 1 << ":\n\t\t\t\tserialize_present<";
         dump_serialize_mode(stream, file, message, oneof.fields[i]);
         stream << ">(stream, " << oneof.fields[i].number << ", std::get<" << i + 1 << ">(value."
                << oneof.name.get_name() << "));\n\t\t\t\tbreak;\n";
-- 
2.43.0


From 05d7977dccd4f7c78c2aa9ee475704f3ddf114d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 09/28] fix: json unknown fields of a message without fields
 are skipped

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 75486f9..18658fe 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -366,8 +366,8 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
 {
     if (message.fields.empty() && message.maps.empty() && message.oneofs.empty())
     {
-        stream << "void deserialize_value_gen(auto &, " << full_name << " &)\n{\n";
-        stream << "\n}\n\n";
+        stream << "void deserialize_value_gen(auto &stream, " << full_name << " &)\n{\n";
+        stream << "\tignore_key_and_value(stream);\n}\n\n";
         return;
     }
 
-- 
2.43.0


From 09fca00d0d287431e1f444a9e4374221276286b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 10/28] fix: json strings are checked for valid utf8

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 01879a1..6d02c04 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -529,7 +529,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
                 if (index != value.size()) [[unlikely]]
                     throw std::runtime_error("invalid string size");
             }
-            return;
+            break;
         }
         char utf8_buffer[4];
         auto utf8_size = unescape(stream, utf8_buffer);
-- 
2.43.0


From 3b77d034fca852d9636d810637b4f9f008f3edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:08 +0000
Subject: [PATCH 11/28] fix: json escapes string keys of a map

---
 include/spb/json/serialize.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/spb/json/serialize.hpp b/include/spb/json/serialize.hpp
index 73d1755..59de175 100644
--- a/include/spb/json/serialize.hpp
+++ b/include/spb/json/serialize.hpp
@@ -445,7 +445,9 @@ template <field_attributes attributes> void serialize(auto &stream, const spb::d
     {
         if constexpr (std::is_same_v<key_type, std::string_view> || std::is_same_v<key_type, std::string>)
         {
-            serialize_key(stream, map_key);
+            put_comma_if_needed(stream);
+            serialize<attributes>(stream, std::string_view(map_key));
+            stream.write(':');
         }
         else
         {
-- 
2.43.0


From 33b69c2bae501be802877800d95c4aef06e28d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 12/28] fix: json istream_reader::consume_current_char may
 throw what the user's reader throws

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 6d02c04..2a7409b 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -305,7 +305,7 @@ struct istream_reader
         return result;
     }
 
-    void consume_current_char(bool skip_white_space) noexcept
+    void consume_current_char(bool skip_white_space)
     {
         consume_bytes(1);
         if (skip_white_space)
-- 
2.43.0


From b05aad50a0460cbefbd92a9d5853807d7c9f2d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 13/28] fix: json long keys with an escape at the end of the
 view

---
 include/spb/json/deserialize.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 2a7409b..43833cb 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -383,6 +383,12 @@ auto deserialize_string_to_buffer(auto &stream, size_t min_size, size_t max_size
         if (pos == view.npos) [[unlikely]]
         {
             stream.skip(view.size());
+            if (start > view.size()) [[unlikely]]
+            {
+                //- view ends with '\\', the escaped char is still in the stream
+                (void)stream.view(1, UINT32_MAX);
+                stream.skip(1);
+            }
             break;
         }
 
-- 
2.43.0


From 982910a6e12ffdb2a0e266dde16c175ba003f124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:12 +0000
Subject: [PATCH 14/28] fix: json fixed size arrays need exactly one comma
 between elements

---
 include/spb/json/deserialize.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 43833cb..01eac5d 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -648,8 +648,8 @@ void deserialize(auto &stream, Container &value)
         if (i + 1 >= value.size())
             break;
 
-        while (stream.consume_and_skip_white_space(','))
-            ;
+        if (!stream.consume_and_skip_white_space(',')) [[unlikely]]
+            throw std::runtime_error("expecting ','");
     }
 
     if (!stream.consume_and_skip_white_space(']')) [[unlikely]]
-- 
2.43.0


From 3c5631a29da4b084651a00303538f601b037ffcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 15/28] fix: json true, false and null are consumed with the
 white space behind them

---
 include/spb/json/deserialize.hpp | 42 +++++++++++---------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 01eac5d..720c124 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -147,23 +147,16 @@ struct istream_buffer
         if (memcmp(token.data(), p_start, token.size()) != 0)
             return false;
 
-        if (size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = p_start[token.size()];
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
+        if (size() > token.size()) [[likely]]
         {
-            skip(token.size());
-            return true;
+            const auto char_behind_token = p_start[token.size()];
+            if (isalnum(char_behind_token) || char_behind_token == '_')
+                return false;
         }
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
     [[nodiscard]] int current_char() const
     {
@@ -252,23 +245,16 @@ struct istream_reader
         if (!token_view.starts_with(token))
             return false;
 
-        if (token_view.size() == token.size()) [[unlikely]]
-            return true;
-
-        const auto char_behind_token = token_view.back();
-        if (!isalnum(char_behind_token) && char_behind_token != '_')
+        if (token_view.size() > token.size()) [[likely]]
         {
-            skip(token.size());
-            return true;
+            const auto char_behind_token = uint8_t(token_view[token.size()]);
+            if (isalnum(char_behind_token) || char_behind_token == '_')
+                return false;
         }
 
-        if (isspace(char_behind_token))
-        {
-            skip(token.size());
-            skip_white_spaces();
-            return true;
-        }
-        return false;
+        skip(token.size());
+        skip_white_spaces();
+        return true;
     }
 
     void skip_white_spaces()
-- 
2.43.0


From 08bca7de0f1a7d4a04b5a13afc1322c58770dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 16/28] fix: json map keys are rejected when characters are
 left behind the parsed key

---
 include/spb/json/deserialize.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 720c124..0f5b315 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -666,6 +666,8 @@ template <field_attributes attributes, typename T> void deserialize_map_key(auto
         auto str_key_map = deserialize_string_to_buffer(stream, 1, 128, buffer);
         auto key_stream  = istream_buffer(str_key_map.data(), str_key_map.size());
         deserialize<attributes>(key_stream, map_key);
+        if (!key_stream.empty()) [[unlikely]]
+            throw std::runtime_error("invalid map key");
     }
 }
 
-- 
2.43.0


From 2cc0bb755d7660189173ea9cb484f1b7b9a8d7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 17/28] fix: json white space is accepted in front of a message
 and behind every value

---
 include/spb/json.hpp             | 2 ++
 include/spb/json/base64.h        | 1 +
 include/spb/json/deserialize.hpp | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/include/spb/json.hpp b/include/spb/json.hpp
index 6fcada2..c77cb90 100644
--- a/include/spb/json.hpp
+++ b/include/spb/json.hpp
@@ -94,6 +94,7 @@ template <spb::resizable_container Container = std::string>
 size_t deserialize(auto &message, const void *buffer, size_t size)
 {
     detail::istream_buffer stream((const uint8_t *)buffer, size);
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return size - stream.size();
 }
@@ -109,6 +110,7 @@ size_t deserialize(auto &message, const void *buffer, size_t size)
 size_t deserialize(auto &message, spb::io::reader reader)
 {
     detail::istream_reader stream{reader};
+    stream.skip_white_spaces();
     deserialize<detail::field_attributes{}>(stream, message);
     return stream.consumed_size();
 }
diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index 92a692e..a768cca 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -198,6 +198,7 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
             {
                 *p_out++ = std::byte((v0 << 2) | (v1 >> 4));
             }
+            stream.skip_white_spaces();
             return;
         }
     }
diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 0f5b315..3ff1618 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -527,6 +527,7 @@ void deserialize(auto &stream, spb::detail::proto_field_string auto &value)
         auto utf8_size = unescape(stream, utf8_buffer);
         append_to_value(utf8_buffer, utf8_size);
     }
+    stream.skip_white_spaces();
     spb::detail::utf8::validate(std::string_view(value.data(), value.size()));
 }
 
@@ -550,6 +551,7 @@ template <field_attributes> void deserialize(auto &stream, spb::detail::proto_fi
         throw std::runtime_error("invalid number");
 
     stream.skip(result.ptr - view.data());
+    stream.skip_white_spaces();
 }
 
 template <field_attributes> void deserialize(auto &stream, bool &value)
-- 
2.43.0


From 4c6da9952c2b5f1abf9dd7515a4e360bf0102957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 18/28] fix: json base64 without the closing quote does not
 loop forever

---
 include/spb/json/base64.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index a768cca..fc77ee4 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -109,6 +109,9 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
 
         //- align to 4 bytes
         auto aligned_length = length & ~3;
+        if (!end_found && aligned_length <= 4) [[unlikely]]
+            throw std::runtime_error("invalid base64");
+
         if (aligned_length > 4) [[likely]]
         {
             auto out_length = ((aligned_length - 4) / 4) * 3;
-- 
2.43.0


From af36a78ee4551f028f7316cd6448cd86f17ffbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 19/28] fix: json empty base64 is rejected for a fixed size
 container

---
 include/spb/json/base64.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/spb/json/base64.h b/include/spb/json/base64.h
index fc77ee4..bcce4ea 100644
--- a/include/spb/json/base64.h
+++ b/include/spb/json/base64.h
@@ -93,7 +93,12 @@ void base64_decode_string(spb::detail::proto_field_bytes auto &output, istream &
         throw std::runtime_error("expecting '\"'");
 
     if (stream.consume_and_skip_white_space('"'))
+    {
+        if (!output.empty()) [[unlikely]]
+            throw std::runtime_error("too small base64");
+
         return;
+    }
 
     auto mask = uint8_t(0);
 
-- 
2.43.0


From 403e7df9bf87c28266c8ca11717b204021213e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 20/28] fix: bitfields 64 bits wide are not rejected

---
 include/spb/bits.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/spb/bits.h b/include/spb/bits.h
index 60bdc48..b6994ee 100644
--- a/include/spb/bits.h
+++ b/include/spb/bits.h
@@ -12,7 +12,9 @@
 #include <cassert>
 #include <climits>
 #include <cstdint>
+#include <limits>
 #include <stdexcept>
+#include <type_traits>
 
 namespace spb::detail
 {
@@ -27,8 +29,12 @@ static inline void check_if_value_fit_in_bits(signed_int auto value, uint32_t bi
     assert(sizeof(value) * CHAR_BIT >= bits);
     assert(bits > 0);
 
-    decltype(value) max = (1LL << (bits - 1)) - 1;
-    decltype(value) min = -(1LL << (bits - 1));
+    using limits = std::numeric_limits<decltype(value)>;
+
+    //- shift limits right, `1LL << bits` overflows for 64 bits
+    const auto unused_bits    = sizeof(value) * CHAR_BIT - bits;
+    const decltype(value) max = limits::max() >> unused_bits;
+    const decltype(value) min = limits::min() >> unused_bits;
 
     if ((value < min) | (value > max)) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
@@ -37,8 +43,12 @@ static inline void check_if_value_fit_in_bits(signed_int auto value, uint32_t bi
 static inline void check_if_value_fit_in_bits(unsigned_int auto value, uint32_t bits)
 {
     assert(sizeof(value) * CHAR_BIT >= bits);
+    assert(bits > 0);
+
+    using limits = std::numeric_limits<decltype(value)>;
 
-    decltype(value) max = (1LL << bits) - 1;
+    const auto unused_bits    = sizeof(value) * CHAR_BIT - bits;
+    const decltype(value) max = limits::max() >> unused_bits;
 
     if (value > max) [[unlikely]]
         throw std::runtime_error("bitfield overflow");
-- 
2.43.0


From d80230abeac23799735292b2b7b87d7b84969528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 21/28] fix: utf8 validation of short and unaligned views stays
 inside of the view

---
 include/spb/utf8.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/spb/utf8.h b/include/spb/utf8.h
index 88c2460..e936318 100644
--- a/include/spb/utf8.h
+++ b/include/spb/utf8.h
@@ -13,6 +13,7 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <stdexcept>
 #include <string_view>
 
@@ -108,18 +109,19 @@ inline bool is_valid(std::string_view str)
     constexpr size_t mask = (size_t)0x8080808080808080ULL;
 
     const auto *start = str.data();
-    const auto *end   = str.data() + str.size() - sizeof(size_t);
+    const auto *end   = str.data() + str.size();
 
-    while (start <= end)
+    //- views could be unaligned, shorter than size_t, or (nullptr, 0)
+    while (size_t(end - start) >= sizeof(size_t))
     {
-        const size_t value = *(size_t *)start;
+        size_t value;
+        memcpy(&value, start, sizeof(value));
         if ((value & mask) == 0) [[likely]]
             start += sizeof(value);
         else
             break;
     }
 
-    end            = str.data() + str.size();
     uint32_t state = ok;
     for (uint32_t codepoint; start < end; ++start)
     {
-- 
2.43.0


From 7f7511d13a9286681c8be0683d69651d298bc9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:30 +0000
Subject: [PATCH 22/28] fix: pb delimited message cut short by the reader is
 rejected

---
 include/spb/pb.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/spb/pb.hpp b/include/spb/pb.hpp
index 2aecf5c..8fd2d7e 100644
--- a/include/spb/pb.hpp
+++ b/include/spb/pb.hpp
@@ -159,6 +159,7 @@ size_t deserialize(auto &message, spb::io::reader reader, const deserialize_opti
         const auto substream_length = read_varint<uint32_t>(stream);
         auto substream              = stream.sub_stream(substream_length);
         deserialize<detail::serialize_mode{}>(substream, message);
+        check_if_empty_or_throw(substream);
     }
     else
     {
-- 
2.43.0


From e02da35255e8c655570956a7227e98059ec9069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 23/28] fix: json enum numbers are not cut to the type of the
 enum

---
 src/spb-proto-compiler/dumper/json/dumper.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 18658fe..25599da 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -293,15 +293,14 @@ void dump_cpp_deserialize_enum_gen(std::ostream &stream, const proto_enum &my_en
     stream << "\t\t\t\tbreak ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
               "std::errc::invalid_argument));\n";
-    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (" << full_name
-           << "(enum_int))\n\t\t\t{\n";
+    stream << "\t\t},\n\t\t[&](int32_t enum_int)\n\t\t{\n\t\t\tswitch (enum_int)\n\t\t\t{\n";
     std::set<int32_t> numbers_taken;
     for (const auto &field : my_enum.fields)
     {
         if (!numbers_taken.insert(field.number).second)
             continue;
 
-        stream << "\t\t\tcase " << full_name << "::" << field.name.get_name() << ":\n";
+        stream << "\t\t\tcase int32_t(" << full_name << "::" << field.name.get_name() << "):\n";
     }
     stream << "\t\t\t\tvalue = " << full_name << "(enum_int);\n\t\t\t\treturn ;\n";
     stream << "\t\t\t}\n\t\t\tthrow std::system_error(std::make_error_code("
-- 
2.43.0


From 2fc039a7effbccba62bf4c850838bd1c5fafb6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 24/28] fix: json white space test of chars above 0x7f is
 defined

---
 include/spb/json/deserialize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/spb/json/deserialize.hpp b/include/spb/json/deserialize.hpp
index 3ff1618..6e4d400 100644
--- a/include/spb/json/deserialize.hpp
+++ b/include/spb/json/deserialize.hpp
@@ -268,7 +268,7 @@ struct istream_reader
             size_t spaces = 0;
             for (auto c : view)
             {
-                if (!isspace(c))
+                if (!isspace(uint8_t(c)))
                 {
                     consume_bytes(spaces);
                     return;
-- 
2.43.0


From 8e404a0942d441961941175dacd495b9986a0418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 25/28] fix: pb empty strings and bytes do not copy from or to
 a nullptr

---
 include/spb/pb/deserialize.hpp | 4 ++++
 include/spb/pb/serialize.hpp   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/spb/pb/deserialize.hpp b/include/spb/pb/deserialize.hpp
index 5fc6f8b..b3009b3 100644
--- a/include/spb/pb/deserialize.hpp
+++ b/include/spb/pb/deserialize.hpp
@@ -139,6 +139,10 @@ struct istream_buffer
     [[nodiscard]] size_t read(void *data, size_t data_size) noexcept
     {
         data_size = std::min(data_size, size());
+        //- an empty container may give a nullptr
+        if (data_size == 0)
+            return 0;
+
         memcpy(data, p_start, data_size);
         p_start += data_size;
         return data_size;
diff --git a/include/spb/pb/serialize.hpp b/include/spb/pb/serialize.hpp
index ad08ce0..e5b61f8 100644
--- a/include/spb/pb/serialize.hpp
+++ b/include/spb/pb/serialize.hpp
@@ -54,6 +54,10 @@ struct ostream_buffer
 
     void write(const void *data, size_t size)
     {
+        //- an empty container may give a nullptr
+        if (size == 0)
+            return;
+
         memcpy(p_buffer, data, size);
         p_buffer += size;
     }
-- 
2.43.0


From ec7689b0e72aa4cbe3b33e9d8c4400e3044187ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:33 +0000
Subject: [PATCH 26/28] fix: sprotoc options of oneof fields are not ignored

---
 src/spb-proto-compiler/ast/ast-options.cpp    | 7 +++++++
 src/spb-proto-compiler/dumper/header.cpp      | 3 +++
 src/spb-proto-compiler/dumper/json/dumper.cpp | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/src/spb-proto-compiler/ast/ast-options.cpp b/src/spb-proto-compiler/ast/ast-options.cpp
index 259c89d..fb98a1a 100644
--- a/src/spb-proto-compiler/ast/ast-options.cpp
+++ b/src/spb-proto-compiler/ast/ast-options.cpp
@@ -289,6 +289,13 @@ void resolve_options(proto_file &file, proto_message &message)
         convert_options(file, map.attributes, map.options, option_type::option_field, true);
         convert_options(file, message.attributes, map.options, option_type::option_message, false);
     }
+    for (auto &oneof : message.oneofs)
+    {
+        for (auto &field : oneof.fields)
+        {
+            convert_options(file, field.attributes, field.options, option_type::option_field, true);
+        }
+    }
     for (auto &sub_message : message.messages)
     {
         resolve_options(file, sub_message);
diff --git a/src/spb-proto-compiler/dumper/header.cpp b/src/spb-proto-compiler/dumper/header.cpp
index 88d69d0..6347a5e 100644
--- a/src/spb-proto-compiler/dumper/header.cpp
+++ b/src/spb-proto-compiler/dumper/header.cpp
@@ -353,6 +353,9 @@ void dump_message_oneof(std::ostream &stream, const proto_oneof &oneof, const pr
     stream << "std::variant<std::monostate";
     for (const auto &field : oneof.fields)
     {
+        if (auto bitfield = get_field_bits(field); !bitfield.empty())
+            throw_parse_error(file, bitfield, "bitfield can be used only with `required` label");
+
         stream << ", " << convert_to_ctype(file, field);
     }
     stream << "> " << oneof.name.get_name() << ";\n";
diff --git a/src/spb-proto-compiler/dumper/json/dumper.cpp b/src/spb-proto-compiler/dumper/json/dumper.cpp
index 25599da..bff0a6c 100644
--- a/src/spb-proto-compiler/dumper/json/dumper.cpp
+++ b/src/spb-proto-compiler/dumper/json/dumper.cpp
@@ -441,6 +441,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
             name_map.emplace(spb::json::detail::djb2_hash(field_name), one_field{
                                                                            .parsed_name = field_name,
                                                                            .name        = oneof.name,
+                                                                           .attributes  = oneof.fields[i].attributes,
                                                                            .oneof_index = i,
                                                                        });
             if (field_name != oneof.fields[i].name.proto_name)
@@ -452,6 +453,7 @@ void dump_cpp_deserialize_message_gen(std::ostream &stream, const proto_file &fi
                                  one_field{
                                      .parsed_name = std::string(oneof.fields[i].name.proto_name),
                                      .name        = oneof.name,
+                                     .attributes  = oneof.fields[i].attributes,
                                      .oneof_index = i,
                                  });
             }
-- 
2.43.0


From 16dec1564289ef2ce62e98a8413e4438f527a3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:57 +0000
Subject: [PATCH 27/28] fix: sprotoc enum numbers with a sign or a hex letter
 are read as written

---
 src/spb-proto-compiler/parser/parser.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/spb-proto-compiler/parser/parser.cpp b/src/spb-proto-compiler/parser/parser.cpp
index 873448c..b6f6e61 100644
--- a/src/spb-proto-compiler/parser/parser.cpp
+++ b/src/spb-proto-compiler/parser/parser.cpp
@@ -23,10 +23,12 @@
 #include <exception>
 #include <filesystem>
 #include <io/file.h>
+#include <limits>
 #include <parser/char_stream.h>
 #include <spb/to_from_chars.h>
 #include <stdexcept>
 #include <string_view>
+#include <type_traits>
 
 namespace
 {
@@ -88,20 +90,28 @@ concept int_or_float = std::integral<T> || std::floating_point<T>;
 
 auto consume_number(spb::char_stream &stream, std::integral auto &number) -> bool
 {
-    number    = {};
-    auto base = 10;
+    number              = {};
+    auto base           = 10;
+    const auto negative = std::is_signed_v<std::decay_t<decltype(number)>> && stream.consume('-');
     if (stream.consume('0'))
     {
         base = 8;
         if (stream.consume('x') || stream.consume('X'))
             base = 16;
-
-        if (!::isdigit(stream.current_char()))
+        else if (!::isdigit((unsigned char) stream.current_char()))
             return true;
     }
-    auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), number, base);
-    if (result.ec == std::errc{}) [[likely]]
+    //- from_chars parses the sign only in front of the digits
+    if (!::isxdigit((unsigned char) stream.current_char()))
+        return false;
+
+    auto digits = uint64_t();
+    auto result = spb_std_emu::from_chars(stream.begin(), stream.end(), digits, base);
+    const auto limit =
+        uint64_t(std::numeric_limits<std::decay_t<decltype(number)>>::max()) + (negative ? 1 : 0);
+    if (result.ec == std::errc{} && digits <= limit) [[likely]]
     {
+        number = std::decay_t<decltype(number)>(negative ? 0 - digits : digits);
         stream.skip_to(result.ptr);
         return true;
     }
-- 
2.43.0


From 6227c0814fef2228aa8afc862cbca73518ef7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 28/28] fix: sprotoc an unknown type option is rejected

---
 src/spb-proto-compiler/ast/ast-types.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spb-proto-compiler/ast/ast-types.cpp b/src/spb-proto-compiler/ast/ast-types.cpp
index ea6a040..d8bea65 100644
--- a/src/spb-proto-compiler/ast/ast-types.cpp
+++ b/src/spb-proto-compiler/ast/ast-types.cpp
@@ -181,7 +181,7 @@ using scalar_encoder = spb::pb::detail::scalar_encoder;
     if (const auto name = field.attributes.type; !name.empty())
     {
         const auto field_type = get_scalar_bit_type(remove_bitfield(name));
-        if (!convertible_types(type, field_type))
+        if (field_type == proto_field::BitType::NONE || !convertible_types(type, field_type))
         {
             throw_parse_error(file, name,
                               std::string("incompatible int type: ") +
-- 
2.43.0

