From 1260a2c65fa65e2bc2a91ceed4889b80317ce3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:18 +0000
Subject: [PATCH 01/34] fix: deserializing an object keeps the failure of every
 member

The boolean overload overwrote the result with that of the last member present, and lost failures recorded in the copies of the archive that persist returns in derived classes; {"a":"x","b":1} was accepted for two int members.
---
 include/persistence/deserialize_object.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index f18fb5f..04c471b 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -22,10 +22,11 @@ namespace persistence
     template<bool Exception, typename C>
     struct JsonObjectDeserializer : JsonContextAwareDeserializer
     {
-        JsonObjectDeserializer(DeserializerContext& context, const rapidjson::Value& json_object, C& object)
+        JsonObjectDeserializer(DeserializerContext& context, const rapidjson::Value& json_object, C& object, bool& result)
             : JsonContextAwareDeserializer(context)
             , json_object(json_object)
             , object(object)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -37,7 +38,7 @@ namespace persistence
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, value, value_context);
+                result = deserialize<Exception>(it->value, value, value_context) && result;
                 member.ref(object) = std::move(value);
             } else {
                 member.ref(object) = std::nullopt;
@@ -53,7 +54,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
                 return *this;
             } else {
                 if constexpr (Exception) {
@@ -76,7 +77,7 @@ namespace persistence
             auto it = detail::find_object_member(json_object, member);
             if (it != json_object.MemberEnd()) {
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, member.ref(object), value_context);
+                result = deserialize<Exception>(it->value, member.ref(object), value_context) && result;
             }
             return *this;
         }
@@ -98,8 +99,8 @@ namespace persistence
         /** The C++ object into which data is written. */
         C& object;
 
-        /** The result of deserializing the entire object. */
-        bool result = true;
+        /** The result of deserializing the entire object (shared by all copies returned by `persist`). */
+        bool& result;
     };
 
     template<typename T>
@@ -129,9 +130,10 @@ namespace persistence
                 return false;
             }
 
-            JsonObjectDeserializer<Exception, T> deserializer(context, json, value);
+            bool result = true;
+            JsonObjectDeserializer<Exception, T> deserializer(context, json, value, result);
             value.persist(deserializer);
-            return static_cast<bool>(deserializer);
+            return result;
         }
     };
 }
-- 
2.43.0


From 480c9f69f034c3f28a204bbf33c9708418cdbfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 02/34] fix: writing an object keeps the failure of every
 member

A failing member of a derived class was lost with the archive copy returned by persist (the writer then reported success with malformed JSON), and the DOM serializer dropped a failing member and reported success.
---
 include/persistence/serialize_object.hpp | 11 +++++++----
 include/persistence/write_object.hpp     | 10 ++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/persistence/serialize_object.hpp b/include/persistence/serialize_object.hpp
index 28cd200..48aae27 100644
--- a/include/persistence/serialize_object.hpp
+++ b/include/persistence/serialize_object.hpp
@@ -11,10 +11,11 @@ namespace persistence
     template<typename C>
     struct JsonObjectSerializer : JsonContextAwareSerializer
     {
-        JsonObjectSerializer(SerializerContext& context, const C& object, rapidjson::Value& json_object)
+        JsonObjectSerializer(SerializerContext& context, const C& object, rapidjson::Value& json_object, bool& result)
             : JsonContextAwareSerializer(context)
             , object(object)
             , json_object(json_object)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -63,6 +64,7 @@ namespace persistence
             rapidjson::Value member_json;
             SerializerContext member_context(context, Segment(name));
             PERSISTENCE_IF_UNLIKELY(!serialize(ref, member_json, member_context)) {
+                result = false;
                 return *this;
             }
 
@@ -78,8 +80,8 @@ namespace persistence
         /** The JSON object into which data is written. */
         rapidjson::Value& json_object;
 
-        /** The result of serializing the entire object. */
-        bool result = true;
+        /** The result of serializing the entire object (shared by all copies returned by `persist`). */
+        bool& result;
     };
 
     template<typename T>
@@ -105,7 +107,8 @@ namespace persistence
 
         bool operator()(const T& value, rapidjson::Value& json) const
         {
-            JsonObjectSerializer<T> serializer(context, value, json);
+            bool result = true;
+            JsonObjectSerializer<T> serializer(context, value, json, result);
 
             json.SetObject();
             const_cast<T&>(value).persist(serializer);
diff --git a/include/persistence/write_object.hpp b/include/persistence/write_object.hpp
index bec157e..5194a60 100644
--- a/include/persistence/write_object.hpp
+++ b/include/persistence/write_object.hpp
@@ -12,10 +12,11 @@ namespace persistence
     template<typename C>
     struct JsonObjectWriter : JsonContextAwareWriter
     {
-        JsonObjectWriter(WriterContext& context, const C& object, StringWriter& writer)
+        JsonObjectWriter(WriterContext& context, const C& object, StringWriter& writer, bool& result)
             : JsonContextAwareWriter(context)
             , object(object)
             , writer(writer)
+            , result(result)
         {}
 
         template<typename T, class B, auto P, typename D>
@@ -75,8 +76,8 @@ namespace persistence
         /** The JSON string buffer into which data is written. */
         StringWriter& writer;
 
-        /** The result of serializing the entire object. */
-        bool result = true;
+        /** The result of serializing the entire object (shared by all copies returned by `persist`). */
+        bool& result;
     };
 
     template<typename T>
@@ -102,7 +103,8 @@ namespace persistence
 
         bool operator()(const T& value, StringWriter& writer) const
         {
-            JsonObjectWriter serializer(context, value, writer);
+            bool result = true;
+            JsonObjectWriter serializer(context, value, writer, result);
 
             writer.StartObject();
             const_cast<T&>(value).persist(serializer);
-- 
2.43.0


From 58ffd64989b5c71dedd86722aa56d3f7460e94e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 03/34] fix: optional member is assigned only when its value
 has been read

A JSON value of the wrong type left the temporary uninitialized, and its indeterminate value was then moved into the member.
---
 include/persistence/deserialize_object.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_object.hpp b/include/persistence/deserialize_object.hpp
index 04c471b..4162f58 100644
--- a/include/persistence/deserialize_object.hpp
+++ b/include/persistence/deserialize_object.hpp
@@ -38,8 +38,11 @@ namespace persistence
             if (it != json_object.MemberEnd()) {
                 T value;
                 DeserializerContext value_context(context, Segment(it->name.GetString()));
-                result = deserialize<Exception>(it->value, value, value_context) && result;
-                member.ref(object) = std::move(value);
+                if (deserialize<Exception>(it->value, value, value_context)) {
+                    member.ref(object) = std::move(value);
+                } else {
+                    result = false;
+                }
             } else {
                 member.ref(object) = std::nullopt;
             }
-- 
2.43.0


From 97d24d94f072abdc0dc382e6d606ff52af75a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 04/34] fix: base64_encode reads within its input

Encoding 24 bytes (or any multiple) read 2 bytes past the end of the input, and words were loaded through misaligned pointers.
---
 include/persistence/base64.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/persistence/base64.hpp b/include/persistence/base64.hpp
index a35caa4..e14c806 100644
--- a/include/persistence/base64.hpp
+++ b/include/persistence/base64.hpp
@@ -2,6 +2,8 @@
 #include "bytes.hpp"
 #include "detail/unlikely.hpp"
 #include <array>
+#include <cstdint>
+#include <cstring>
 
 namespace persistence
 {
@@ -100,7 +102,7 @@ namespace persistence
             return true;
         }
 
-        std::size_t fast_sextets = input.size() / 24 * 4;  // round to multiples of 8 bytes to ensure pointer stays in addressable range
+        std::size_t fast_sextets = input.size() < 8 ? 0 : (input.size() - 2) / 6;  // a 64-bit word read for a sextet extends 2 bytes past it
         std::size_t full_triplets = input.size() / 3;
         std::size_t remaining_triplets = full_triplets - fast_sextets * 2;
         std::size_t remaining_bytes = input.size() % 3;
@@ -112,7 +114,8 @@ namespace persistence
 
         // iterate over data with 64-bit words, processing full sextets
         for (std::size_t i = 0; i < fast_sextets; ++i) {
-            uint64_t value = *reinterpret_cast<const uint64_t*>(p);
+            std::uint64_t value;
+            std::memcpy(&value, p, sizeof(value));
             if constexpr (detail::endianness::native == detail::endianness::little) {
                 detail::encode_sextet_little_endian(value, r);
             } else if constexpr (detail::endianness::native == detail::endianness::big) {
-- 
2.43.0


From d4b24bd47a3b04911dc99591bf36dcb61078ab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 05/34] fix: string enumerations can be parsed inside
 containers and objects

The parse handler stayed on the stack after a string value, so that ["a"] or {"k":"a"} was rejected.
---
 include/persistence/parse_enum.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index 4195764..a7b372a 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -98,6 +98,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
@@ -123,6 +124,7 @@ namespace persistence
                 return false;
             }
 
+            context.pop();
             return true;
         }
 
-- 
2.43.0


From dbe29dbb63eff9767a21c2d2a29a3467e16d8d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:00 +0000
Subject: [PATCH 06/34] fix: back-references to set elements include the
 element index

The path recorded for a shared pointer first seen in a set lacked the index of the element.
---
 include/persistence/serialize_set.hpp | 2 +-
 include/persistence/write_set.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_set.hpp b/include/persistence/serialize_set.hpp
index d846120..fb8839a 100644
--- a/include/persistence/serialize_set.hpp
+++ b/include/persistence/serialize_set.hpp
@@ -19,7 +19,7 @@ namespace persistence
             for (auto&& item : container) {
                 rapidjson::Value item_json;
                 SerializerContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, item_json, item_context)) {
                     return false;
                 }
                 json.PushBack(item_json, context.global().allocator());
diff --git a/include/persistence/write_set.hpp b/include/persistence/write_set.hpp
index 5e891f9..00fa22e 100644
--- a/include/persistence/write_set.hpp
+++ b/include/persistence/write_set.hpp
@@ -17,7 +17,7 @@ namespace persistence
             std::size_t k = 0;
             for (const auto& item : container) {
                 WriterContext item_context(context, Segment(k));
-                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, context)) {
+                PERSISTENCE_IF_UNLIKELY(!serialize<T>(item, writer, item_context)) {
                     return false;
                 }
                 ++k;
-- 
2.43.0


From 7e67c4efa75242a1f36e748719457d734b4f0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:17 +0000
Subject: [PATCH 07/34] fix: paths are JSON pointers for every property name

Property names with '/' or '~' were not escaped, and an empty name was taken for array index 0, such that a back-reference to the object designated another place or none.
---
 include/persistence/detail/path.hpp    | 18 +++++++++++++++++-
 include/persistence/detail/segment.hpp |  9 ++++++---
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/persistence/detail/path.hpp b/include/persistence/detail/path.hpp
index 346a60e..66eaca7 100644
--- a/include/persistence/detail/path.hpp
+++ b/include/persistence/detail/path.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "segment.hpp"
 #include <charconv>
+#include <string>
 
 namespace persistence
 {
@@ -24,7 +25,7 @@ namespace persistence
             for (auto&& it = segments.rbegin(); it != segments.rend(); ++it) {
                 path.push_back('/');
                 if (it->is_named()) {
-                    path.append(it->name);
+                    append_escaped(path, it->name);
                 } else {
                     // increase buffer by number of characters required to represent largest integer in decimal digits
                     constexpr std::size_t max_len = std::numeric_limits<std::size_t>::digits10;
@@ -44,6 +45,21 @@ namespace persistence
             return path;
         }
 
+    private:
+        /** Appends a property name with the characters that are special in a JSON pointer escaped (RFC 6901). */
+        static void append_escaped(std::string& path, const std::string_view& name)
+        {
+            for (char c : name) {
+                if (c == '~') {
+                    path.append("~0");
+                } else if (c == '/') {
+                    path.append("~1");
+                } else {
+                    path.push_back(c);
+                }
+            }
+        }
+
     private:
         Segments segments;
     };
diff --git a/include/persistence/detail/segment.hpp b/include/persistence/detail/segment.hpp
index 2b32e07..91dcc4c 100644
--- a/include/persistence/detail/segment.hpp
+++ b/include/persistence/detail/segment.hpp
@@ -12,17 +12,20 @@ namespace persistence
     struct Segment
     {
         Segment() = default;
-        Segment(const std::string_view& name) : name(name) {}
+        Segment(const std::string_view& name) : name(name), named(true) {}
         Segment(std::size_t index) : index(index) {}
 
         std::string_view name;
         std::size_t index = 0;
 
         /** True for object property access. */
-        bool is_named() const { return name.size() > 0; }
+        bool is_named() const { return named; }
 
         /** True for array index access. */
-        bool is_indexed() const { return name.size() == 0; }
+        bool is_indexed() const { return !named; }
+
+    private:
+        bool named = false;
     };
 
     using Segments = std::vector<Segment>;
-- 
2.43.0


From de9018bbd30f191bc4e983e30abcbf5fa6ea4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:17 +0000
Subject: [PATCH 08/34] fix: reference table keeps the object read last for a
 location

A variant alternative that failed after reading a shared pointer left its object behind, and back-references then resolved to that object instead of the one in the result.
---
 include/persistence/detail/references.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/detail/references.hpp b/include/persistence/detail/references.hpp
index 029fbc5..54c6d3f 100644
--- a/include/persistence/detail/references.hpp
+++ b/include/persistence/detail/references.hpp
@@ -19,12 +19,12 @@ namespace persistence
 
         void put(const K& key, const V& value)
         {
-            references.insert(std::make_pair(key, value));
+            references.insert_or_assign(key, value);
         }
 
         void put(K&& key, V&& value)
         {
-            references.insert(std::make_pair(std::move(key), std::move(value)));
+            references.insert_or_assign(std::move(key), std::move(value));
         }
 
     private:
-- 
2.43.0


From 18226309211faf46c35ded88b65de1ecd4341e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:54 +0000
Subject: [PATCH 09/34] fix: back-references resolve to an object of the right
 type or fail

A reference to an object of another type was reinterpreted, a reference that is not a string or not a JSON pointer hit an assertion or undefined behaviour, and the throwing overload returned a null pointer for an unresolved reference.
---
 include/persistence/deserialize_pointer.hpp   | 23 +++++++++++++------
 .../detail/deserialize_context.hpp            | 12 +++++++---
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index e3f7279..ad477cd 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "deserialize_base.hpp"
+#include "deserialize_check.hpp"
 #include "detail/deserialize_aware.hpp"
 #include "detail/unlikely.hpp"
 #include <rapidjson/pointer.h>
@@ -40,18 +41,26 @@ namespace persistence
             if (json.IsObject()) {
                 auto&& it = json.FindMember("$ref");
                 if (it != json.MemberEnd()) {
-                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.Get(context.document());
-                    PERSISTENCE_IF_UNLIKELY(!object) {
+                    DeserializerContext ref_context(context, Segment("$ref"));
+                    if (!detail::check_string<Exception>(it->value, ref_context)) {
                         return false;
                     }
 
-                    auto ref = context.get(object);
+                    rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
+                    rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;
+                    auto ref = context.get<T>(object);
                     PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
-                        return false;
+                        if constexpr (Exception) {
+                            throw JsonDeserializationError(
+                                "unresolved reference; got: " + std::string(it->value.GetString(), it->value.GetStringLength()),
+                                Path(context.segments()).str()
+                            );
+                        } else {
+                            return false;
+                        }
                     }
 
-                    pointer = std::reinterpret_pointer_cast<T>(ref.value());
+                    pointer = std::static_pointer_cast<T>(ref.value());
                     return true;
                 }
             }
@@ -61,7 +70,7 @@ namespace persistence
                 return false;
             }
 
-            context.put(&json, pointer);
+            context.put<T>(&json, pointer);
             return true;
         }
     };
diff --git a/include/persistence/detail/deserialize_context.hpp b/include/persistence/detail/deserialize_context.hpp
index 829ef2f..77cd803 100644
--- a/include/persistence/detail/deserialize_context.hpp
+++ b/include/persistence/detail/deserialize_context.hpp
@@ -2,6 +2,9 @@
 #include "document_context.hpp"
 #include "references.hpp"
 #include "segment.hpp"
+#include <memory>
+#include <typeindex>
+#include <utility>
 
 namespace persistence
 {
@@ -10,7 +13,8 @@ namespace persistence
     {
         using DocumentContext::DocumentContext;
 
-        ReferenceTable<const rapidjson::Value*, std::shared_ptr<void>> references;
+        /** Objects that a back-reference can resolve to, identified by their location and their type. */
+        ReferenceTable<std::pair<const rapidjson::Value*, std::type_index>, std::shared_ptr<void>> references;
     };
 
     struct DeserializerContext
@@ -26,14 +30,16 @@ namespace persistence
             , segment(segment)
         {}
 
+        template<typename T>
         std::optional<std::shared_ptr<void>> get(const rapidjson::Value* pointer) const
         {
-            return global.references.get(pointer);
+            return global.references.get(std::make_pair(pointer, std::type_index(typeid(T))));
         }
 
+        template<typename T>
         void put(const rapidjson::Value* pointer, std::shared_ptr<void> object)
         {
-            global.references.put(std::move(pointer), std::move(object));
+            global.references.put(std::make_pair(pointer, std::type_index(typeid(T))), std::move(object));
         }
 
         rapidjson::Document& document()
-- 
2.43.0


From 80734541b76fdc7a1b8615e072aa6ad89d8656cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:54 +0000
Subject: [PATCH 10/34] fix: deserializing a map keeps keys with embedded NUL
 characters

The key {"a\u0000b":1} was truncated to "a".
---
 include/persistence/deserialize_map.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_map.hpp b/include/persistence/deserialize_map.hpp
index 36cd813..2ee99d5 100644
--- a/include/persistence/deserialize_map.hpp
+++ b/include/persistence/deserialize_map.hpp
@@ -23,11 +23,12 @@ namespace persistence
             value.clear();
             for (auto&& it = json.MemberBegin(); it != json.MemberEnd(); ++it) {
                 item_type item;
-                DeserializerContext item_context(context, Segment(it->name.GetString()));
+                std::string_view key(it->name.GetString(), it->name.GetStringLength());
+                DeserializerContext item_context(context, Segment(key));
                 if (!deserialize<Exception>(it->value, item, item_context)) {
                     return false;
                 }
-                value[it->name.GetString()] = std::move(item);
+                value[std::string(key)] = std::move(item);
             }
             return true;
         }
-- 
2.43.0


From b72607a8f2ab9b40ba84854f73aa3b67da6e9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:01 +0000
Subject: [PATCH 11/34] fix: an enumeration name followed by a NUL character is
 not that name

Boost.Describe compares C strings, and "Left\u0000x" was read as Left.
---
 include/persistence/deserialize_enum.hpp | 2 +-
 include/persistence/parse_enum.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize_enum.hpp b/include/persistence/deserialize_enum.hpp
index 8c9bd41..6368520 100644
--- a/include/persistence/deserialize_enum.hpp
+++ b/include/persistence/deserialize_enum.hpp
@@ -75,7 +75,7 @@ namespace persistence
             }
 
             std::string_view view(json.GetString(), json.GetStringLength());
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(view.data(), value)) {
+            PERSISTENCE_IF_UNLIKELY(view.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(view.data(), value)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "unrecognized enumeration string value; got: " + std::string(view),
diff --git a/include/persistence/parse_enum.hpp b/include/persistence/parse_enum.hpp
index a7b372a..e473d97 100644
--- a/include/persistence/parse_enum.hpp
+++ b/include/persistence/parse_enum.hpp
@@ -119,7 +119,7 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            PERSISTENCE_IF_UNLIKELY(!::boost::describe::enum_from_string(s.literal.data(), ref)) {
+            PERSISTENCE_IF_UNLIKELY(s.literal.find('\0') != std::string_view::npos || !::boost::describe::enum_from_string(s.literal.data(), ref)) {
                 context.fail("expected an enumeration string value; got: " + std::string(s.literal));
                 return false;
             }
-- 
2.43.0


From 1a824945bc49feb88b5bcc31d879c2b91c97b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:12 +0000
Subject: [PATCH 12/34] fix: a document parsed from a temporary string owns its
 strings

string_to_document(std::string&&) parsed in place and returned a document whose strings lie in the buffer of the expiring argument.
---
 include/persistence/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index fe11df1..7c31a3e 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -35,7 +35,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.Parse(str.data());
         return doc;
     }
 }
-- 
2.43.0


From 5ae75a8026dffc9d31160c3251ce59c36d4d52d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:12 +0000
Subject: [PATCH 13/34] fix: floating-point numbers are read with full
 precision

A third of all doubles came back from JSON text up to 2 units in the last place off, and FLT_MAX was rejected as out of range when parsed back.
---
 include/persistence/deserialize.hpp | 8 ++++----
 include/persistence/parse.hpp       | 2 +-
 include/persistence/utility.hpp     | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 45661ed..ab135b6 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -70,7 +70,7 @@ namespace persistence
     bool deserialize(const std::string& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -87,7 +87,7 @@ namespace persistence
     bool deserialize(std::string&& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
         return !error && deserialize(doc, obj);
     }
@@ -101,7 +101,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 
@@ -114,7 +114,7 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.ParseInsitu(str.data());
+        doc.ParseInsitu<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
     }
 }
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 5c51ff1..ee9f93e 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -17,7 +17,7 @@ namespace persistence
 
             // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
             // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse(stream, context.dispatcher);
+            return reader.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
         }
     }
 
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index 7c31a3e..afa38d6 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -25,7 +25,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 
@@ -35,7 +35,7 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.Parse(str.data());
+        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
         return doc;
     }
 }
-- 
2.43.0


From d685d5ac1a7ebe5d5bb92e32d14ad9a1b408faec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 14/34] fix: deserializing a float rejects numbers out of range

1e300 became infinity; parsing rejects it.
---
 include/persistence/deserialize_fundamental.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_fundamental.hpp b/include/persistence/deserialize_fundamental.hpp
index fb12b70..148a1b6 100644
--- a/include/persistence/deserialize_fundamental.hpp
+++ b/include/persistence/deserialize_fundamental.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/numeric_traits.hpp"
 #include "detail/path.hpp"
 #include "detail/unlikely.hpp"
 
@@ -290,7 +291,19 @@ namespace persistence
                 }
             }
 
-            value = static_cast<T>(json.GetDouble());
+            auto number = json.GetDouble();
+            PERSISTENCE_IF_UNLIKELY(!is_assignable<T>(number)) {
+                if constexpr (Exception) {
+                    throw JsonDeserializationError(
+                        "floating-point number out of range",
+                        Path(context.segments()).str()
+                    );
+                } else {
+                    return false;
+                }
+            }
+
+            value = static_cast<T>(number);
             return true;
         }
     };
-- 
2.43.0


From 574d34185a2261e6ec214f108a73f2e3386b1ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:00 +0000
Subject: [PATCH 15/34] fix: formatting a timestamp does not share state
 between threads

gmtime returns a buffer shared by all threads, so that concurrent calls could format the time of another thread.
---
 include/persistence/datetime.hpp | 41 +++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 021baf6..3469b63 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -2,6 +2,7 @@
 #include "detail/unlikely.hpp"
 #include <charconv>
 #include <chrono>
+#include <ctime>
 
 #if defined(WIN32) || defined(_WIN32) || defined(__WIN32__) || defined(__NT__)
 namespace persistence
@@ -14,6 +15,15 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return _mkgmtime(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline std::tm posix_to_utc(std::time_t t) {
+            std::tm cal{};
+            gmtime_s(&cal, &t);
+            return cal;
+        }
     }
 }
 #else
@@ -27,6 +37,15 @@ namespace persistence
         inline std::time_t utc_to_posix(std::tm* cal) {
             return timegm(cal);
         }
+
+        /**
+         * Converts a POSIX timestamp (seconds since epoch) into a Gregorian calendar UTC timestamp.
+         */
+        inline std::tm posix_to_utc(std::time_t t) {
+            std::tm cal{};
+            gmtime_r(&t, &cal);
+            return cal;
+        }
     }
 }
 #endif
@@ -250,10 +269,10 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
+        auto calendar_time = detail::posix_to_utc(posix_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_date dt;
@@ -274,13 +293,13 @@ namespace persistence
         std::time_t posix_time = std::chrono::system_clock::to_time_t(value);
 
         // convert to calendar time in timezone UTC
-        auto calendar_time = gmtime(&posix_time);
-        int year = calendar_time->tm_year + 1900;
-        int month = calendar_time->tm_mon + 1;
-        int day = calendar_time->tm_mday;
-        int hour = calendar_time->tm_hour;
-        int minute = calendar_time->tm_min;
-        int second = calendar_time->tm_sec;
+        auto calendar_time = detail::posix_to_utc(posix_time);
+        int year = calendar_time.tm_year + 1900;
+        int month = calendar_time.tm_mon + 1;
+        int day = calendar_time.tm_mday;
+        int hour = calendar_time.tm_hour;
+        int minute = calendar_time.tm_min;
+        int second = calendar_time.tm_sec;
 
         // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
         iso_datetime dt;
-- 
2.43.0


From 3a64b0fb0f73e096734fb7c856023b36d66c974c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:27 +0000
Subject: [PATCH 16/34] fix: dates and timestamps beyond the range of the
 system clock

Calendar dates went through a nanosecond time point and overflowed outside of 1677..2262 (9999-12-31 was written as 1816-03-29), and timestamps out of range were accepted with a wrong value.
---
 include/persistence/datetime.hpp         | 90 ++++++++++++++++++------
 include/persistence/deserialize_date.hpp |  6 +-
 include/persistence/parse_date.hpp       |  6 +-
 include/persistence/serialize_date.hpp   |  9 ++-
 include/persistence/write_date.hpp       |  9 ++-
 5 files changed, 89 insertions(+), 31 deletions(-)

diff --git a/include/persistence/datetime.hpp b/include/persistence/datetime.hpp
index 3469b63..9813ec2 100644
--- a/include/persistence/datetime.hpp
+++ b/include/persistence/datetime.hpp
@@ -54,19 +54,50 @@ namespace persistence
 {
     using timestamp = std::chrono::time_point<std::chrono::system_clock>;
 
+    namespace detail
+    {
+        /**
+         * Converts a Gregorian calendar date and UTC time to the number of seconds since the UNIX epoch.
+         */
+        inline std::time_t make_posix_time(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
+        {
+            std::tm tm{};
+            tm.tm_year = year - 1900;
+            tm.tm_mon = month - 1;
+            tm.tm_mday = day;
+            tm.tm_hour = hour;
+            tm.tm_min = minute;
+            tm.tm_sec = second;
+            return utc_to_posix(&tm);
+        }
+
+        /**
+         * Converts a number of seconds since the UNIX epoch to a chrono time point.
+         *
+         * @return False if the clock cannot represent the time.
+         */
+        inline bool to_timestamp(std::time_t t, timestamp& value)
+        {
+            using std::chrono::duration_cast;
+            using std::chrono::seconds;
+            PERSISTENCE_IF_UNLIKELY(
+                t < duration_cast<seconds>(timestamp::min().time_since_epoch()).count() ||
+                t > duration_cast<seconds>(timestamp::max().time_since_epoch()).count()
+            ) {
+                return false;
+            }
+
+            value = std::chrono::system_clock::from_time_t(t);
+            return true;
+        }
+    }
+
     /**
      * Creates a chrono time point from a Gregorian calendar date and UTC time.
      */
     inline timestamp make_datetime(unsigned year, unsigned month, unsigned day, unsigned hour, unsigned minute, unsigned second)
     {
-        std::tm tm{};
-        tm.tm_year = year - 1900;
-        tm.tm_mon = month - 1;
-        tm.tm_mday = day;
-        tm.tm_hour = hour;
-        tm.tm_min = minute;
-        tm.tm_sec = second;
-        std::time_t t = detail::utc_to_posix(&tm);
+        std::time_t t = detail::make_posix_time(year, month, day, hour, minute, second);
         return std::chrono::system_clock::from_time_t(t);
     }
 
@@ -118,9 +149,9 @@ namespace persistence
     }
 
     /**
-     * Parses a chrono time point from an ISO 8601 date string.
+     * Parses a calendar date from an ISO 8601 date string.
      */
-    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    inline bool parse_date(const char* text, std::size_t len, unsigned& year, unsigned& month, unsigned& day)
     {
         PERSISTENCE_IF_UNLIKELY(len != 10) {
             return false;
@@ -131,7 +162,6 @@ namespace persistence
         }
 
         using detail::from_digits;
-        unsigned year, month, day;
         PERSISTENCE_IF_UNLIKELY(
             !from_digits(text, text + 4, year) ||
             !from_digits(text + 5, text + 7, month) ||
@@ -144,10 +174,19 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, 0, 0, 0);
         return true;
     }
 
+    /**
+     * Parses a chrono time point from an ISO 8601 date string.
+     */
+    inline bool parse_date(const char* text, std::size_t len, timestamp& value)
+    {
+        unsigned year, month, day;
+        return parse_date(text, len, year, month, day)
+            && detail::to_timestamp(detail::make_posix_time(year, month, day, 0, 0, 0), value);
+    }
+
     /**
      * Parses a chrono time point from an ISO 8601 date-time string.
      */
@@ -185,8 +224,7 @@ namespace persistence
             return false;
         }
 
-        value = make_datetime(year, month, day, hour, minute, second);
-        return true;
+        return detail::to_timestamp(detail::make_posix_time(year, month, day, hour, minute, second), value);
     }
 
     namespace detail
@@ -260,6 +298,20 @@ namespace persistence
         constexpr static std::size_t length() { return 20; }
     };
 
+    /**
+     * Converts a calendar date to an ISO 8601 date string, e.g. 1982-10-23.
+     */
+    inline iso_date to_iso_date(int year, int month, int day)
+    {
+        iso_date dt;
+        using detail::to_aligned_digits;
+        to_aligned_digits<4>(dt.year(), year);
+        to_aligned_digits<2>(dt.month(), month);
+        to_aligned_digits<2>(dt.day(), day);
+
+        return dt;
+    }
+
     /**
      * Converts a chrono time point to an ISO 8601 date string.
      */
@@ -273,15 +325,7 @@ namespace persistence
         int year = calendar_time.tm_year + 1900;
         int month = calendar_time.tm_mon + 1;
         int day = calendar_time.tm_mday;
-
-        // format to seconds resolution, e.g. 1982-10-23T01:20:40Z
-        iso_date dt;
-        using detail::to_aligned_digits;
-        to_aligned_digits<4>(dt.year(), year);
-        to_aligned_digits<2>(dt.month(), month);
-        to_aligned_digits<2>(dt.day(), day);
-
-        return dt;
+        return to_iso_date(year, month, day);
     }
 
     /**
diff --git a/include/persistence/deserialize_date.hpp b/include/persistence/deserialize_date.hpp
index 1c06f8b..61c00be 100644
--- a/include/persistence/deserialize_date.hpp
+++ b/include/persistence/deserialize_date.hpp
@@ -21,8 +21,8 @@ namespace persistence
                 return false;
             }
 
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), ts)) {
+            unsigned year, month, day;
+            PERSISTENCE_IF_UNLIKELY(!parse_date(json.GetString(), json.GetStringLength(), year, month, day)) {
                 if constexpr (Exception) {
                     throw JsonDeserializationError(
                         "invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(json.GetString(), json.GetStringLength()),
@@ -33,7 +33,7 @@ namespace persistence
                 }
             }
 
-            value = std::chrono::time_point_cast<std::chrono::days>(ts);
+            value = std::chrono::year_month_day(std::chrono::year(static_cast<int>(year)), std::chrono::month(month), std::chrono::day(day));
             return true;
         }
     };
diff --git a/include/persistence/parse_date.hpp b/include/persistence/parse_date.hpp
index 99cba35..90a5a38 100644
--- a/include/persistence/parse_date.hpp
+++ b/include/persistence/parse_date.hpp
@@ -20,13 +20,13 @@ namespace persistence
 
         bool parse(const JsonValueString& s) override
         {
-            timestamp ts;
-            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), ts)) {
+            unsigned year, month, day;
+            PERSISTENCE_IF_UNLIKELY(!parse_date(s.literal.data(), s.literal.size(), year, month, day)) {
                 context.fail("invalid ISO-8601 date; expected: YYYY-MM-DD, got: " + std::string(s.literal));
                 return false;
             }
 
-            ref = std::chrono::time_point_cast<std::chrono::days>(ts);
+            ref = std::chrono::year_month_day(std::chrono::year(static_cast<int>(year)), std::chrono::month(month), std::chrono::day(day));
             context.pop();
             return true;
         }
diff --git a/include/persistence/serialize_date.hpp b/include/persistence/serialize_date.hpp
index a172eec..51186fd 100644
--- a/include/persistence/serialize_date.hpp
+++ b/include/persistence/serialize_date.hpp
@@ -5,6 +5,7 @@
 #include "datetime.hpp"
 #include "serialize_base.hpp"
 #include "detail/serialize_aware.hpp"
+#include "detail/unlikely.hpp"
 
 namespace persistence
 {
@@ -15,7 +16,13 @@ namespace persistence
 
         bool operator()(std::chrono::year_month_day value, rapidjson::Value& json) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            int year = static_cast<int>(value.year());
+            PERSISTENCE_IF_UNLIKELY(!value.ok() || year < 0 || year > 9999) {
+                // no such date, or year cannot be represented with 4 digits
+                return false;
+            }
+
+            auto dt = to_iso_date(year, static_cast<int>(static_cast<unsigned>(value.month())), static_cast<int>(static_cast<unsigned>(value.day())));
             json.SetString(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), context.global().allocator());
             return true;
         }
diff --git a/include/persistence/write_date.hpp b/include/persistence/write_date.hpp
index dbf1f43..a1594ec 100644
--- a/include/persistence/write_date.hpp
+++ b/include/persistence/write_date.hpp
@@ -4,6 +4,7 @@
 #endif
 #include "datetime.hpp"
 #include "write_base.hpp"
+#include "detail/unlikely.hpp"
 
 namespace persistence
 {
@@ -12,7 +13,13 @@ namespace persistence
     {
         bool operator()(std::chrono::year_month_day value, StringWriter& writer) const
         {
-            auto dt = to_iso_date(std::chrono::sys_days(value));
+            int year = static_cast<int>(value.year());
+            PERSISTENCE_IF_UNLIKELY(!value.ok() || year < 0 || year > 9999) {
+                // no such date, or year cannot be represented with 4 digits
+                return false;
+            }
+
+            auto dt = to_iso_date(year, static_cast<int>(static_cast<unsigned>(value.month())), static_cast<int>(static_cast<unsigned>(value.day())));
             writer.String(dt.text, static_cast<rapidjson::SizeType>(iso_date::length()), true);
             return true;
         }
-- 
2.43.0


From 879f896fb938bee508b0f9143947cc40b833b2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 17/34] fix: writing a null pointer fails instead of
 dereferencing it

Null raw, unique and shared pointers have no JSON representation and crashed the writer and the serializer.
---
 include/persistence/serialize_pointer.hpp | 8 ++++++++
 include/persistence/write_pointer.hpp     | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/persistence/serialize_pointer.hpp b/include/persistence/serialize_pointer.hpp
index 38355aa..98b6b38 100644
--- a/include/persistence/serialize_pointer.hpp
+++ b/include/persistence/serialize_pointer.hpp
@@ -14,6 +14,10 @@ namespace persistence
 
         bool operator()(const P& pointer, rapidjson::Value& json) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             return serialize(*pointer, json, context);
         }
     };
@@ -37,6 +41,10 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, rapidjson::Value& json) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             auto segments = context.get(pointer);
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
diff --git a/include/persistence/write_pointer.hpp b/include/persistence/write_pointer.hpp
index ba417a6..5adf6ec 100644
--- a/include/persistence/write_pointer.hpp
+++ b/include/persistence/write_pointer.hpp
@@ -14,6 +14,10 @@ namespace persistence
 
         bool operator()(const P& pointer, StringWriter& writer) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             return serialize(*pointer, writer, context);
         }
     };
@@ -37,6 +41,10 @@ namespace persistence
 
         bool operator()(const std::shared_ptr<T>& pointer, StringWriter& writer) const
         {
+            PERSISTENCE_IF_UNLIKELY(!pointer) {
+                return false;
+            }
+
             auto segments = context.get(pointer);
             if (segments) {
                 std::string ref = Path(std::move(*segments)).str();
-- 
2.43.0


From 1484daa48055fd64650ac9c79a59b8d69276dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 18/34] fix: stack of parse handlers is unchanged when a
 constructor throws

The stack counted the object before it was constructed, and the object below it was then destroyed twice if construction ran out of memory.
---
 include/persistence/detail/polymorphic_stack.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 95eb5f0..2cac591 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -27,11 +27,12 @@ namespace persistence
                     throw std::out_of_range("stack space exhausted");
                 }
 
+                // ensure proper alignment for newly constructed object
+                std::byte* object = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+
                 items[count] = current;
                 ++count;
-
-                // ensure proper alignment for newly constructed object
-                current = reinterpret_cast<std::byte*>(new (next) Class(std::forward<T>(args)...));
+                current = object;
                 next = current + sizeof(Class);
 
                 return back();
-- 
2.43.0


From f779ddbb714a0db62e33ab50cf1559ba01398da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 19/34] fix: no reference to an object is formed for an empty
 stack

Every successful parse ended with a reference bound to a null pointer.
---
 include/persistence/detail/polymorphic_stack.hpp | 5 +++++
 include/persistence/parse_base.hpp               | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/persistence/detail/polymorphic_stack.hpp b/include/persistence/detail/polymorphic_stack.hpp
index 2cac591..0a488a0 100644
--- a/include/persistence/detail/polymorphic_stack.hpp
+++ b/include/persistence/detail/polymorphic_stack.hpp
@@ -47,6 +47,11 @@ namespace persistence
                 pop_unsafe();
             }
 
+            bool empty() const
+            {
+                return count == 0;
+            }
+
             Base& back()
             {
                 return *reinterpret_cast<Base*>(current);
diff --git a/include/persistence/parse_base.hpp b/include/persistence/parse_base.hpp
index 1d4c39f..f54d757 100644
--- a/include/persistence/parse_base.hpp
+++ b/include/persistence/parse_base.hpp
@@ -26,7 +26,7 @@ namespace persistence
         void pop()
         {
             stack.pop();
-            dispatcher.handler = &stack.back();
+            dispatcher.handler = stack.empty() ? nullptr : &stack.back();
         }
 
         template<typename C, typename... T>
-- 
2.43.0


From ec3f1eab9417158aa68196c433bf0c69b7a8071c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 20/34] fix: a document nested too deeply is a parse error

Parsing an object of a recursive type threw std::out_of_range once the stack of handlers was full, also from the overload that throws no exceptions.
---
 include/persistence/parse.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index ee9f93e..0ce88d7 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -3,6 +3,7 @@
 #include "exception.hpp"
 #include <rapidjson/reader.h>
 #include <rapidjson/error/en.h>
+#include <stdexcept>
 
 namespace persistence
 {
@@ -15,9 +16,14 @@ namespace persistence
             rapidjson::Reader reader;
             rapidjson::StringStream stream(str.data());
 
-            // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
-            // rapidjson from parsing numbers and emitting type-specific events
-            return reader.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            try {
+                // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
+                // rapidjson from parsing numbers and emitting type-specific events
+                return reader.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+            } catch (const std::out_of_range&) {
+                context.fail("JSON document is nested too deeply");
+                return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
+            }
         }
     }
 
-- 
2.43.0


From 897d6b443c65b456d63dd42ff9e5ec932565e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 21/34] fix: vectors and sets of any type read from a number
 can be parsed

Elements of type char, signed char, unsigned char, integer enumeration or pointer to a number were rejected, because numbers arrive as typed tokens and only the generic number token was handled.
---
 include/persistence/parse_set.hpp    | 43 ++++++++++++++++++++++++++++
 include/persistence/parse_vector.hpp | 43 ++++++++++++++++++++++++++++
 2 files changed, 86 insertions(+)

diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index 0927825..ecf94dd 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -32,6 +32,49 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return parse_item(json_item);
+        }
+
+        bool parse(const JsonValueInteger& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueUnsigned& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueInteger64& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueUnsigned64& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueDouble& n) override
+        {
+            return parse_number_item(n);
+        }
+
+    private:
+        /** Numbers may arrive as tokens of a type more specific than the JSON type of the item. */
+        template<typename TokenType>
+        bool parse_number_item(const TokenType& json_item)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return parse_item(json_item);
+            } else {
+                return this->template fail<TokenType>();
+            }
+        }
+
+        template<typename TokenType>
+        bool parse_item(const TokenType& json_item)
         {
             // use temporary storage for parsing, set elements are immutable
             storage.emplace_back();
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index 88b3147..c3020a3 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -25,6 +25,49 @@ namespace persistence
         }
 
         bool parse(const typename JsonParser<T>::json_type& json_item) override
+        {
+            return parse_item(json_item);
+        }
+
+        bool parse(const JsonValueInteger& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueUnsigned& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueInteger64& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueUnsigned64& n) override
+        {
+            return parse_number_item(n);
+        }
+
+        bool parse(const JsonValueDouble& n) override
+        {
+            return parse_number_item(n);
+        }
+
+    private:
+        /** Numbers may arrive as tokens of a type more specific than the JSON type of the item. */
+        template<typename TokenType>
+        bool parse_number_item(const TokenType& json_item)
+        {
+            if constexpr (std::is_same_v<typename JsonParser<T>::json_type, JsonValueNumber>) {
+                return parse_item(json_item);
+            } else {
+                return this->template fail<TokenType>();
+            }
+        }
+
+        template<typename TokenType>
+        bool parse_item(const TokenType& json_item)
         {
             container.emplace_back();
             ReaderContext& ctx = this->context;
-- 
2.43.0


From 06d7962dcb2bb097313dfc849a9bd43ad3983f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:45 +0000
Subject: [PATCH 22/34] fix: the schema of an enumeration admits its values

The schema listed no permitted values at all, and had the type object for enumerations written as integers or with Boost.Describe names.
---
 include/persistence/schema.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 5f9e398..4cb90c1 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -7,6 +7,9 @@
 #include "detail/defer.hpp"
 #include "detail/traits.hpp"
 #include <set>
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+#include <boost/describe/enumerators.hpp>
+#endif
 
 namespace persistence
 {
@@ -157,11 +160,11 @@ namespace persistence
         {}
 
         std::string_view type;
-        std::variant<
+        std::optional<std::variant<
             std::vector<long long>,
             std::vector<unsigned long long>,
             std::vector<std::string>
-        > enum_values;
+        >> enum_values;
 
         template <typename Archive>
         constexpr auto persist(Archive& ar)
@@ -332,10 +335,12 @@ namespace persistence
         {
             if constexpr (detect<T, enum_to_string_function>::value) {
                 return JsonSchemaEnumType("string");
-            } else if constexpr (std::is_integral_v<T>) {
-                return JsonSchemaEnumType("integer");
+#ifdef PERSISTENCE_BOOST_DESCRIBE
+            } else if constexpr (::boost::describe::has_describe_enumerators<T>::value) {
+                return JsonSchemaEnumType("string");
+#endif
             } else {
-                return JsonSchemaEnumType("object");
+                return JsonSchemaEnumType("integer");
             }
         }
     };
-- 
2.43.0


From 048cc12ec7bb18c905835422519227dc93698b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:36 +0000
Subject: [PATCH 23/34] fix: schema generation terminates for recursive types

A class that contains itself in a vector, a map or through a pointer caused infinite recursion; pointers to fundamental types failed to compile.
---
 include/persistence/schema.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/persistence/schema.hpp b/include/persistence/schema.hpp
index 4cb90c1..52ee153 100644
--- a/include/persistence/schema.hpp
+++ b/include/persistence/schema.hpp
@@ -5,6 +5,7 @@
 #include "dictionary.hpp"
 #include "object.hpp"
 #include "detail/defer.hpp"
+#include "detail/pointer_traits.hpp"
 #include "detail/traits.hpp"
 #include <set>
 #ifdef PERSISTENCE_BOOST_DESCRIBE
@@ -395,18 +396,18 @@ namespace persistence
     JsonSchemaType make_schema(JsonSchemaContext& context)
     {
         if constexpr (is_schema_traversable_v<T>) {
-            // save sub-schema in context
-            context.definitions.insert(
-                std::make_pair(
-                    std::string_view(typeid(T).name()),
-                    JsonSchema<T>::type(context)
-                )
-            );
+            // save sub-schema in context (unless done or in progress, which is the case for a recursive type)
+            auto&& [it, inserted] = context.definitions.try_emplace(std::string_view(typeid(T).name()));
+            if (inserted) {
+                it->second = JsonSchema<T>::type(context);
+            }
 
             // use alias to refer to sub-schema
             return JsonSchemaReferenceType(
                 "#/definitions/" + std::string(typeid(T).name())
             );
+        } else if constexpr (is_smart_pointer<T>::value) {
+            return make_schema<typename T::element_type>(context);
         } else if constexpr (is_context_aware_schema_v<T>) {
             return JsonSchema<T>::type(context);
         } else {
-- 
2.43.0


From 0d5766712d56249b6ea3bbc762b6f861eee9a4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:42 +0000
Subject: [PATCH 24/34] fix: text that follows a NUL character is a parse error

Parsing ended at an embedded NUL character as if it were the end of the string, and anything that follows was accepted.
---
 include/persistence/deserialize.hpp | 23 ++++++++++++++++++++++-
 include/persistence/parse.hpp       |  7 ++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index ab135b6..9450eec 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -6,6 +6,15 @@
 
 namespace persistence
 {
+    namespace detail
+    {
+        /** True if JSON parsing, which ends at a NUL character, would not process all of the text. */
+        inline bool has_null_character(const std::string& str)
+        {
+            return str.find('\0') != std::string::npos;
+        }
+    }
+
     template<bool Exception, typename T>
     auto make_deserializer(DeserializerContext& context)
     {
@@ -72,7 +81,7 @@ namespace persistence
         rapidjson::Document doc;
         doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
-        return !error && deserialize(doc, obj);
+        return !error && !detail::has_null_character(str) && deserialize(doc, obj);
     }
 
     /**
@@ -86,6 +95,10 @@ namespace persistence
     template<typename T>
     bool deserialize(std::string&& str, T& obj)
     {
+        if (detail::has_null_character(str)) {
+            return false;
+        }
+
         rapidjson::Document doc;
         doc.ParseInsitu<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
         auto&& error = doc.GetParseError();
@@ -102,6 +115,9 @@ namespace persistence
 
         rapidjson::Document doc;
         doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
+        if (!doc.HasParseError() && detail::has_null_character(str)) {
+            throw JsonParseError(rapidjson::GetParseError_En(rapidjson::kParseErrorDocumentRootNotSingular), str.find('\0'));
+        }
         return deserialize<T>(doc);
     }
 
@@ -113,6 +129,11 @@ namespace persistence
     {
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
+        if (detail::has_null_character(str)) {
+            const std::string& text = str;
+            return deserialize<T>(text);
+        }
+
         rapidjson::Document doc;
         doc.ParseInsitu<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
         return deserialize<T>(doc);
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 0ce88d7..60ce777 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -19,7 +19,12 @@ namespace persistence
             try {
                 // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
                 // rapidjson from parsing numbers and emitting type-specific events
-                return reader.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+                auto result = reader.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+                if (!result.IsError() && stream.Tell() != str.size()) {
+                    // parsing ends at a NUL character, even if there is more text
+                    return rapidjson::ParseResult(rapidjson::kParseErrorDocumentRootNotSingular, stream.Tell());
+                }
+                return result;
             } catch (const std::out_of_range&) {
                 context.fail("JSON document is nested too deeply");
                 return rapidjson::ParseResult(rapidjson::kParseErrorTermination, stream.Tell());
-- 
2.43.0


From 754564079a01f475c654158a5b0bc63c82f3c588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:33 +0000
Subject: [PATCH 25/34] fix: perfect hash construction terminates for member
 names with equal low bits

The bottom bits of an FNV hash depend only on the bottom bits of the input
characters, so names such as a, b, c, e could never be separated into a
power-of-two number of slots and construction looped forever.
---
 include/persistence/detail/perfect_hash.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/persistence/detail/perfect_hash.hpp b/include/persistence/detail/perfect_hash.hpp
index 3753b16..479cebf 100644
--- a/include/persistence/detail/perfect_hash.hpp
+++ b/include/persistence/detail/perfect_hash.hpp
@@ -23,6 +23,12 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+                // have all bits of the hash influence the bottom bits, which select the slot
+                d ^= d >> 16;
+                d *= 0x85ebca6b;
+                d ^= d >> 13;
+                d *= 0xc2b2ae35;
+                d ^= d >> 16;
                 return d & 0x7fffffff;
             } else if constexpr (sizeof(hash_t) == sizeof(std::uint64_t)) {
                 // Fowler–Noll–Vo hash function variant FNV-1 for 64 bits
@@ -36,6 +42,12 @@ namespace persistence
                     // xor the bottom with the current octet
                     d ^= str[i];
                 }
+                // have all bits of the hash influence the bottom bits, which select the slot
+                d ^= d >> 33;
+                d *= 0xff51afd7ed558ccd;
+                d ^= d >> 33;
+                d *= 0xc4ceb9fe1a85ec53;
+                d ^= d >> 33;
                 return d & 0x7fffffffffffffff;
             }
         }
-- 
2.43.0


From b625970c3ee067b4f0fdc35d25d448ba92c9a639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:07 +0000
Subject: [PATCH 26/34] fix: parsing an array or object replaces the previous
 content of the container

A vector, set or map that was not empty, such as a member with an initial
value, kept its elements and parsed elements were added to them.
---
 include/persistence/parse_map.hpp    | 1 +
 include/persistence/parse_set.hpp    | 1 +
 include/persistence/parse_vector.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/persistence/parse_map.hpp b/include/persistence/parse_map.hpp
index 73593b2..c5c320e 100644
--- a/include/persistence/parse_map.hpp
+++ b/include/persistence/parse_map.hpp
@@ -45,6 +45,7 @@ namespace persistence
 
         bool parse(const JsonObjectStart&) override
         {
+            container.clear();
             context.replace<JsonMapParser<C>>(context, container);
             return true;
         }
diff --git a/include/persistence/parse_set.hpp b/include/persistence/parse_set.hpp
index ecf94dd..5e7ade5 100644
--- a/include/persistence/parse_set.hpp
+++ b/include/persistence/parse_set.hpp
@@ -285,6 +285,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonSetParser<T>>(context, ref);
             return true;
         }
diff --git a/include/persistence/parse_vector.hpp b/include/persistence/parse_vector.hpp
index c3020a3..ba52621 100644
--- a/include/persistence/parse_vector.hpp
+++ b/include/persistence/parse_vector.hpp
@@ -276,6 +276,7 @@ namespace persistence
 
         bool parse(const JsonArrayStart&) override
         {
+            ref.clear();
             context.replace<JsonArrayParser<T>>(context, ref);
             return true;
         }
-- 
2.43.0


From 648da6b28b8aa3e202ea3dbb4bbf0551f70077c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:07 +0000
Subject: [PATCH 27/34] fix: control characters U+001A to U+001F are escaped
 when writing strings

With SIMD scanning, RapidJSON 1.1.0 copies them verbatim, which produces
text that is not JSON and that cannot be read back, and lets them pass
unescaped when reading.
---
 include/persistence/detail/config.hpp | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/persistence/detail/config.hpp b/include/persistence/detail/config.hpp
index 62bd4cd..fcec746 100644
--- a/include/persistence/detail/config.hpp
+++ b/include/persistence/detail/config.hpp
@@ -1,10 +1,4 @@
 #pragma once
 
-// detect instructions which speed up RapidJSON whitespace identification
-#if defined(__SSE4_2__)
-#define RAPIDJSON_SSE42
-#elif defined(__SSE2__) || (defined(_MSC_VER) && defined(_M_X64))
-#define RAPIDJSON_SSE2
-#elif defined(__ARM_NEON)
-#define RAPIDJSON_NEON
-#endif
+// do not enable SIMD instructions in RapidJSON (macros `RAPIDJSON_SSE2`, `RAPIDJSON_SSE42` and `RAPIDJSON_NEON`),
+// the released version 1.1.0 fails to identify control characters U+001A to U+001F when scanning strings with them
-- 
2.43.0


From 4f3dfa481b747b36d428582f90e5459724ce4f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:07 +0000
Subject: [PATCH 28/34] fix: an empty string view without data can be a
 dictionary key

---
 include/persistence/serialize_map.hpp | 2 +-
 include/persistence/write_map.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/persistence/serialize_map.hpp b/include/persistence/serialize_map.hpp
index 62fb738..1c2826e 100644
--- a/include/persistence/serialize_map.hpp
+++ b/include/persistence/serialize_map.hpp
@@ -24,7 +24,7 @@ namespace persistence
                 }
 
                 rapidjson::Value key_json;
-                key_json.SetString(key.data(), static_cast<rapidjson::SizeType>(key.size()), context.global().allocator());
+                key_json.SetString(key.size() > 0 ? key.data() : "", static_cast<rapidjson::SizeType>(key.size()), context.global().allocator());
                 json.AddMember(key_json, value_json, context.global().allocator());  // ownership of key and value is transferred
             }
             return true;
diff --git a/include/persistence/write_map.hpp b/include/persistence/write_map.hpp
index 2125864..47cb233 100644
--- a/include/persistence/write_map.hpp
+++ b/include/persistence/write_map.hpp
@@ -17,7 +17,7 @@ namespace persistence
         {
             writer.StartObject();
             for (auto&& [key, value] : container) {
-                writer.Key(key.data(), static_cast<rapidjson::SizeType>(key.size()), true);
+                writer.Key(key.size() > 0 ? key.data() : "", static_cast<rapidjson::SizeType>(key.size()), true);
 
                 WriterContext value_context(context, Segment(key));
                 PERSISTENCE_IF_UNLIKELY(!serialize<typename C::value_type::second_type>(value, writer, value_context)) {
-- 
2.43.0


From 9970c316fd76e8ddd8bffc00737dbe37326d97d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:07 +0000
Subject: [PATCH 29/34] fix: back-references resolve through keys that have a
 NUL character

---
 include/persistence/deserialize_pointer.hpp | 26 ++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/persistence/deserialize_pointer.hpp b/include/persistence/deserialize_pointer.hpp
index ad477cd..9a53120 100644
--- a/include/persistence/deserialize_pointer.hpp
+++ b/include/persistence/deserialize_pointer.hpp
@@ -8,6 +8,30 @@
 
 namespace persistence
 {
+    namespace detail
+    {
+        /** Finds the value that a JSON pointer identifies, whose tokens may have a NUL character. */
+        inline const rapidjson::Value* find_value(const rapidjson::Pointer& path, const rapidjson::Value& root)
+        {
+            const rapidjson::Value* value = &root;
+            for (std::size_t k = 0; k < path.GetTokenCount(); ++k) {
+                auto&& token = path.GetTokens()[k];
+                if (value->IsObject()) {
+                    auto&& it = value->FindMember(rapidjson::Value(rapidjson::StringRef(token.name, token.length)));
+                    if (it == value->MemberEnd()) {
+                        return nullptr;
+                    }
+                    value = &it->value;
+                } else if (value->IsArray() && token.index < value->Size()) {
+                    value = &(*value)[token.index];
+                } else {
+                    return nullptr;
+                }
+            }
+            return value;
+        }
+    }
+
     template<bool Exception, typename T>
     struct JsonDeserializer<Exception, T*>
     {
@@ -47,7 +71,7 @@ namespace persistence
                     }
 
                     rapidjson::Pointer path(it->value.GetString(), it->value.GetStringLength());
-                    rapidjson::Value* object = path.IsValid() ? path.Get(context.document()) : nullptr;
+                    const rapidjson::Value* object = path.IsValid() ? detail::find_value(path, context.document()) : nullptr;
                     auto ref = context.get<T>(object);
                     PERSISTENCE_IF_UNLIKELY(!ref.has_value()) {
                         if constexpr (Exception) {
-- 
2.43.0


From 683563fa197b48a9101f225c746ba8d6092193b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:57 +0000
Subject: [PATCH 30/34] fix: numbers beyond the range of double are rejected
 rather than read as infinity or NaN

---
 include/persistence/detail/numeric_traits.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/persistence/detail/numeric_traits.hpp b/include/persistence/detail/numeric_traits.hpp
index 23a40d3..6d4f739 100644
--- a/include/persistence/detail/numeric_traits.hpp
+++ b/include/persistence/detail/numeric_traits.hpp
@@ -60,13 +60,8 @@ namespace persistence
             }
         } else if constexpr (std::is_floating_point_v<T>) {
             if constexpr (std::is_floating_point_v<V>) {
-                if constexpr (sizeof(T) >= sizeof(V)) {
-                    // non-narrowing assignment
-                    return true;
-                } else {
-                    // check if value is within range of receiving floating point type
-                    return value >= std::numeric_limits<T>::lowest() && value <= std::numeric_limits<T>::max();
-                }
+                // check if value is finite and within range of receiving floating point type
+                return value >= std::numeric_limits<T>::lowest() && value <= std::numeric_limits<T>::max();
             } else if constexpr (std::is_integral_v<V>) {
                 if constexpr (std::numeric_limits<T>::digits >= std::numeric_limits<V>::digits) {
                     // integer binary digits fit in floating point mantissa
-- 
2.43.0


From 54cafe9d06f7de675494c8084998c9dccea3c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 31/34] fix: numbers are converted exactly, without the
 full-precision mode of RapidJSON that fails for extreme exponents

---
 include/persistence/deserialize.hpp         |  22 ++--
 include/persistence/detail/exact_number.hpp | 138 ++++++++++++++++++++
 include/persistence/parse.hpp               |   4 +-
 include/persistence/utility.hpp             |  11 +-
 4 files changed, 163 insertions(+), 12 deletions(-)
 create mode 100644 include/persistence/detail/exact_number.hpp

diff --git a/include/persistence/deserialize.hpp b/include/persistence/deserialize.hpp
index 9450eec..8cdf202 100644
--- a/include/persistence/deserialize.hpp
+++ b/include/persistence/deserialize.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "deserialize_base.hpp"
 #include "detail/deserialize_aware.hpp"
+#include "detail/exact_number.hpp"
 #include "detail/traits.hpp"
 #include <rapidjson/error/en.h>
 
@@ -79,9 +80,8 @@ namespace persistence
     bool deserialize(const std::string& str, T& obj)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
-        auto&& error = doc.GetParseError();
-        return !error && !detail::has_null_character(str) && deserialize(doc, obj);
+        auto result = detail::parse_document(doc, str);
+        return !result.IsError() && !detail::has_null_character(str) && deserialize(doc, obj);
     }
 
     /**
@@ -100,9 +100,8 @@ namespace persistence
         }
 
         rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
-        auto&& error = doc.GetParseError();
-        return !error && deserialize(doc, obj);
+        auto result = detail::parse_document_insitu(doc, str);
+        return !result.IsError() && deserialize(doc, obj);
     }
 
     /**
@@ -114,8 +113,10 @@ namespace persistence
         static_assert(!std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_reference_v<T>, "expected a type without qualifiers");
 
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
-        if (!doc.HasParseError() && detail::has_null_character(str)) {
+        auto result = detail::parse_document(doc, str);
+        if (result.IsError()) {
+            throw JsonParseError(rapidjson::GetParseError_En(result.Code()), result.Offset());
+        } else if (detail::has_null_character(str)) {
             throw JsonParseError(rapidjson::GetParseError_En(rapidjson::kParseErrorDocumentRootNotSingular), str.find('\0'));
         }
         return deserialize<T>(doc);
@@ -135,7 +136,10 @@ namespace persistence
         }
 
         rapidjson::Document doc;
-        doc.ParseInsitu<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
+        auto result = detail::parse_document_insitu(doc, str);
+        if (result.IsError()) {
+            throw JsonParseError(rapidjson::GetParseError_En(result.Code()), result.Offset());
+        }
         return deserialize<T>(doc);
     }
 }
diff --git a/include/persistence/detail/exact_number.hpp b/include/persistence/detail/exact_number.hpp
new file mode 100644
index 0000000..f5fb9de
--- /dev/null
+++ b/include/persistence/detail/exact_number.hpp
@@ -0,0 +1,138 @@
+#pragma once
+#include "config.hpp"
+#include <rapidjson/document.h>
+#include <rapidjson/reader.h>
+#include <algorithm>
+#include <charconv>
+#include <cstdint>
+#include <limits>
+#include <string>
+#include <string_view>
+
+namespace persistence
+{
+    namespace detail
+    {
+        /**
+         * Forwards JSON reader events to another handler, with number literals converted to the nearest number.
+         *
+         * To be used with the flag `kParseNumbersAsStringsFlag`. The number conversion of the reader itself is inaccurate by
+         * default, and yields wrong numbers or accesses invalid memory for extreme exponents with `kParseFullPrecisionFlag`.
+         */
+        template<typename Handler>
+        struct ExactNumberHandler
+        {
+            ExactNumberHandler(Handler& handler)
+                : handler(handler)
+            {}
+
+            bool Null() { return handler.Null(); }
+            bool Bool(bool b) { return handler.Bool(b); }
+            bool Int(int i) { return handler.Int(i); }
+            bool Uint(unsigned u) { return handler.Uint(u); }
+            bool Int64(std::int64_t i) { return handler.Int64(i); }
+            bool Uint64(std::uint64_t u) { return handler.Uint64(u); }
+            bool Double(double d) { return handler.Double(d); }
+            bool String(const char* str, rapidjson::SizeType length, bool copy) { return handler.String(str, length, copy); }
+            bool StartObject() { return handler.StartObject(); }
+            bool Key(const char* str, rapidjson::SizeType length, bool copy) { return handler.Key(str, length, copy); }
+            bool EndObject(rapidjson::SizeType count) { return handler.EndObject(count); }
+            bool StartArray() { return handler.StartArray(); }
+            bool EndArray(rapidjson::SizeType count) { return handler.EndArray(count); }
+
+            bool RawNumber(const char* str, rapidjson::SizeType length, bool)
+            {
+                std::string_view literal(str, length);
+                if (literal.find_first_of(".eE") == std::string_view::npos) {
+                    if (literal.front() == '-') {
+                        std::int64_t value;
+                        if (convert(literal, value)) {
+                            if (value >= std::numeric_limits<int>::min()) {
+                                return handler.Int(static_cast<int>(value));
+                            } else {
+                                return handler.Int64(value);
+                            }
+                        }
+                    } else {
+                        std::uint64_t value;
+                        if (convert(literal, value)) {
+                            if (value <= std::numeric_limits<unsigned>::max()) {
+                                return handler.Uint(static_cast<unsigned>(value));
+                            } else {
+                                return handler.Uint64(value);
+                            }
+                        }
+                    }
+                }
+
+                double value;
+                if (convert(literal, value)) {
+                    return handler.Double(value);
+                }
+
+                // literal has a magnitude that is either too large or too small
+                value = is_large(literal) ? std::numeric_limits<double>::infinity() : 0.0;
+                return handler.Double(literal.front() == '-' ? -value : value);
+            }
+
+        private:
+            template<typename T>
+            static bool convert(const std::string_view& literal, T& value)
+            {
+                return std::from_chars(literal.data(), literal.data() + literal.size(), value).ec == std::errc();
+            }
+
+            /** True if a non-zero number that is out of range of a double is too large (as opposed to being too close to zero). */
+            static bool is_large(const std::string_view& literal)
+            {
+                auto digit = static_cast<long>(literal.find_first_of("123456789"));
+                auto integer_end = static_cast<long>(std::min(literal.find_first_of(".eE"), literal.size()));
+                auto exponent = literal.find_first_of("eE");
+                if (exponent == std::string_view::npos) {
+                    return digit < integer_end;
+                }
+
+                auto exponent_sign = literal[exponent + 1];
+                if (exponent_sign == '+' || exponent_sign == '-') {
+                    ++exponent;
+                }
+
+                long power;
+                if (!convert(literal.substr(exponent + 1), power)) {
+                    return exponent_sign != '-';
+                }
+                return integer_end - digit + (exponent_sign == '-' ? -power : power) > 0;
+            }
+
+        private:
+            Handler& handler;
+        };
+
+        /** Builds a DOM document from a JSON text with numbers converted exactly. */
+        template<unsigned Flags, typename Stream>
+        rapidjson::ParseResult parse_document(rapidjson::Document& doc, Stream stream)
+        {
+            rapidjson::ParseResult result;
+            auto generator = [&](rapidjson::Document& handler) {
+                rapidjson::Reader reader;
+                ExactNumberHandler<rapidjson::Document> exact(handler);
+                result = reader.Parse<Flags | rapidjson::kParseNumbersAsStringsFlag>(stream, exact);
+                return !result.IsError();
+            };
+            doc.Populate(generator);
+            return result;
+        }
+
+        /** Builds a DOM document from a JSON text with numbers converted exactly. */
+        inline rapidjson::ParseResult parse_document(rapidjson::Document& doc, const std::string& str)
+        {
+            return parse_document<rapidjson::kParseDefaultFlags>(doc, rapidjson::StringStream(str.data()));
+        }
+
+        /** Builds a DOM document from a JSON text with numbers converted exactly, reusing the text to store strings. */
+        inline rapidjson::ParseResult parse_document_insitu(rapidjson::Document& doc, std::string& str)
+        {
+            return parse_document<rapidjson::kParseDefaultFlags | rapidjson::kParseInsituFlag>(doc, rapidjson::InsituStringStream(str.data()));
+        }
+    }
+}
diff --git a/include/persistence/parse.hpp b/include/persistence/parse.hpp
index 60ce777..dcd5a05 100644
--- a/include/persistence/parse.hpp
+++ b/include/persistence/parse.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "parse_base.hpp"
 #include "exception.hpp"
+#include "detail/exact_number.hpp"
 #include <rapidjson/reader.h>
 #include <rapidjson/error/en.h>
 #include <stdexcept>
@@ -19,7 +20,8 @@ namespace persistence
             try {
                 // pass flag `kParseNumbersAsStringsFlag` as non-type template argument to prevent
                 // rapidjson from parsing numbers and emitting type-specific events
-                auto result = reader.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(stream, context.dispatcher);
+                ExactNumberHandler<JsonParseEventDispatcher> handler(context.dispatcher);
+                auto result = reader.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseNumbersAsStringsFlag>(stream, handler);
                 if (!result.IsError() && stream.Tell() != str.size()) {
                     // parsing ends at a NUL character, even if there is more text
                     return rapidjson::ParseResult(rapidjson::kParseErrorDocumentRootNotSingular, stream.Tell());
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index afa38d6..389487d 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "detail/config.hpp"
+#include "detail/exact_number.hpp"
 #include "detail/pointer_traits.hpp"
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
@@ -25,7 +26,10 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
+        if (detail::parse_document(doc, str).IsError()) {
+            // record the parse error in the document
+            doc.Parse(str.data());
+        }
         return doc;
     }
 
@@ -35,7 +39,10 @@ namespace persistence
     inline rapidjson::Document string_to_document(std::string&& str)
     {
         rapidjson::Document doc;
-        doc.Parse<rapidjson::kParseDefaultFlags | rapidjson::kParseFullPrecisionFlag>(str.data());
+        if (detail::parse_document(doc, str).IsError()) {
+            // record the parse error in the document
+            doc.Parse(str.data());
+        }
         return doc;
     }
 }
-- 
2.43.0


From 71a1d9630f3adda62d309237bb6253bef88aac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:51 +0000
Subject: [PATCH 32/34] fix: reading a document does not recurse with the
 nesting of the text

---
 include/persistence/detail/exact_number.hpp | 2 +-
 include/persistence/utility.hpp             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/persistence/detail/exact_number.hpp b/include/persistence/detail/exact_number.hpp
index f5fb9de..642e18e 100644
--- a/include/persistence/detail/exact_number.hpp
+++ b/include/persistence/detail/exact_number.hpp
@@ -116,7 +116,7 @@ namespace persistence
             auto generator = [&](rapidjson::Document& handler) {
                 rapidjson::Reader reader;
                 ExactNumberHandler<rapidjson::Document> exact(handler);
-                result = reader.Parse<Flags | rapidjson::kParseNumbersAsStringsFlag>(stream, exact);
+                result = reader.Parse<Flags | rapidjson::kParseIterativeFlag | rapidjson::kParseNumbersAsStringsFlag>(stream, exact);
                 return !result.IsError();
             };
             doc.Populate(generator);
diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index 389487d..6e9087b 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -28,7 +28,7 @@ namespace persistence
         rapidjson::Document doc;
         if (detail::parse_document(doc, str).IsError()) {
             // record the parse error in the document
-            doc.Parse(str.data());
+            doc.Parse<rapidjson::kParseIterativeFlag>(str.data());
         }
         return doc;
     }
@@ -41,7 +41,7 @@ namespace persistence
         rapidjson::Document doc;
         if (detail::parse_document(doc, str).IsError()) {
             // record the parse error in the document
-            doc.Parse(str.data());
+            doc.Parse<rapidjson::kParseIterativeFlag>(str.data());
         }
         return doc;
     }
-- 
2.43.0


From 75a0c355d56a8b7a3859f0e003ae224a373f7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:50 +0000
Subject: [PATCH 33/34] fix: a document read from a text with a NUL character
 has a parse error

---
 include/persistence/utility.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/persistence/utility.hpp b/include/persistence/utility.hpp
index 6e9087b..6278092 100644
--- a/include/persistence/utility.hpp
+++ b/include/persistence/utility.hpp
@@ -5,6 +5,7 @@
 #include <rapidjson/document.h>
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
+#include <algorithm>
 #include <string>
 
 namespace persistence
@@ -26,7 +27,12 @@ namespace persistence
     inline rapidjson::Document string_to_document(const std::string& str)
     {
         rapidjson::Document doc;
-        if (detail::parse_document(doc, str).IsError()) {
+        if (str.find('\0') != std::string::npos) {
+            // a NUL character terminates the text for the reader, substitute another character that is invalid anywhere in JSON
+            std::string text(str);
+            std::replace(text.begin(), text.end(), '\0', '\x01');
+            doc.Parse<rapidjson::kParseIterativeFlag>(text.data());
+        } else if (detail::parse_document(doc, str).IsError()) {
             // record the parse error in the document
             doc.Parse<rapidjson::kParseIterativeFlag>(str.data());
         }
@@ -38,11 +44,7 @@ namespace persistence
      */
     inline rapidjson::Document string_to_document(std::string&& str)
     {
-        rapidjson::Document doc;
-        if (detail::parse_document(doc, str).IsError()) {
-            // record the parse error in the document
-            doc.Parse<rapidjson::kParseIterativeFlag>(str.data());
-        }
-        return doc;
+        const std::string& text = str;
+        return string_to_document(text);
     }
 }
-- 
2.43.0


From 4737e0a353f07a389c6ee124b0d1036438b249e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:05 +0000
Subject: [PATCH 34/34] fix: identify written shared objects by address and
 type, an object and its first member share an address

---
 include/persistence/detail/output_context.hpp | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/persistence/detail/output_context.hpp b/include/persistence/detail/output_context.hpp
index c18eb79..af2064c 100644
--- a/include/persistence/detail/output_context.hpp
+++ b/include/persistence/detail/output_context.hpp
@@ -2,12 +2,15 @@
 #include "references.hpp"
 #include "segment.hpp"
 #include <memory>
+#include <typeindex>
+#include <utility>
 
 namespace persistence
 {
     struct WriterReferenceContext
     {
-        ReferenceTable<std::shared_ptr<void>, Segments> references;
+        /** Objects written earlier, identified by their address and type (an object and its first member share an address). */
+        ReferenceTable<std::pair<std::shared_ptr<void>, std::type_index>, Segments> references;
     };
 
     template<typename GlobalContext>
@@ -24,14 +27,16 @@ namespace persistence
             , segment(segment)
         {}
 
-        std::optional<Segments> get(const std::shared_ptr<void>& pointer) const
+        template<typename T>
+        std::optional<Segments> get(const std::shared_ptr<T>& pointer) const
         {
-            return global_context.references.get(pointer);
+            return global_context.references.get(key(pointer));
         }
 
-        void put(std::shared_ptr<void> pointer)
+        template<typename T>
+        void put(const std::shared_ptr<T>& pointer)
         {
-            global_context.references.put(std::move(pointer), segments());
+            global_context.references.put(key(pointer), segments());
         }
 
         GlobalContext& global()
@@ -50,6 +55,13 @@ namespace persistence
             return segs;
         }
 
+    private:
+        template<typename T>
+        static std::pair<std::shared_ptr<void>, std::type_index> key(const std::shared_ptr<T>& pointer)
+        {
+            return std::make_pair(std::shared_ptr<void>(pointer), std::type_index(typeid(T)));
+        }
+
     private:
         GlobalContext& global_context;
         OutputContext<GlobalContext>* parent_context;
-- 
2.43.0

