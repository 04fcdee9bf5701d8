// User extensions through the documented specialization points: JsonWriter, JsonParser, JsonSerializer, JsonDeserializer.
#pragma once
#include "types.hpp"
#include <persistence/persistence.hpp>
#include <persistence/write_all.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/utility.hpp>

struct Hex { std::uint32_t value = 0; bool operator<(const Hex& o) const { return value < o.value; } };   // string of eight hexadecimal digits; 0xdead.... cannot be written
inline std::string hex_text(std::uint32_t v) { std::string s(8, '0'); for (int i = 7; i >= 0; --i, v >>= 4) s[std::size_t(i)] = "0123456789abcdef"[v & 15]; return s; }
inline bool hex_value(std::string_view s, std::uint32_t& v) {
    if (s.size() != 8) return false;
    std::uint32_t r = 0;
    for (char c : s) { r <<= 4; if (c >= '0' && c <= '9') r |= std::uint32_t(c - '0'); else if (c >= 'a' && c <= 'f') r |= std::uint32_t(c - 'a' + 10); else return false; }
    v = r;
    return true;
}
inline bool hex_good(std::uint32_t v) { return v >> 16 != 0xdead; }
template<typename T> struct Box { T value{}; };   // written as its content
template<typename T> struct Text { T value{}; bool operator<(const Text& o) const { return value < o.value; } };   // written as a string that holds the JSON text of its content: the library is entered again from within
struct Even { int value = 0; };                   // an integer that must be even; no parser

template<> struct Model<Hex> {
    static void gen(Gen& g, Hex& x) { x.value = std::uint32_t(g.r.next()); if (!hex_good(x.value)) x.value = 1; if (g.bad && g.r.chance(1, 5)) x.value = 0xdead0001u; }
    static bool enc(Enc& e, const Hex& x, Node& o) { o = Node::str(hex_text(x.value)); return hex_good(x.value) || e.mode == CANON; }
    static bool dec(Dec& d, const Node& n, Hex& x) { if (n.k != mj::Str) return d.fail("not a string", n); return hex_value(n.s, x.value) ? true : d.fail("not hexadecimal", n); }
};
template<> struct Model<Even> {
    static void gen(Gen& g, Even& x) { Model<int>::gen(g, x.value); x.value &= ~1; if (g.bad && g.r.chance(1, 5)) x.value |= 1; }
    static bool enc(Enc& e, const Even& x, Node& o) { return Model<int>::enc(e, x.value, o) && (x.value % 2 == 0 || e.mode == CANON); }
    static bool dec(Dec& d, const Node& n, Even& x) { if (!Model<int>::dec(d, n, x.value)) return false; return x.value % 2 == 0 ? true : d.fail("odd", n); }
};
template<typename T> struct Model<Text<T>> {
    static void gen(Gen& g, Text<T>& x) { Model<T>::gen(g, x.value); }
    static bool enc(Enc& e, const Text<T>& x, Node& o) { Node in; if (!Model<T>::enc(e, x.value, in)) return false; o = Node::str(mj::text(in)); return true; }
    static bool dec(Dec& d, const Node& n, Text<T>& x) {
        if (n.k != mj::Str) return d.fail("not a string", n);
        auto rd = mj::read(n.s);
        Dec inner{ d.mode }; inner.root = &rd.root;
        bool ok = rd.ok && Model<T>::dec(inner, rd.root, x.value);
        d.unspec = d.unspec || inner.unspec || inner.missing;
        return ok ? true : d.fail("not a JSON text of the content", n);
    }
};
template<typename T> struct Model<Box<T>> {
    static void gen(Gen& g, Box<T>& x) { Model<T>::gen(g, x.value); }
    static bool enc(Enc& e, const Box<T>& x, Node& o) { return Model<T>::enc(e, x.value, o); }
    static bool dec(Dec& d, const Node& n, Box<T>& x) { return Model<T>::dec(d, n, x.value); }
};

namespace persistence
{
    /** Fails (throws, if so asked) at the place of the context: a value that is not null read as null. */
    template<bool Exception, typename Context> bool refuse(Context& context) { std::nullptr_t none; return deserialize<Exception>(rapidjson::Value(true), none, context); }

    template<> struct JsonWriter<Hex> {
        bool operator()(const Hex& x, StringWriter& writer) const { return hex_good(x.value) && JsonWriter<std::string>()(hex_text(x.value), writer); }
    };
    template<> struct JsonSerializer<Hex> : JsonContextAwareSerializer {
        using JsonContextAwareSerializer::JsonContextAwareSerializer;
        bool operator()(const Hex& x, rapidjson::Value& json) const {
            if (!hex_good(x.value)) return false;
            std::string s = hex_text(x.value);
            json.SetString(s.data(), rapidjson::SizeType(s.size()), context.global().allocator());
            return true;
        }
    };
    template<> struct JsonParser<Hex> : JsonParseHandler<JsonValueString> {
        using json_type = JsonValueString;
        JsonParser(ReaderContext& context, Hex& ref) : JsonParseHandler(context), ref(ref) {}
        bool parse(const JsonValueString& s) override {
            if (!hex_value(std::string_view(s.literal.data(), s.literal.size()), ref.value)) { context.fail("not hexadecimal"); return false; }
            context.pop();
            return true;
        }
        Hex& ref;
    };
    template<bool Exception> struct JsonDeserializer<Exception, Hex> : JsonContextAwareDeserializer {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& json, Hex& x) const {
            if (json.IsString() && hex_value(std::string_view(json.GetString(), json.GetStringLength()), x.value)) return true;
            return refuse<Exception>(context);
        }
    };

    template<typename T> struct JsonWriter<Text<T>> {
        bool operator()(const Text<T>& x, StringWriter& writer) const { std::string s; return write_to_string(x.value, s) && JsonWriter<std::string>()(s, writer); }
    };
    template<typename T> struct JsonSerializer<Text<T>> : JsonContextAwareSerializer {
        using JsonContextAwareSerializer::JsonContextAwareSerializer;
        bool operator()(const Text<T>& x, rapidjson::Value& json) const {
            rapidjson::Document doc;
            if (!serialize_to_document(x.value, doc)) return false;
            std::string s = document_to_string(doc);
            json.SetString(s.data(), rapidjson::SizeType(s.size()), context.global().allocator());
            return true;
        }
    };
    template<typename T> struct JsonParser<Text<T>> : JsonParseHandler<JsonValueString> {
        using json_type = JsonValueString;
        JsonParser(ReaderContext& context, Text<T>& ref) : JsonParseHandler(context), ref(ref) {}
        bool parse(const JsonValueString& s) override {
            if (!persistence::parse(std::string(s.literal), ref.value)) { context.fail("not a JSON text of the content"); return false; }
            context.pop();
            return true;
        }
        Text<T>& ref;
    };
    template<bool Exception, typename T> struct JsonDeserializer<Exception, Text<T>> : JsonContextAwareDeserializer {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& json, Text<T>& x) const {
            if (json.IsString() && deserialize(std::string(json.GetString(), json.GetStringLength()), x.value)) return true;
            return refuse<Exception>(context);
        }
    };

    template<> struct JsonWriter<Even> {
        bool operator()(const Even& x, StringWriter& writer) const { return x.value % 2 == 0 && JsonWriter<int>()(x.value, writer); }
    };
    template<> struct JsonSerializer<Even> : JsonContextAwareSerializer {
        using JsonContextAwareSerializer::JsonContextAwareSerializer;
        bool operator()(const Even& x, rapidjson::Value& json) const { if (x.value % 2) return false; json.SetInt(x.value); return true; }
    };
    template<bool Exception> struct JsonDeserializer<Exception, Even> : JsonContextAwareDeserializer {
        using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
        bool operator()(const rapidjson::Value& json, Even& x) const {
            if (json.IsInt() && json.GetInt() % 2 == 0) { x.value = json.GetInt(); return true; }
            return refuse<Exception>(context);
        }
    };

    template<typename T> struct JsonWriter<Box<T>> : JsonWriter<T> {
        using JsonWriter<T>::JsonWriter;
        template<typename... A> auto operator()(const Box<T>& x, A&&... a) const { return static_cast<const JsonWriter<T>&>(*this)(x.value, std::forward<A>(a)...); }
    };
    template<typename T> struct JsonSerializer<Box<T>> : JsonSerializer<T> {
        using JsonSerializer<T>::JsonSerializer;
        template<typename... A> auto operator()(const Box<T>& x, A&&... a) const { return static_cast<const JsonSerializer<T>&>(*this)(x.value, std::forward<A>(a)...); }
    };
    template<typename T> struct JsonParser<Box<T>> : JsonParser<T> {
        JsonParser(ReaderContext& context, Box<T>& ref) : JsonParser<T>(context, ref.value) {}
    };
    template<bool Exception, typename T> struct JsonDeserializer<Exception, Box<T>> : JsonDeserializer<Exception, T> {
        using JsonDeserializer<Exception, T>::JsonDeserializer;
        bool operator()(const rapidjson::Value& json, Box<T>& x) const { return static_cast<const JsonDeserializer<Exception, T>&>(*this)(json, x.value); }
    };
}
