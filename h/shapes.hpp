// Generated classes (tools/genclasses.py), type-erased.
#pragma once
#include "mon.hpp"
#include <persistence/persistence.hpp>
#include <persistence/write_all.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/utility.hpp>

template<typename K> struct Desc;
inline std::string as_json(int v) { return std::to_string(v); }
inline std::string as_json(const std::optional<int>& v) { return v ? std::to_string(*v) : std::string(); }
inline std::string as_json(const std::string& v) { return "\"" + v + "\""; }
inline std::string as_json(const std::vector<int>& v) { std::string s = "["; for (auto x : v) { if (s.size() > 1) s += ','; s += std::to_string(x); } return s + "]"; }

struct Got { bool ok = false, threw = false; std::vector<std::string> members; std::string what; };
struct Shape {
    const char* title; const std::vector<std::string>* names; const char* kinds;
    Got (*read)(int op, const std::string& text);
    bool (*rewrite)(int op, const std::string& text, std::string& out);   // fill an object from text, then write it
    std::vector<std::string> initial;
};
template<typename K> bool fill(int op, const std::string& text, K& k) {
    namespace P = persistence;
    switch (op) {
        case 0: return P::parse(text, k);
        case 1: return P::deserialize(text, k);
        case 2: k = P::parse<K>(text); return true;
        case 3: k = P::deserialize<K>(text); return true;
        default: { auto d = P::string_to_document(text); return P::deserialize(d, k); }
    }
}
template<typename K> std::vector<std::string> members_of(const K& k) { std::vector<std::string> v; for (std::size_t i = 0; i < Desc<K>::names().size(); ++i) v.push_back(Desc<K>::get(k, i)); return v; }
template<typename K> Shape make_shape() {
    Shape s;
    s.title = Desc<K>::title; s.names = &Desc<K>::names(); s.kinds = Desc<K>::kinds;
    s.read = [](int op, const std::string& text) {
        Got g;
        K k;
        try { g.ok = fill(op, text, k); } catch (const persistence::JsonParseError& e) { g.threw = true; g.what = e.what(); } catch (const persistence::JsonDeserializationError& e) { g.threw = true; g.what = e.what(); }
        g.members = members_of(k);
        return g;
    };
    s.rewrite = [](int op, const std::string& text, std::string& out) {
        namespace P = persistence;
        K k;
        if (!fill(1, text, k)) return false;
        if (op == 0) return P::write_to_string(k, out);
        rapidjson::Document d;
        if (!P::serialize_to_document(k, d)) return false;
        out = P::document_to_string(d);
        return true;
    };
    K k;
    s.initial = members_of(k);
    return s;
}
