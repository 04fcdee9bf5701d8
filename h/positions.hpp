// One leaf type in every position a value can take: as root, element, member, dictionary value, behind pointers.
#pragma once
#include "mon.hpp"
#include "types.hpp"

template<typename T> struct Mem2 { T value{}; std::string after; FIELDS((R, value), (R, after)) };
template<typename T> struct Mem3 { int before = 0; T value{}; std::optional<T> maybe; std::string after; FIELDS((R, before), (R, value), (R, maybe), (R, after)) };
template<typename T> struct Mem1 { T value{}; FIELDS((R, value)) };
struct NeverMatches { std::array<std::nullptr_t, 3> a_key_no_document_has{}; FIELDS((R, a_key_no_document_has)) };
template<typename T> struct MemD { T value{}; FIELDS((D, value)) };

/** Calls f(operation, accepted, value or null) for each position and reading operation. */
template<typename T, typename F> void read_everywhere(const std::string& lit, F&& f, bool few = false) {
    namespace P = persistence;
    auto one = [&]<typename C>(const char* where, const std::string& text, std::type_identity<C>, auto&& get) {
        auto report = [&](const char* op, bool ok, C& c) {
            const T* p = nullptr;
            bool shape = true;
            if (ok) { p = get(c); shape = p != nullptr; }
            f((std::string(op) + " " + where).c_str(), ok, p, shape);
        };
        try {
            { C c{}; bool ok = P::parse(text, c); report("parse", ok, c); }
            { C c{}; bool ok = P::deserialize(text, c); report("deserialize", ok, c); }
            if (!few) {
                { C c{}; bool ok = P::deserialize(std::string(text), c); report("deserialize(&&)", ok, c); }
                { C c{}; auto d = P::string_to_document(text); bool ok = P::deserialize(d, c); report("deserialize(document)", ok, c); }
            }
        } catch (const std::exception& e) { mon.fail(std::string(where) + "|exception", std::string(where) + ": a boolean operation threw " + e.what() + " on " + show(text)); }
        mon.count("reads", few ? 2 : 4);
    };
    one("root", lit, std::type_identity<T>(), [](T& c) { return &c; });
    one("vector", "[" + lit + "," + lit + "]", std::type_identity<std::vector<T>>(), [](auto& c) { return c.size() == 2 ? &c[1] : nullptr; });
    one("member", "{\"value\":" + lit + ",\"after\":\"x\"}", std::type_identity<Mem2<T>>(), [](auto& c) { return c.after == "x" ? &c.value : nullptr; });
    one("dictionary", "{\"k\":" + lit + ",\"l\":" + lit + "}", std::type_identity<std::map<std::string, T>>(), [](auto& c) { auto it = c.find("l"); return c.size() == 2 && it != c.end() ? &it->second : nullptr; });
    if (few) return;
    one("only member", "{\"value\":" + lit + "}", std::type_identity<Mem1<T>>(), [](auto& c) { return &c.value; });
    one("default member", "{\"value\":" + lit + "}", std::type_identity<MemD<T>>(), [](auto& c) { return &c.value; });
    one("optional member", "{\"before\":1,\"value\":" + lit + ",\"maybe\":" + lit + ",\"after\":\"y\"}", std::type_identity<Mem3<T>>(), [](auto& c) { return c.before == 1 && c.after == "y" && c.maybe ? &*c.maybe : nullptr; });
    one("unordered dictionary", "{\"k\":" + lit + "}", std::type_identity<std::unordered_map<std::string, T>>(), [](auto& c) { auto it = c.find("k"); return it != c.end() ? &it->second : nullptr; });
    one("array", "[" + lit + "]", std::type_identity<std::array<T, 1>>(), [](auto& c) { return &c[0]; });
    one("pair", "[7," + lit + "]", std::type_identity<std::pair<int, T>>(), [](auto& c) { return c.first == 7 ? &c.second : nullptr; });
    one("tuple", "[" + lit + ",true," + lit + "]", std::type_identity<std::tuple<T, bool, T>>(), [](auto& c) { return std::get<1>(c) ? &std::get<2>(c) : nullptr; });
    one("set", "[" + lit + "]", std::type_identity<std::set<T>>(), [](auto& c) { return c.size() == 1 ? &*c.begin() : nullptr; });
    one("unique_ptr", lit, std::type_identity<std::unique_ptr<T>>(), [](auto& c) { return c.get(); });
    one("vector of shared_ptr", "[" + lit + "]", std::type_identity<std::vector<std::shared_ptr<T>>>(), [](auto& c) { return c.size() == 1 ? c[0].get() : nullptr; });
    one("nested vector", "[[]," "[" + lit + "]]", std::type_identity<std::vector<std::vector<T>>>(), [](auto& c) { return c.size() == 2 && c[0].empty() && c[1].size() == 1 ? &c[1][0] : nullptr; });
    try {
        std::variant<NeverMatches, T> v;
        bool ok = P::deserialize(lit, v);
        f("deserialize variant", ok, ok ? std::get_if<1>(&v) : nullptr, !ok || v.index() == 1);
        std::map<std::string, std::vector<std::variant<NeverMatches, T>>> w;
        ok = P::deserialize("{\"a\":[" + lit + "]}", w);
        bool shape = ok && w.size() == 1 && w["a"].size() == 1 && w["a"][0].index() == 1;
        f("deserialize nested variant", ok, shape ? std::get_if<1>(&w["a"][0]) : nullptr, !ok || shape);
        mon.count("reads", 2);
    } catch (const std::exception& e) { mon.fail("variant|exception", std::string("a boolean operation threw ") + e.what() + " on " + show(lit)); }
}

/** Writes x, which need not be writable, in several positions; f sees each text that was written. */
template<typename T, typename F> void unnamed_everywhere(const T& x, F&& f) {
    namespace P = persistence;
    auto one = [&](const char* where, const auto& c) {
        try {
            std::string s;
            rapidjson::Document d;
            if (P::write_to_string(c, s)) f((std::string("write ") + where).c_str(), s);
            if (P::serialize_to_document(c, d)) f((std::string("serialize ") + where).c_str(), P::document_to_string(d));
        } catch (const std::exception& e) { mon.fail(std::string(where) + "|exception", std::string(where) + ": a boolean operation threw " + e.what()); }
    };
    one("root", x); one("vector", std::vector<T>{ x }); one("array", std::array<T, 1>{ x }); one("only member", Mem1<T>{ x });
    one("dictionary", std::map<std::string, T>{ { "k", x } }); one("unique_ptr", std::make_unique<T>(x));
}

/** Writes x in every position; each text must be the expected literal in its place. A null literal: must be refused. */
template<typename T> void write_everywhere(const T& x, const std::string* lit, const std::string& what, bool few = false) {
    namespace P = persistence;
    auto one = [&](const char* where, const auto& c, const std::string& pre, const std::string& post) {
        try {
            std::string s = "before", expect = lit ? pre + *lit + post : "";
            rapidjson::Document d;
            bool a = P::write_to_string(c, s), b = P::serialize_to_document(c, d);
            if (a != !!lit || b != !!lit) { mon.fail(std::string(where) + "|write outcome", std::string(where) + " of " + what + ": write " + (a ? "succeeds" : "fails") + ", serialize " + (b ? "succeeds" : "fails") + ", expected to " + (lit ? "succeed" : "fail")); return; }
            if (!lit) return;
            std::string t = P::document_to_string(d);
            if (s != expect) mon.fail(std::string(where) + "|written", std::string(where) + " of " + what + " written as " + show(s) + ", expected " + show(expect));
            if (t != expect) mon.fail(std::string(where) + "|serialized", std::string(where) + " of " + what + " serialized as " + show(t) + ", expected " + show(expect));
        } catch (const std::exception& e) { mon.fail(std::string(where) + "|exception", std::string(where) + " of " + what + ": a boolean operation threw " + e.what()); }
        mon.count("writes", 2);
    };
    one("root", x, "", "");
    one("vector", std::vector<T>{ x }, "[", "]");
    one("member", Mem2<T>{ x, "a" }, "{\"value\":", ",\"after\":\"a\"}");
    one("dictionary", std::map<std::string, T>{ { "k", x } }, "{\"k\":", "}");
    if (few) return;
    one("only member", Mem1<T>{ x }, "{\"value\":", "}");
    one("default member", MemD<T>{ x }, "{\"value\":", "}");
    if (lit) { Mem3<T> m; m.value = x; m.maybe = x; one("optional member", m, "{\"before\":0,\"value\":" + *lit + ",\"maybe\":", ",\"after\":\"\"}"); } else { Mem3<T> m; m.maybe = x; one("optional member", m, "", ""); }
    one("unordered dictionary", std::unordered_map<std::string, T>{ { "k", x } }, "{\"k\":", "}");
    one("array", std::array<T, 1>{ x }, "[", "]");
    one("pair", std::pair<int, T>{ 7, x }, "[7,", "]");
    one("tuple", std::tuple<bool, T>{ true, x }, "[true,", "]");
    one("set", std::set<T>{ x }, "[", "]");
    one("unique_ptr", std::make_unique<T>(x), "", "");
    one("vector of shared_ptr", std::vector<std::shared_ptr<T>>{ std::make_shared<T>(x) }, "[", "]");
    one("nested vector", std::vector<std::vector<T>>{ {}, { x } }, "[[],[", "]]");
    one("variant", std::variant<NeverMatches, T>{ std::in_place_index<1>, x }, "", "");
}
