// C06: nesting of any depth in what is ignored or rejected.
#define OPS_IMPL
#include "mon.hpp"
#include "types.hpp"
namespace P = persistence;
struct Shallow { int a = 0; std::vector<int> v; FIELDS((R, a), (R, v)) };
template<typename F> static Out ending(F&& f) {
    try { return f() ? OK : NO; }
    catch (const P::JsonParseError&) { return EPARSE; } catch (const P::JsonDeserializationError&) { return EDESER; }
    catch (...) { return EOTHER; }
}
template<typename T, typename Eq> static void read_all(const std::string& title, const std::string& text, bool well_formed, bool accept, Eq&& eq) {
    mon.doing(title, text.substr(0, 200));
    auto judge = [&](const char* op, Out got, const T& y, bool throwing) {
        Out want = accept ? OK : !throwing ? NO : well_formed ? EDESER : EPARSE;
        if (got != want || (got == OK && !eq(y))) mon.fail(title + "|" + op, title + ": " + op + " ends with " + out_name(got) + ", expected " + out_name(want));
        mon.count(std::string("deep: ") + out_name(got));
        mon.saw(fnv(title + op), true);
    };
    { T y{}; judge("deserialize(text, y)", ending([&] { return P::deserialize(text, y); }), y, false); }
    { T y{}; judge("deserialize(string&&, y)", ending([&] { return P::deserialize(std::string(text), y); }), y, false); }
    { T y{}; judge("deserialize(text)", ending([&] { y = P::deserialize<T>(text); return true; }), y, true); }
    { T y{}; judge("deserialize(string&&)", ending([&] { y = P::deserialize<T>(std::string(text)); return true; }), y, true); }
    auto doc = P::string_to_document(text);
    if (doc.HasParseError() == well_formed) mon.fail(title + "|document", title + ": string_to_document reports the wrong well-formedness");
    if (well_formed) { T y{}; judge("deserialize(document)", ending([&] { y = P::deserialize<T>(doc); return true; }), y, true); }
}
void special(Rng& r) {
    for (int i = 0; i < 24 && !mon.enough(); ++i) {
        std::size_t depth = i < 12 ? std::size_t(1) << (i + 8) : 1 + r.below(400000);
        auto shape = r.below(3);
        std::string open, close;
        for (std::size_t k = 0; k < depth; ++k) open += shape == 0 || (shape == 2 && k % 2) ? "[" : "{\"k\":";
        for (std::size_t k = depth; k--;) close += shape == 0 || (shape == 2 && k % 2) ? "]" : "}";
        std::string title = "depth " + std::to_string(depth) + " shape " + std::to_string(shape);
        auto is = [](const Shallow& y) { return y.a == 5 && y.v == std::vector<int>{ 1, 2 }; };
        read_all<Shallow>("unknown member, " + title, "{\"a\":5,\"zz\":" + open + "1" + close + ",\"v\":[1,2]}", true, true, is);
        read_all<Shallow>("unknown member cut, " + title, "{\"a\":5,\"v\":[1,2],\"zz\":" + open, false, false, is);
        read_all<Shallow>("wrong member, " + title, "{\"a\":5,\"v\":" + open + "1" + close + "}", true, false, is);
        read_all<int>("root, " + title, open + "1" + close, true, false, [](int) { return true; });
        auto& m = mon.counts["deepest document"]; m = std::max<std::uint64_t>(m, depth);
    }
}
