// Classes and enumerations the workloads use.
#pragma once
#include "model.hpp"
#include <persistence/persistence.hpp>
#include <persistence/write_all.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/schema_utility.hpp>
#include <persistence/enum_utility.hpp>
#include <persistence/utility.hpp>
#include <persistence/base64.hpp>
#ifdef PERSISTENCE_BOOST_DESCRIBE
#include <boost/describe/enum.hpp>
#endif

#define FE_PARENS ()
#define FE_EXPAND(...) FE_EXPAND3(FE_EXPAND3(FE_EXPAND3(FE_EXPAND3(__VA_ARGS__))))
#define FE_EXPAND3(...) FE_EXPAND2(FE_EXPAND2(FE_EXPAND2(FE_EXPAND2(__VA_ARGS__))))
#define FE_EXPAND2(...) FE_EXPAND1(FE_EXPAND1(FE_EXPAND1(FE_EXPAND1(__VA_ARGS__))))
#define FE_EXPAND1(...) __VA_ARGS__
#define FOR_EACH(m, ...) __VA_OPT__(FE_EXPAND(FE_HELP(m, __VA_ARGS__)))
#define FE_HELP(m, a1, ...) m a1 __VA_OPT__(FE_AGAIN FE_PARENS (m, __VA_ARGS__))
#define FE_AGAIN() FE_HELP

#define FP(kind, ...) FP_##kind(__VA_ARGS__)
#define FP_R(v) & MEMBER_VARIABLE(v)
#define FP_D(v) & MEMBER_VARIABLE_DEFAULT(v)
#define FP_N(n, v) & NAMED_MEMBER_VARIABLE(n, v)
#define FP_X(n, v) & NAMED_MEMBER_VARIABLE_DEFAULT(n, v)
#define FV(kind, ...) FV_##kind(__VA_ARGS__)
#define FV_R(v) vis.field(#v, v, false);
#define FV_D(v) vis.field(#v, v, true);
#define FV_N(n, v) vis.field(n, v, false);
#define FV_X(n, v) vis.field(n, v, true);

#define FIELDS(...) \
    struct visit_tag {}; \
    template<typename Archive> constexpr auto persist(Archive& ar) { return ar FOR_EACH(FP, __VA_ARGS__); } \
    template<typename V> void visit(V& vis) { FOR_EACH(FV, __VA_ARGS__) }
#define FIELDS_AFTER(Base, ...) \
    struct visit_tag {}; \
    template<typename Archive> constexpr auto persist(Archive& ar) { return this->Base::persist(ar) FOR_EACH(FP, __VA_ARGS__); } \
    template<typename V> void visit(V& vis) { this->Base::visit(vis); FOR_EACH(FV, __VA_ARGS__) }

// ---------------------------------------------------------------- enumerations
enum class EInt { zero, one, two };
enum class EU8 : std::uint8_t {};
enum class ES8 : signed char {};
enum class EI16 : short {};
enum class EU16 : unsigned short {};
enum class EU32 : unsigned {};
enum class EI64 : std::int64_t {};
enum class EU64 : std::uint64_t {};
enum class ELL : long long {};
enum class EULL : unsigned long long {};
enum class EChar : char {};
enum EOld : int { old_a, old_b };

enum class EStr { red, green, blue, redder, empty_like };
enum class EConv : std::uint8_t { a = 1, ab = 2, abc = 4, quote = 8, uni = 16, longname = 32, upper = 64 };
enum class EOne { only };
enum class EPerm : int { a = -2, b = -1, c = 0, d = 1, e = 2, f = 3, g = 4 };   // consecutive values, listed out of order
enum class EDown : unsigned { hi = 3, mid = 2, lo = 1, nil = 0 };

template<> struct EnumNames<EStr> {
    static constexpr bool named = true;
    static const std::vector<std::pair<EStr, std::string>>& list() {
        static const std::vector<std::pair<EStr, std::string>> v = { { EStr::red, "red" }, { EStr::green, "green" }, { EStr::blue, "blue" }, { EStr::redder, "redder" }, { EStr::empty_like, " " } };
        return v;
    }
};
template<> struct EnumNames<EConv> {
    static constexpr bool named = true;
    static const std::vector<std::pair<EConv, std::string>>& list() {
        static const std::vector<std::pair<EConv, std::string>> v = { { EConv::a, "a" }, { EConv::ab, "ab" }, { EConv::abc, "abc" }, { EConv::quote, "q\"\\/" }, { EConv::uni, "ünï😀" }, { EConv::longname, "a_rather_long_enumeration_value_name_that_exceeds_small_buffers" }, { EConv::upper, "A" } };
        return v;
    }
};
template<> struct EnumNames<EOne> {
    static constexpr bool named = true;
    static const std::vector<std::pair<EOne, std::string>>& list() { static const std::vector<std::pair<EOne, std::string>> v = { { EOne::only, "only" } }; return v; }
};

template<> struct EnumNames<EPerm> {
    static constexpr bool named = true;
    static const std::vector<std::pair<EPerm, std::string>>& list() { static const std::vector<std::pair<EPerm, std::string>> v = { { EPerm::a, "z" }, { EPerm::c, "y" }, { EPerm::b, "x" }, { EPerm::f, "w" }, { EPerm::d, "yy" }, { EPerm::e, "xx" }, { EPerm::g, "a" } }; return v; }
};
template<> struct EnumNames<EDown> {
    static constexpr bool named = true;
    static const std::vector<std::pair<EDown, std::string>>& list() { static const std::vector<std::pair<EDown, std::string>> v = { { EDown::hi, "hi" }, { EDown::mid, "mid" }, { EDown::lo, "lo" }, { EDown::nil, "nil" } }; return v; }
};

namespace persistence {
    template<> struct enum_traits<EPerm> {
        constexpr static auto conv = make_enum_converter<EPerm>({ make_enum(EPerm::a, "z"), make_enum(EPerm::c, "y"), make_enum(EPerm::b, "x"), make_enum(EPerm::f, "w"), make_enum(EPerm::d, "yy"), make_enum(EPerm::e, "xx"), make_enum(EPerm::g, "a") });
        static std::string_view to_string(EPerm v) { return conv.to_string(v); }
        static bool from_string(const std::string_view& s, EPerm& v) { return conv.from_string(s, v); }
    };
    template<> struct enum_traits<EDown> {
        constexpr static auto conv = make_enum_converter<EDown>({ make_enum(EDown::hi, "hi"), make_enum(EDown::mid, "mid"), make_enum(EDown::lo, "lo"), make_enum(EDown::nil, "nil") });
        static std::string_view to_string(EDown v) { return conv.to_string(v); }
        static bool from_string(const std::string_view& s, EDown& v) { return conv.from_string(s, v); }
    };
    template<> struct enum_traits<EStr> {
        static std::string_view to_string(EStr v) {
            switch (v) { case EStr::red: return "red"; case EStr::green: return "green"; case EStr::blue: return "blue"; case EStr::redder: return "redder"; case EStr::empty_like: return " "; }
            return {};
        }
        static bool from_string(const std::string_view& s, EStr& v) {
            if (s == "red") v = EStr::red; else if (s == "green") v = EStr::green; else if (s == "blue") v = EStr::blue;
            else if (s == "redder") v = EStr::redder; else if (s == " ") v = EStr::empty_like; else return false;
            return true;
        }
    };
    template<> struct enum_traits<EConv> {
        constexpr static auto conv = make_enum_converter<EConv>({
            make_enum(EConv::a, "a"), make_enum(EConv::ab, "ab"), make_enum(EConv::abc, "abc"), make_enum(EConv::quote, "q\"\\/"), make_enum(EConv::uni, "ünï😀"),
            make_enum(EConv::longname, "a_rather_long_enumeration_value_name_that_exceeds_small_buffers"), make_enum(EConv::upper, "A") });
        static std::string_view to_string(EConv v) { return conv.to_string(v); }
        static bool from_string(const std::string_view& s, EConv& v) { return conv.from_string(s, v); }
    };
    template<> struct enum_traits<EOne> {
        constexpr static auto conv = make_enum_converter<EOne>({ make_enum(EOne::only, "only") });
        static std::string_view to_string(EOne v) { return conv.to_string(v); }
        static bool from_string(const std::string_view& s, EOne& v) { return conv.from_string(s, v); }
    };
}
#ifdef PERSISTENCE_BOOST_DESCRIBE
enum class EBoost { alpha, beta, gamma, alphabet };
BOOST_DESCRIBE_ENUM(EBoost, alpha, beta, gamma, alphabet)
template<> struct EnumNames<EBoost> {
    static constexpr bool named = true;
    static const std::vector<std::pair<EBoost, std::string>>& list() {
        static const std::vector<std::pair<EBoost, std::string>> v = { { EBoost::alpha, "alpha" }, { EBoost::beta, "beta" }, { EBoost::gamma, "gamma" }, { EBoost::alphabet, "alphabet" } };
        return v;
    }
};
#endif

// ---------------------------------------------------------------- classes
struct C1 { int a = 0; FIELDS((R, a)) auto operator<=>(const C1&) const = default; };
struct C1s { std::string value; FIELDS((R, value)) auto operator<=>(const C1s&) const = default; };
struct C1o { std::optional<std::string> o; FIELDS((R, o)) };
struct C1d { int d = 5; FIELDS((D, d)) };
struct C1v { std::vector<int> list; FIELDS((R, list)) };
struct C2 { std::string first; std::vector<int> second; FIELDS((R, first), (R, second)) auto operator<=>(const C2&) const = default; };
struct C2o { std::optional<int> x; std::optional<double> y; FIELDS((R, x), (R, y)) };
struct C2d { std::string s = "dflt"; bool b = true; FIELDS((D, s), (D, b)) };
struct C2m { std::optional<std::vector<std::string>> tags; std::map<std::string, int> counts; FIELDS((R, tags), (R, counts)) };
struct C3 { bool flag = false; int number = 0; std::string text; FIELDS((R, flag), (R, number), (R, text)) auto operator<=>(const C3&) const = default; };
struct C3x { long req = 0; std::optional<long> opt; long def = 77; FIELDS((R, req), (R, opt), (D, def)) };
struct C3o { std::optional<C1> a; std::optional<std::vector<C1>> b; std::optional<std::unique_ptr<C1>> c; FIELDS((R, a), (R, b), (R, c)) };
struct CD { int key = 0; std::optional<std::string> opt; std::string def = "d"; int num = 7; FIELDS((R, key), (R, opt), (D, def), (D, num)) auto operator<=>(const CD&) const = default; };
struct COpt { std::optional<CD> one; std::optional<C3x> two; std::optional<std::vector<CD>> many; std::optional<std::map<std::string, CD>> named; std::optional<std::array<CD, 2>> fixed; std::optional<std::pair<C3x, std::unique_ptr<CD>>> both; CD in; FIELDS((R, one), (R, two), (R, many), (R, named), (R, fixed), (R, both), (R, in)) };
struct COpt1 { std::optional<CD> only; FIELDS((R, only)) };
struct C4 { int a = 0, b = 0, c = 0, e = 0; FIELDS((R, a), (R, b), (R, c), (R, e)) };
struct CNamed {
    int k0 = 0; std::string k1; std::vector<int> k2; bool k3 = false; double k4 = 0; std::map<std::string, int> k5; C1 k6;
    FIELDS((N, "a/b", k0), (N, "m~n", k1), (N, "with \"quote\"", k2), (N, "ключ", k3), (N, " ", k4), (N, "back\\slash", k5), (X, "~1", k6))
};
struct CEmptyKey { int e = 0; std::vector<std::string> f; FIELDS((N, "", e), (N, "/", f)) };
struct CFund {
    bool b = false; char c = 0; signed char sc = 0; unsigned char uc = 0; short s = 0; unsigned short us = 0; int i = 0; unsigned u = 0;
    long l = 0; unsigned long ul = 0; long long ll = 0; unsigned long long ull = 0; float f = 0; double d = 0; std::nullptr_t n = nullptr;
    FIELDS((R, b), (R, c), (R, sc), (R, uc), (R, s), (R, us), (R, i), (R, u), (R, l), (R, ul), (R, ll), (R, ull), (R, f), (R, d), (R, n))
};
struct CSpecial {
    bytes data; stamp_t when{}; ymd_t day{}; EInt ei{}; EU8 eu{}; EStr es{}; EConv ec = EConv::a; std::optional<bytes> odata; std::optional<stamp_t> owhen; std::optional<ymd_t> oday; std::optional<EStr> oes;
    FIELDS((R, data), (R, when), (R, day), (R, ei), (R, eu), (R, es), (R, ec), (R, odata), (R, owhen), (R, oday), (R, oes))
};
struct CVecs {
    std::vector<bool> b; std::vector<char> c; std::vector<signed char> sc; std::vector<unsigned char> uc; std::vector<short> s; std::vector<unsigned short> us; std::vector<int> i; std::vector<unsigned> u; std::vector<long> l; std::vector<unsigned long> ul; std::vector<long long> ll; std::vector<unsigned long long> ull; std::vector<float> f; std::vector<double> d; std::vector<std::string> st; std::vector<bytes> by; std::vector<ymd_t> dt; std::vector<stamp_t> ts; std::vector<EInt> ei; std::vector<EStr> es; int after = 0;
    FIELDS((R, b), (R, c), (R, sc), (R, uc), (R, s), (R, us), (R, i), (R, u), (R, l), (R, ul), (R, ll), (R, ull), (R, f), (R, d), (R, st), (R, by), (R, dt), (R, ts), (R, ei), (R, es), (R, after))
};
struct CSets {
    std::set<bool> b; std::set<char> c; std::set<signed char> sc; std::set<unsigned char> uc; std::set<short> s; std::set<unsigned short> us; std::set<int> i; std::set<unsigned> u; std::set<long> l; std::set<unsigned long> ul; std::set<long long> ll; std::set<unsigned long long> ull; std::set<float> f; std::set<double> d; std::set<std::string> st; std::set<bytes> by; std::set<ymd_t> dt; std::set<stamp_t> ts; std::set<EInt> ei; std::set<EStr> es; int after = 0;
    FIELDS((R, b), (R, c), (R, sc), (R, uc), (R, s), (R, us), (R, i), (R, u), (R, l), (R, ul), (R, ll), (R, ull), (R, f), (R, d), (R, st), (R, by), (R, dt), (R, ts), (R, ei), (R, es), (R, after))
};
struct CCont {
    std::vector<int> v; std::vector<std::string> vs; std::vector<bool> vb; std::set<int> st; std::array<double, 3> ar{}; std::pair<int, std::string> pr; std::tuple<bool, int, std::string, double> tp{};
    std::map<std::string, std::string> mp; std::unordered_map<std::string, int> um; std::vector<std::vector<short>> vv; std::map<std::string, std::vector<int>> mv; std::vector<std::map<std::string, bool>> vm;
    FIELDS((R, v), (R, vs), (R, vb), (R, st), (R, ar), (R, pr), (R, tp), (R, mp), (R, um), (R, vv), (R, mv), (R, vm))
};
struct CNest {
    C1 one; C2 two; C3 three; std::vector<C3> list; std::map<std::string, C2> dict; std::optional<C3> maybe; std::unique_ptr<C2> ptr = std::make_unique<C2>(); std::tuple<int, C1s, std::vector<C1>> tup; std::array<C2, 2> arr; C2o oo; std::pair<C1, C1o> pr;
    FIELDS((R, one), (R, two), (R, three), (R, list), (R, dict), (R, maybe), (R, ptr), (R, tup), (R, arr), (R, oo), (R, pr))
};
struct CDefs {
    std::vector<int> dv = { 1, 2, 3 }; C3x dx; std::map<std::string, int> dm = { { "k", 1 } }; std::string ds = "default"; std::optional<C1> oc; double dd = 2.5; EStr de = EStr::blue; std::unique_ptr<int> dp = std::make_unique<int>(9);
    FIELDS((D, dv), (D, dx), (D, dm), (D, ds), (R, oc), (D, dd), (D, de), (D, dp))
};
struct CDerived : C1s { int member = 0; FIELDS_AFTER(C1s, (R, member)) };
struct CDerived2 : CDerived { std::vector<C1> more; std::optional<bool> maybe; FIELDS_AFTER(CDerived, (R, more), (R, maybe)) };
struct CDerived3 : C3 { long def = 3; FIELDS_AFTER(C3, (D, def)) };
struct CDerivedOne : C1 { struct visit_tag {}; template<typename A> constexpr auto persist(A& ar) { return this->C1::persist(ar); } template<typename V> void visit(V& v) { this->C1::visit(v); } };
class CPrivate {
    std::string secret; std::vector<double> values; unsigned count = 0;
public:
    FIELDS((R, secret), (R, values), (R, count))
};
struct CMove {
    CMove() = default; CMove(CMove&&) = default; CMove& operator=(CMove&&) = default; CMove(const CMove&) = delete; CMove& operator=(const CMove&) = delete;
    std::string s; std::unique_ptr<int> p = std::make_unique<int>(0); std::vector<std::unique_ptr<std::string>> v;
    FIELDS((R, s), (R, p), (R, v))
};
struct CPrefix {
    int a = 0, aa = 0, aaa = 0, ab = 0, ba = 0, b = 0, value = 0, value1 = 0, value2 = 0, value12 = 0, value21 = 0, Value = 0, VALUE = 0, value_ = 0, _value = 0, val = 0, x1 = 0, x2 = 0, x3 = 0, x4 = 0, x5 = 0, x6 = 0, x7 = 0, x8 = 0, x9 = 0, x10 = 0, x11 = 0, x12 = 0, x13 = 0, x14 = 0, x15 = 0, x16 = 0, x17 = 0;
    FIELDS((R, a), (R, aa), (R, aaa), (R, ab), (R, ba), (R, b), (R, value), (R, value1), (R, value2), (R, value12), (R, value21), (R, Value), (R, VALUE), (R, value_), (R, _value), (R, val), (R, x1), (R, x2), (R, x3), (R, x4), (R, x5), (R, x6), (R, x7), (R, x8), (R, x9), (R, x10), (R, x11), (R, x12), (R, x13), (R, x14), (R, x15), (R, x16), (R, x17))
};
struct CWide {
    std::optional<int> o1; std::vector<int> v1; int r1 = 0; std::string d1 = "one"; std::optional<std::string> o2; C1 r2; std::optional<C2> o3; std::map<std::string, C1> r3; long d2 = 2; std::optional<std::vector<C3>> o4; double r4 = 0; std::set<std::string> r5; std::optional<bool> o5; EStr r6{}; bytes r7; std::optional<std::map<std::string, std::string>> o6;
    FIELDS((R, o1), (R, v1), (R, r1), (D, d1), (R, o2), (R, r2), (R, o3), (R, r3), (D, d2), (R, o4), (R, r4), (R, r5), (R, o5), (R, r6), (R, r7), (R, o6))
};
// classes of the same name in different scopes, classes made from a template, several bases
namespace na { struct Item { int x = 0; FIELDS((R, x)) }; struct Outer { struct Item { std::vector<bool> z; FIELDS((R, z)) }; Item inner; na::Item other; FIELDS((R, inner), (R, other)) }; }
namespace nb { struct Item { std::string y; FIELDS((R, y)) }; struct Outer { std::optional<Item> inner; FIELDS((R, inner)) }; }
template<typename T> struct CBox { T content{}; std::optional<T> spare; FIELDS((R, content), (R, spare)) };
struct CSame {
    na::Item a; nb::Item b; na::Outer::Item c; na::Outer d; std::vector<nb::Outer> e; CBox<int> f; CBox<std::string> g; std::unique_ptr<CBox<CBox<bool>>> h = std::make_unique<CBox<CBox<bool>>>(); std::map<std::string, na::Item> i; std::tuple<nb::Item, na::Item> j;
    FIELDS((R, a), (R, b), (R, c), (R, d), (R, e), (R, f), (R, g), (R, h), (R, i), (R, j))
};
struct CBases : C1, C1s, nb::Outer {
    double own = 0; struct visit_tag {};
    template<typename A> constexpr auto persist(A& ar) { auto&& r = this->C1::persist(ar); auto&& s = this->C1s::persist(r); auto&& q = this->nb::Outer::persist(s); return q & MEMBER_VARIABLE(own); }
    template<typename V> void visit(V& v) { this->C1::visit(v); this->C1s::visit(v); this->nb::Outer::visit(v); v.field("own", own, false); }
};
// recursive classes
struct CTree { std::string name; std::vector<CTree> kids; FIELDS((R, name), (R, kids)) };
struct CList { int v = 0; std::optional<std::unique_ptr<CList>> next; FIELDS((R, v), (R, next)) };
struct CDict { std::map<std::string, CDict> sub; FIELDS((R, sub)) };
struct CMulti { int id = 0; std::vector<CMulti> vec; std::map<std::string, CMulti> map; std::optional<std::unique_ptr<CMulti>> ptr; std::string tail; FIELDS((R, id), (R, vec), (R, map), (R, ptr), (R, tail)) };
// sharing
struct SNode { int id = 0; std::vector<std::shared_ptr<SNode>> kids; std::map<std::string, std::shared_ptr<SNode>> named; FIELDS((R, id), (R, kids), (R, named)) };
struct SItem { std::uint64_t id = 0; std::string label; std::optional<std::shared_ptr<SItem>> next; FIELDS((R, id), (R, label), (R, next)) };
struct SPair { std::shared_ptr<C1> a = std::make_shared<C1>(); std::shared_ptr<C1> b = std::make_shared<C1>(); FIELDS((R, a), (R, b)) };
struct SGraph {
    std::vector<std::shared_ptr<SItem>> vec; std::map<std::string, std::shared_ptr<SItem>> map; std::optional<std::shared_ptr<SItem>> opt; std::array<std::shared_ptr<SItem>, 2> arr; std::tuple<std::shared_ptr<SItem>, int, std::shared_ptr<C1>> tup; std::unordered_map<std::string, std::vector<std::shared_ptr<C1>>> um; SPair pr; std::pair<std::shared_ptr<std::string>, std::vector<std::shared_ptr<std::string>>> ps; std::unique_ptr<SPair> up = std::make_unique<SPair>();
    FIELDS((R, vec), (R, map), (R, opt), (R, arr), (R, tup), (R, um), (R, pr), (R, ps), (R, up))
};
struct SNamed { std::shared_ptr<SItem> x; std::map<std::string, std::shared_ptr<SItem>> y; std::shared_ptr<SItem> z; FIELDS((N, "a/b", x), (N, "~m", y), (N, "", z)) };
struct SDeep { std::shared_ptr<std::vector<std::shared_ptr<int>>> outer; std::map<std::string, std::map<std::string, std::shared_ptr<int>>> mm; std::vector<std::pair<int, std::shared_ptr<int>>> vp; std::shared_ptr<int> last; FIELDS((R, outer), (R, mm), (R, vp), (R, last)) };
struct SFirst { std::shared_ptr<C1s> whole; std::vector<std::shared_ptr<std::string>> parts; std::shared_ptr<CDerived> deep; std::shared_ptr<C1s> other; std::shared_ptr<std::pair<int, bool>> pair; std::shared_ptr<int> number; std::shared_ptr<C1> box; FIELDS((R, whole), (R, parts), (R, deep), (R, other), (R, pair), (R, number), (R, box)) };
struct SBase { std::shared_ptr<std::string> s1; FIELDS((R, s1)) };
struct SDerived : SBase { std::shared_ptr<std::string> s2; std::vector<std::shared_ptr<std::string>> s3; FIELDS_AFTER(SBase, (R, s2), (R, s3)) };
// variants
struct VA { int a = 0; FIELDS((R, a)) };
struct VB { std::string b; FIELDS((R, b)) };
struct VC { int a = 0; std::string c; FIELDS((R, a), (R, c)) };
using VScalar = std::variant<bool, int, std::string>;
struct CVar { VScalar v; std::vector<std::variant<int, std::string, VB>> list; std::optional<std::variant<bool, std::vector<int>>> opt; std::map<std::string, std::variant<std::nullptr_t, double>> dict; FIELDS((R, v), (R, list), (R, opt), (R, dict)) };
struct CVarS { std::variant<int, std::shared_ptr<std::string>> p; std::vector<std::variant<bool, std::shared_ptr<std::string>>> q; FIELDS((R, p), (R, q)) };
