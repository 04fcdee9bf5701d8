// C20: nesting of every shape and depth.
#define OPS_IMPL
#include "mon.hpp"
using namespace std;
struct Static { string name; TypeOps ops; string (*text)(Rng&); bool must; };
#ifdef PART
// ---------------------------------------------------------------- types nested in their declaration
template<int K> struct VN { using type = vector<typename VN<K - 1>::type>; };
template<> struct VN<0> { using type = int; };
template<int K> struct MN { using type = map<string, typename MN<K - 1>::type>; };
template<> struct MN<0> { using type = string; };
template<int K> struct TN { using type = tuple<int, typename TN<K - 1>::type, string>; };
template<> struct TN<0> { using type = bool; };
template<int K> struct PN { using type = pair<typename PN<K - 1>::type, bool>; };
template<> struct PN<0> { using type = double; };
template<int K> struct AN { using type = array<typename AN<K - 1>::type, 1>; };
template<> struct AN<0> { using type = string; };
template<int K> struct UN { using type = unique_ptr<typename UN<K - 1>::type>; };
template<> struct UN<0> { using type = vector<int>; };
template<int K> struct XN { using I = typename XN<K - 1>::type; using type = conditional_t<K % 5 == 0, vector<I>, conditional_t<K % 5 == 1, map<string, I>, conditional_t<K % 5 == 2, pair<int, I>, conditional_t<K % 5 == 3, unique_ptr<I>, tuple<I, string, bool>>>>>; };
template<> struct XN<0> { using type = int; };

template<typename T> struct Sp { static string t(Rng& r, bool) {
    if constexpr (is_same_v<T, bool>) return r.chance(1, 2) ? "true" : "false";
    else if constexpr (is_same_v<T, double>) return to_string(r.below(1000)) + ".5";
    else return to_string(r.below(100000));
} };
template<> struct Sp<string> { static string t(Rng& r, bool) { return "\"s" + to_string(r.below(1000)) + "\""; } };
template<typename T> struct Sp<vector<T>> { static string t(Rng& r, bool deep) {
    if (!deep) return "[]";
    string o = "[";
    for (auto n = r.below(3); n--;) o += Sp<T>::t(r, false) + ",";
    o += Sp<T>::t(r, true);
    for (auto n = r.below(3); n--;) o += "," + Sp<T>::t(r, false);
    return o + "]";
} };
template<typename T> struct Sp<map<string, T>> { static string t(Rng& r, bool deep) {
    if (!deep) return "{}";
    string o = "{";
    int k = 0;
    for (auto n = r.below(3); n--;) o += "\"a" + to_string(k++) + "\":" + Sp<T>::t(r, false) + ",";
    o += "\"x\":" + Sp<T>::t(r, true);
    for (auto n = r.below(3); n--;) o += ",\"a" + to_string(k++) + "\":" + Sp<T>::t(r, false);
    return o + "}";
} };
template<typename A, typename B> struct Sp<pair<A, B>> { static string t(Rng& r, bool d) { return "[" + Sp<A>::t(r, d) + "," + Sp<B>::t(r, d) + "]"; } };
template<typename... A> struct Sp<tuple<A...>> { static string t(Rng& r, bool d) { string o; ((o += (o.empty() ? "[" : ",") + Sp<A>::t(r, d)), ...); return o + "]"; } };
template<typename A, size_t N> struct Sp<array<A, N>> { static string t(Rng& r, bool d) { string o; for (size_t k = 0; k < N; ++k) o += (o.empty() ? "[" : ",") + Sp<A>::t(r, d); return o + "]"; } };
template<typename A> struct Sp<unique_ptr<A>> { static string t(Rng& r, bool d) { return Sp<A>::t(r, d); } };

template<template<int> class N, int K> void add(vector<Static>& v, const char* name, int must) {
    using T = typename N<K>::type;
    v.push_back({ string(name) + to_string(K), make_ops<T, F_PARSE | F_DESER>(name), [](Rng& r) { return Sp<T>::t(r, true); }, K <= must });
}
template<template<int> class N, int... K> void adds(vector<Static>& v, const char* name, int must, integer_sequence<int, K...>) { (add<N, K>(v, name, must), ...); }
using Shallow = integer_sequence<int, 1, 2, 3, 4, 5>;
using Middle = integer_sequence<int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10>;
using Depths = integer_sequence<int, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>;

/** The text of a random value by the reference encoder, members of objects in random order. */
static void shuffle_members(Rng& r, Node& n) {
    for (auto& c : n.a) shuffle_members(r, c);
    if (n.k == mj::Obj) for (size_t k = n.a.size(); k > 1; --k) { size_t o = r.below(k); swap(n.a[k - 1], n.a[o]); swap(n.keys[k - 1], n.keys[o]); }
}
template<typename T> void add_value(vector<Static>& v, const char* name) {
    v.push_back({ name, make_ops<T, F_PARSE | F_DESER>(name), [](Rng& r) {
        for (;;) {
            T x{};
            Gen g(r);
            g.limit = 7;
            Model<T>::gen(g, x);
            Enc e{ JSON };
            Node n;
            if (!Model<T>::enc(e, x, n)) continue;
            if (r.chance(1, 2)) shuffle_members(r, n);
            return mj::text(n);
        }
    }, true });
}

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(static_types_, PART)(vector<Static>& st) {
#if PART == 0
    adds<VN>(st, "vectors ", 30, Depths{});
#elif PART == 1
    adds<MN>(st, "dictionaries ", 30, Depths{});
#elif PART == 2
    adds<TN>(st, "tuples ", 20, Shallow{}); adds<PN>(st, "pairs ", 20, Shallow{});
#elif PART == 3
    adds<AN>(st, "arrays ", 20, Depths{});
#elif PART == 4
    adds<UN>(st, "pointers ", 20, Depths{});
#elif PART == 5
    adds<XN>(st, "mixed containers ", 20, Middle{});
#elif PART == 6     // every specialised handler of an element type, as a child among siblings
    add_value<vector<CVecs>>(st, "vectors of scalars in a list"); add_value<map<string, CVecs>>(st, "vectors of scalars in a dictionary"); add_value<pair<int, CVecs>>(st, "vectors of scalars in a pair");
    add_value<tuple<bool, vector<bool>, vector<int>, vector<double>, vector<string>, string>>(st, "tuple of vectors"); add_value<vector<vector<bool>>>(st, "list of vectors of booleans"); add_value<vector<vector<string>>>(st, "list of vectors of strings"); add_value<map<string, vector<double>>>(st, "dictionary of vectors");
#elif PART == 7
    add_value<vector<CSets>>(st, "sets in a list"); add_value<map<string, CSets>>(st, "sets in a dictionary"); add_value<pair<int, CSets>>(st, "sets in a pair");
    add_value<tuple<bool, set<bool>, set<int>, set<double>, set<string>, string>>(st, "tuple of sets"); add_value<vector<set<bool>>>(st, "list of sets of booleans"); add_value<vector<set<string>>>(st, "list of sets of strings"); add_value<map<string, set<double>>>(st, "dictionary of sets");
#elif PART == 8
    add_value<vector<CSpecial>>(st, "special values in a list"); add_value<vector<CCont>>(st, "containers in a list"); add_value<map<string, CCont>>(st, "containers in a dictionary");
    add_value<vector<unordered_map<string, map<string, unordered_map<string, int>>>>>(st, "dictionaries of dictionaries");
#endif
}
#else
void static_types_0(vector<Static>&); void static_types_1(vector<Static>&); void static_types_2(vector<Static>&); void static_types_3(vector<Static>&); void static_types_4(vector<Static>&); void static_types_5(vector<Static>&); void static_types_6(vector<Static>&); void static_types_7(vector<Static>&); void static_types_8(vector<Static>&);
// A recursive class that nests through every kind of handler.
struct NMix {
    optional<int> pre;
    optional<vector<NMix>> vec; optional<map<string, NMix>> map_; optional<unordered_map<string, NMix>> um; optional<unique_ptr<NMix>> up; optional<shared_ptr<NMix>> sp;
    optional<vector<pair<int, NMix>>> prs; optional<vector<tuple<bool, NMix, string>>> tps; optional<vector<array<NMix, 2>>> ars; optional<vector<optional<int>>> dummy_; optional<vector<unique_ptr<NMix>>> ups; optional<map<string, vector<NMix>>> mv; optional<unique_ptr<vector<NMix>>> uv;
    optional<int> post; string tail = "none";
    FIELDS((R, pre), (R, vec), (N, "map", map_), (R, um), (R, up), (R, sp), (R, prs), (R, tps), (R, ars), (R, ups), (R, mv), (R, uv), (R, post), (D, tail))
};
static const char* kinds[] = { "vec", "map", "um", "up", "sp", "prs", "tps", "ars", "ups", "mv", "uv" };
constexpr int KINDS = 11;
static string leaf(Rng& r) {
    string o = "{";
    if (r.chance(1, 2)) o += "\"pre\":" + to_string(r.below(1000));
    if (r.chance(1, 3)) { if (o.size() > 1) o += ','; o += "\"vec\":[]"; }
    if (r.chance(1, 3)) { if (o.size() > 1) o += ','; o += "\"tail\":\"t" + to_string(r.below(100)) + "\""; }
    return o + "}";
}
/** Wraps `x` in one level of the kind, with siblings around it. */
static string wrap(int kind, const string& x, Rng& r) {
    auto before = [&](const char* sep, auto&& f) { string o; for (auto n = r.below(3); n--;) o += f() + sep; return o; };
    auto after = [&](const char* sep, auto&& f) { string o; for (auto n = r.below(3); n--;) o += sep + f(); return o; };
    int key = 0;
    auto named = [&] { return "\"k" + to_string(key++) + "\":" + leaf(r); };
    auto anon = [&] { return leaf(r); };
    auto prs = [&] { return "[" + to_string(r.below(99)) + "," + leaf(r) + "]"; };
    auto tps = [&] { return "[true," + leaf(r) + ",\"s\"]"; };
    auto ars = [&] { return "[" + leaf(r) + "," + leaf(r) + "]"; };
    auto arrs = [&] { return "\"k" + to_string(key++) + "\":[" + leaf(r) + "]"; };
    string v;
    switch (kind) {
        case 0: case 8: v = "[" + before(",", anon) + x + after(",", anon) + "]"; break;
        case 1: case 2: v = "{" + before(",", named) + "\"x\":" + x + after(",", named) + "}"; break;
        case 3: case 4: v = x; break;
        case 5: v = "[" + before(",", prs) + "[" + to_string(r.below(99)) + "," + x + "]" + after(",", prs) + "]"; break;
        case 6: v = "[" + before(",", tps) + "[false," + x + ",\"end" + to_string(r.below(99)) + "\"]" + after(",", tps) + "]"; break;
        case 7: v = "[" + before(",", ars) + (r.chance(1, 2) ? "[" + leaf(r) + "," + x + "]" : "[" + x + "," + leaf(r) + "]") + after(",", ars) + "]"; break;
        case 9: v = "{" + before(",", arrs) + "\"x\":[" + before(",", anon) + x + after(",", anon) + "]" + after(",", arrs) + "}"; break;
        case 10: v = "[" + before(",", anon) + x + after(",", anon) + "]"; break;
    }
    string o = "{";
    auto member = [&](const string& s) { if (o.size() > 1) o += ','; o += s; };
    int other = int(r.below(KINDS));
    string sib = other == kind ? "" : other == 1 || other == 2 || other == 9 ? "{}" : other == 3 || other == 4 ? leaf(r) : "[]";
    bool first = r.chance(1, 2);
    if (r.chance(2, 3)) member("\"pre\":" + to_string(r.below(100000)));
    if (!sib.empty() && first) member("\"" + string(kinds[other]) + "\":" + sib);
    member("\"" + string(kinds[kind]) + "\":" + v);
    if (!sib.empty() && !first) member("\"" + string(kinds[other]) + "\":" + sib);
    if (r.chance(2, 3)) member("\"post\":" + to_string(r.below(100000)));
    if (r.chance(1, 2)) member("\"tail\":\"after" + to_string(r.below(1000)) + "\"");
    return o + "}";
}
static string spine(const function<int(int)>& kind_at, int depth, Rng& r) {
    string x = leaf(r);
    for (int k = 0; k < depth; ++k) x = wrap(kind_at(k), x, r);
    return x;
}
static string shape_of(const string& t) { string o; for (char c : t) if (strchr("[]{}", c)) o += c; return o; }

/** Parses one document with both overloads, twice, and judges the result. `must`: it has to be accepted. */
static bool judge(const TypeOps& t, const string& name, const string& text, bool must, bool valid) {
    auto doc = mj::read(text);
    if (valid != doc.ok) exit(3);
    Val want(t);
    string expect;
    if (valid) {
        DecOut d = t.dec(PARSE, doc.root, want.p);
        if (d.st != 0) { fprintf(stderr, "reference rejects %s: %s\n", text.c_str(), d.why.c_str()); exit(3); }
        expect = want.canon();
    }
    bool accepted = false;
    string first;
    Val again(t);
    for (int op = 0; op < 4; ++op) {
        mon.doing("nesting " + name, text);
        Val fresh(t);
        Val& y = op < 2 ? fresh : again;
        Res res = op % 2 ? t.parse_v(text, y.p) : t.parse(text, y.p);
        mon.count("parses");
        bool ok = res.o == OK;
        bool proper = ok || res.o == (op % 2 ? EPARSE : NO);
        if (!proper) mon.fail(name + "|outcome", string(op % 2 ? "parse(text)" : "parse(text, target)") + " ends with " + res_text(res) + " on nested document " + show(text));
        else if (ok && !valid) mon.fail(name + "|malformed", "malformed text accepted: " + show(text));
        else if (!ok && must) mon.fail(name + "|rejects", "document nested within the supported depth is rejected: " + res_text(res) + "\n" + show(text));
        else if (ok && y.canon() != expect) mon.fail(name + "|value", "wrong value from nested document\nread:     " + show(y.canon()) + "\nexpected: " + show(expect) + "\ntext: " + show(text));
        string sum = ok ? "ok" : "no";
        if (op == 0) { first = sum; accepted = ok; }
        else if (sum != first) mon.fail(name + "|repeat", "the same document is accepted once and rejected once: " + show(text));
    }
    mon.count(valid ? accepted ? "accepted" : "rejected_as_too_deep" : "malformed_rejected");
    return accepted;
}

void special(Rng&) {
    static const TypeOps mix_ops = make_ops<NMix, F_PARSE | F_DESER>("NMix");
    // levels that have to be supported: three quarters of what the library supports now
    static const int floors[KINDS] = { 46, 46, 46, 93, 93, 30, 30, 30, 46, 30, 46 };
    const int mixed_floor = *min_element(floors, floors + KINDS);
    uint64_t job = 0;
    auto turn = [&] { ++job; if (mon.only >= 0 ? uint64_t(mon.only) != job : job % mon.shards != mon.shard) return false; mon.begin(job); return !mon.enough() && !mon.late(); };
    auto note = [&](const string& name, const string& text, int depth) { mon.saw(fnv(name + shape_of(text)), depth > 1); mon.sample(name + ", depth " + to_string(depth) + ": " + text); };
    const bool deep = mon.tier == "thorough";
    // every depth of every kind of nesting, and far beyond
    vector<int> depths;
    for (int d = 0; d <= (deep ? 300 : 150); ++d) depths.push_back(d);
    for (int d : { 200, 255, 256, 257, 400, 511, 512, 513, 700 }) if (d > depths.back()) depths.push_back(d);
    for (int kind = 0; kind < KINDS; ++kind) for (int d : depths) for (int rep = 0; rep < (d > 150 ? 1 : deep ? 40 : 4); ++rep) if (turn()) {
        Rng r(mix(mix(mon.seed, fnv("pure")), job));
        string text = spine([&](int) { return kind; }, d, r);
        if (judge(mix_ops, string("nested in ") + kinds[kind], text, d <= floors[kind], true)) { auto& m = mon.counts[string("deepest accepted ") + kinds[kind]]; m = max<uint64_t>(m, d); }
        note(kinds[kind], text, d);
    }
    // mixed nestings
    for (int k = 0; k < (deep ? 400000 : 6000); ++k) if (turn()) {
        Rng r(mix(mix(mon.seed, fnv("mixed")), job));
        int d = r.chance(1, 8) ? int(r.below(200)) : r.chance(1, 2) ? int(r.below(12)) : int(r.below(mixed_floor + 4));
        int a = int(r.below(KINDS)), b = int(r.below(KINDS));
        int mode = int(r.below(3));
        string text = spine([&](int l) { return mode == 0 ? int(r.below(KINDS)) : mode == 1 ? (l % 2 ? a : b) : l < d / 2 ? a : b; }, d, r);
        judge(mix_ops, "mixed nesting", text, d <= mixed_floor, true);
        note("mixed", text, d);
        // the same, cut or damaged: an ordinary failure
        string bad = text.substr(0, r.below(text.size()));
        if (!mj::read(bad).ok) judge(mix_ops, "mixed nesting, cut", bad, false, false);
    }
    // a text that only opens
    for (int d : { 1, 10, 100, 127, 128, 129, 1000, 10000, 100000, 1000000 }) for (const char* open : { "[", "{\"vec\":[", "{\"map\":{\"x\":", "{\"up\":", "{\"prs\":[[1,", "{\"tps\":[[true,", "{\"uv\":[" }) if (turn()) {
        string text;
        for (int k = 0; k < d; ++k) text += open;
        judge(mix_ops, "opening only", text, false, false);
        note("opening only", text.substr(0, 200) + to_string(d), d);
    }
    vector<Static> st;
    static_types_0(st); static_types_1(st); static_types_2(st); static_types_3(st); static_types_4(st); static_types_5(st); static_types_6(st); static_types_7(st); static_types_8(st);
    for (auto& s : st) for (int k = 0; k < (deep ? 4000 : 60); ++k) if (turn()) {
        Rng r(mix(mix(mon.seed, fnv(s.name)), job));
        string text = s.text(r);
        judge(s.ops, s.name, text, s.must, true);
        note(s.name, text, 2);
        string bad = text.substr(0, r.below(text.size()));
        if (!mj::read(bad).ok) judge(s.ops, s.name + " cut", bad, false, false);
    }
}
#endif
