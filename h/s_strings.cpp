// C22: every character, escape form, length and placement of special characters, as value and as key.
#include "positions.hpp"
namespace P = persistence;

static std::string cp(unsigned c) { std::string o; mj::Reader::utf8(o, c); return o; }
static std::string jquote(const std::string& s, const mj::Style& st = {}) { std::string o; mj::put_string(o, s, st); return o; }
static std::string hex(const std::string& s) { std::string o; char t[4]; for (unsigned char x : s.substr(0, 200)) { std::snprintf(t, 4, "%02x", x); o += t; } return o + " (" + std::to_string(s.size()) + " bytes)"; }
static std::string u4(unsigned v, bool upper) { char b[8]; std::snprintf(b, 8, upper ? "\\u%04X" : "\\u%04x", v); return b; }

/** The literal denotes the string, wherever it stands. */
static void reads(const std::string& lit, const std::string& want, bool few) {
    mon.doing("string literal", lit);
    read_everywhere<std::string>(lit, [&](const char* op, bool got, const std::string* v, bool shape) {
        if (!got) mon.fail(std::string(op) + "|rejects", std::string(op) + " rejects " + show(lit, 300));
        else if (!shape || *v != want) mon.fail(std::string(op) + "|value", std::string(op) + " reads " + show(lit, 300) + " as " + (v ? hex(*v) : "a container of another shape") + ", expected " + hex(want));
    }, few);
    mon.saw(fnv("l" + lit), lit.size() > 3);
}
/** As a dictionary key: parse, deserialize; back-references through it. */
static void key_reads(const std::string& lit, const std::string& want) {
    const std::string text = "{" + lit + ":1,\"sibling\":2}";
    mon.doing("key literal", text);
    bool clash = want == "sibling";
    auto judge = [&](const char* op, bool ok, const auto& m) {
        if (clash) return;
        auto it = m.find(want);
        if (!ok || m.size() != 2 || it == m.end() || it->second != 1 || !m.count("sibling")) mon.fail(std::string(op) + "|key", std::string(op) + (ok ? " changes" : " rejects") + " the key in " + show(text, 300) + ", expected " + hex(want));
    };
    std::map<std::string, int> a, b; std::unordered_map<std::string, int> c, d; 
    bool oa = P::parse(text, a); judge("parse map", oa, a);
    bool ob = P::deserialize(text, b); judge("deserialize map", ob, b);
    bool oc = P::parse(text, c); judge("parse unordered_map", oc, c);
    bool od = P::deserialize(std::string(text), d); judge("deserialize unordered_map", od, d);
    mon.count("keys_read", 4);
}
/** Written as a literal that denotes it, in all positions and as key, and read back. */
static void writes(const std::string& s) {
    mon.doing("string value", s);
    auto denotes = [&](const char* op, const std::string& text, const std::string& got) { if (got != s) mon.fail(std::string(op) + "|written", std::string(op) + " of " + hex(s) + " gives " + show(text, 300)); };
    auto both = [&](const char* where, auto&& make, auto&& get) {
        std::string w = "?", t;
        rapidjson::Document doc;
        bool oks;
        { auto c = make(); oks = P::write_to_string(c, w) && P::serialize_to_document(c, doc); }   // the source is gone before the document is read
        if (!oks) { mon.fail(std::string(where) + "|write", std::string(where) + ": cannot write " + hex(s)); return; }
        t = P::document_to_string(doc);
        for (auto* x : { &w, &t }) { auto rd = mj::read(*x); if (!rd.ok) mon.fail(std::string(where) + "|malformed", std::string(where) + " of " + hex(s) + " gives text that is not JSON: " + show(*x, 300)); else { const std::string* g = get(rd.root); denotes(where, *x, g ? *g : std::string("<missing>")); } }
        using C = decltype(make());
        if constexpr (!std::is_same_v<C, std::string_view>) {
            C c = make(), x{}, y{}, z{};
            if (!P::parse(w, x) || x != c) mon.fail(std::string(where) + "|parse round trip", std::string(where) + ": " + hex(s) + " does not survive writing and parsing");
            if (!P::deserialize(doc, y) || y != c) mon.fail(std::string(where) + "|document round trip", std::string(where) + ": " + hex(s) + " does not survive serializing and deserializing");
            if (!P::deserialize(w, z) || z != c) mon.fail(std::string(where) + "|text round trip", std::string(where) + ": " + hex(s) + " does not survive writing and deserializing");
        }
        mon.count("round_trips", 3);
    };
    using N = const mj::Node&;
    both("root", [&] { return s; }, [](N n) { return &n.s; });
    both("vector", [&] { return std::vector<std::string>{ "a", s, s }; }, [](N n) { return n.a.size() == 3 && n.a[0].s == "a" ? &n.a[1].s : nullptr; });
    both("map key", [&] { return std::map<std::string, std::string>{ { s, s } }; }, [](N n) { return n.keys.size() == 1 ? &n.keys[0] : nullptr; });
    both("map value", [&] { return std::map<std::string, std::string>{ { s, s } }; }, [](N n) { return n.a.size() == 1 ? &n.a[0].s : nullptr; });
    both("unordered_map key", [&] { return std::unordered_map<std::string, int>{ { s, 3 } }; }, [](N n) { return n.keys.size() == 1 ? &n.keys[0] : nullptr; });
    both("nested map key", [&] { return std::map<std::string, std::map<std::string, int>>{ { s, { { s, 1 }, { s + "x", 2 } } } }; }, [&](N n) { return n.keys.size() == 1 && n.a[0].keys.size() == 2 ? &n.a[0].keys[0] : nullptr; });
    both("member", [&] { return C2{ s, { 1 } }; }, [](N n) { return n.a.empty() ? nullptr : &n.a[0].s; });
    both("tuple", [&] { return std::make_tuple(1, s, s); }, [](N n) { return n.a.size() == 3 ? &n.a[2].s : nullptr; });
    {   // views are written as the characters they show
        std::string backing = "x" + s + "y";
        std::string_view v(backing.data() + 1, s.size());
        std::string w, t;
        rapidjson::Document doc;
        std::map<std::string_view, int> km = { { v, 5 } };
        bool ok = P::write_to_string(v, w) && P::serialize_to_document(v, doc);
        if (ok) t = P::document_to_string(doc);
        auto a = mj::read(w), b = mj::read(t);
        if (!ok || !a.ok || !b.ok || a.root.s != s || b.root.s != s) mon.fail("string_view|written", "string_view " + hex(s) + " written as " + show(w, 300) + ", serialized as " + show(t, 300));
        ok = P::write_to_string(km, w) && P::serialize_to_document(km, doc);
        if (ok) t = P::document_to_string(doc);
        a = mj::read(w), b = mj::read(t);
        if (!ok || !a.ok || !b.ok || a.root.keys.size() != 1 || b.root.keys.size() != 1 || a.root.keys[0] != s || b.root.keys[0] != s) mon.fail("string_view key|written", "string_view key " + hex(s) + " written as " + show(w, 300) + ", serialized as " + show(t, 300));
        mon.count("views", 2);
    }
    mon.saw(fnv("v" + s), s.size() > 1);
}
/** Distinct keys stay distinct, and each keeps its own value. */
static void many_keys(const std::set<std::string>& keys) {
    std::map<std::string, int> m;
    int n = 0;
    for (auto& k : keys) m[k] = n++;
    std::unordered_map<std::string, int> u(m.begin(), m.end());
    auto go = [&](const char* what, const auto& c) {
        using C = std::decay_t<decltype(c)>;
        std::string w = P::write_to_string(c);
        C a, b, d, e;
        rapidjson::Document doc = P::serialize_to_document(c);
        bool ok = P::parse(w, a) && P::deserialize(w, b) && P::deserialize(doc, d) && P::deserialize(std::string(w), e);
        if (!ok || a != c || b != c || d != c || e != c) mon.fail(std::string(what) + "|distinct keys", std::string(what) + " of " + std::to_string(c.size()) + " keys does not survive; text " + show(w, 600));
        auto rd = mj::read(w);
        if (!rd.ok || rd.dup || rd.root.keys.size() != c.size()) mon.fail(std::string(what) + "|keys written", show(w, 600));
    };
    go("map", m); go("unordered_map", u);
    mon.count("key_sets");
}
template<std::size_t N> static void literal(const char (&s)[N]) {
    std::string want(s, N - 1), w = P::write_to_string(s);
    rapidjson::Document d = P::serialize_to_document(s);
    std::string t = P::document_to_string(d);
    auto a = mj::read(w), b = mj::read(t);
    if (!a.ok || !b.ok || a.root.s != want || b.root.s != want) mon.fail("char array|written", "literal " + hex(want) + " written as " + show(w) + " and " + show(t));
    mon.count("char_arrays");
}

void special(Rng& r) {
    if (mon.only >= 0) return;
    bool thorough = mon.tier == "thorough";
    const std::uint64_t S = mon.shards, K = mon.shard;
    // every \uXXXX escape that denotes a character, in both cases of digits
    for (unsigned c = unsigned(K); c < 0x10000 && !mon.enough(); c += unsigned(S)) {
        if (c >= 0xd800 && c < 0xe000) continue;
        reads("\"" + u4(c, c & 1) + "\"", cp(c), c / S % (thorough ? 1 : 16) != 0);
        if (c % 3 == 0) reads("\"a" + u4(c, true) + "b" + u4(c, false) + "\"", "a" + cp(c) + "b" + cp(c), true);
        if (thorough || c < 0x300 || c % 7 == 0) { key_reads("\"" + u4(c, c & 2) + "k\"", cp(c) + "k"); }
        mon.count("escapes_exhaustive_bmp");
    }
    // surrogate pairs: quick a lattice, thorough all
    for (unsigned c = 0x10000 + unsigned(K); c < 0x110000 && !mon.enough(); c += unsigned(S) * (thorough ? 1 : 13)) {
        unsigned v = c - 0x10000;
        reads("\"" + u4(0xd800 + (v >> 10), c & 1) + u4(0xdc00 + (v & 0x3ff), c & 2) + "\"", cp(c), true);
        if (c % 64 == 5) key_reads("\"" + u4(0xd800 + (v >> 10), true) + u4(0xdc00 + (v & 0x3ff), true) + "\"", cp(c));
        mon.count("surrogate_pairs");
        if (c % 4096 < S && mon.late()) break;
    }
    // every character as itself
    for (unsigned c = unsigned(K); c < 0x110000 && !mon.enough(); c += unsigned(S) * (c < 0x3000 || thorough ? 1 : 29)) {
        if (c >= 0xd800 && c < 0xe000) continue;
        writes(cp(c));
        if (c < 0x400) { writes("x" + cp(c)); writes(cp(c) + "x"); writes(std::string(16, 'y') + cp(c) + std::string(20, 'z')); }
        if (c >= 0x20 && c != '"' && c != '\\') { reads("\"" + cp(c) + "\"", cp(c), c % 97 != 0); if (c < 0x1000) key_reads("\"" + cp(c) + "\"", cp(c)); }
        mon.count("characters");
        if (c % 4096 < S && mon.late()) break;
    }
    // short escapes
    const std::pair<const char*, char> shorts[] = { { "\\\"", '"' }, { "\\\\", '\\' }, { "\\/", '/' }, { "\\b", '\b' }, { "\\f", '\f' }, { "\\n", '\n' }, { "\\r", '\r' }, { "\\t", '\t' } };
    for (auto& [e, c] : shorts) { reads(std::string("\"") + e + "\"", std::string(1, c), false); reads(std::string("\"ab") + e + e + "cd\"", std::string("ab") + c + c + "cd", false); key_reads(std::string("\"") + e + "\"", std::string(1, c)); }
    // a special character at every place of strings of every length (vectorised scanning has block boundaries)
    const std::string specials[] = { "\"", "\\", std::string(1, '\0'), "\x1f", "\x1a", "\n", "/", "\x7f", "\xc3\xbc", "\xe2\x82\xac", "\xf0\x9f\x98\x80" };
    std::uint64_t n = 0;
    for (std::size_t len = 0; len <= (thorough ? 130u : 40u) && !mon.enough(); ++len) for (std::size_t at = 0; at <= len; ++at) for (auto& sp : specials) {
        if (n++ % S != K) continue;
        if (!thorough && len > 20 && n / S % 4) continue;
        std::string s = std::string(at, 'p') + sp + std::string(len - at, 'q');
        writes(s);
        mj::Style st; st.r = &r; st.escape = true;
        reads(jquote(s, st), s, n / S % 16 != 0);
        key_reads(jquote(s, st), s);
    }
    // lengths, among them those around buffer sizes
    for (std::size_t len : { 0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536, 65537, 1000000 }) if (n++ % S == K) {
        std::string s(len, 'm');
        writes(s); reads(jquote(s), s, true);
        for (auto& c : s) c = "ab\"\\\n\x01"[r.below(6)];
        writes(s); reads(jquote(s), s, true); key_reads(jquote(s), s);
        mon.count("lengths");
    }
    // random strings of mixed characters with random equivalent escapes
    for (std::uint64_t k = 0, m = thorough ? 3000000 : 60000; k < m / S && !mon.enough(); ++k) {
        std::string s;
        for (auto c = r.below(r.chance(1, 10) ? 80 : 12); c--;) switch (r.below(8)) {
            case 0: s += char(r.below(32)); break;
            case 1: s += "\"\\/~$"[r.below(5)]; break;
            case 2: { unsigned v = unsigned(r.below(0x110000)); if (v >= 0xd800 && v < 0xe000) v = 0x20ac; s += cp(v); break; }
            case 3: s += cp(0x80 + unsigned(r.below(0x780))); break;
            default: s += char('a' + r.below(26));
        }
        writes(s);
        mj::Style st; st.r = &r; st.escape = true;
        reads(jquote(s, st), s, k % 8 != 0);
        key_reads(jquote(s, st), s);
        if (k % 64 == 0 && mon.late()) break;
    }
    // sets of similar keys
    for (int k = 0; k < (thorough ? 4000 : 200) && !mon.enough(); ++k) {
        std::set<std::string> keys = { "" };
        for (auto c = r.below(60); c--;) {
            std::string base;
            auto it = keys.begin(); std::advance(it, long(r.below(keys.size()))); base = *it;
            switch (r.below(7)) {
                case 0: base += '\0'; break;
                case 1: base = '\0' + base; break;
                case 2: base += "a"; break;
                case 3: base += cp(0xe9); break;
                case 4: base += "e" + cp(0x301); break;   // another form of the same letter: a different key
                case 5: if (!base.empty()) base[0] = (base[0] & 0x80) ? base[0] : char(std::toupper(base[0])); break;
                default: base += "\"\\/~ \n"[r.below(6)];
            }
            keys.insert(base);
        }
        many_keys(keys);
    }
    if (K == 0) { literal(""); literal("a"); literal("quote \" and \\ and \n"); literal("nul \0 inside"); literal("\xc3\xbc\xe2\x82\xac\xf0\x9f\x98\x80"); }
}
