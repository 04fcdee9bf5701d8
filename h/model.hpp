// Reference model of the documented encoding: for every supported type an independent generator,
// encoder (C++ value -> expected JSON) and decoder (JSON -> expected C++ value or rejection).
#pragma once
#include "mj.hpp"
#include <array>
#include <chrono>
#include <cmath>
#include <cfloat>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <typeindex>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <variant>
#include <cstddef>

using mj::Node;

// ---------------------------------------------------------------- generation
struct Gen {
    Rng& r;
    int depth = 0, limit = 5, deep_made = 0;
    bool share = false;      // reuse shared objects
    bool bad = false;        // also generate values that cannot be written
    bool tiny = false;       // keep everything small
    bool huge = false;       // allow large containers and strings
    bool wide = false;       // inside of such a container
    bool giant = false;      // make the next container very large, of small elements
    bool wild_keys = true;
    int in_shared = 0;
    std::map<std::type_index, std::vector<std::shared_ptr<void>>> pool;
    std::uint64_t next_id = 1;
    explicit Gen(Rng& r) : r(r) {}

    std::size_t count(bool cheap) {
        if (depth > 5 && ++deep_made > 150) limit = 5;
        if (depth > limit) return 0;
        if (depth > 5) return 1 + r.chance(1, 4);   // a deep value, which must not be wide
        if (giant && depth <= 2) {
            giant = false;
            tiny = wide = true;
            if (!cheap) return 9990 + r.below(1000);
            static const std::size_t sizes[] = { 10000, 16384, 32768, 65536, 100000, 131072 };
            return sizes[r.below(std::size(sizes))] - 2 + r.below(5);
        }
        if (tiny) return r.below(3);
        if (limit > 23) return 1 + r.below(2);
        auto d = r.below(100);
        if (d < 14) return 0;
        if (d < 34) return 1;
        if (d < 90 || depth > 1) return 1 + r.below(depth > 1 ? 3 : 5);
        if (huge && depth == 1 && cheap && d >= 98) return 1000 + r.below(3000);
        return 5 + r.below(cheap ? 40 : 12);
    }
};

struct Nest { Gen& g; explicit Nest(Gen& g) : g(g) { ++g.depth; } ~Nest() { --g.depth; } };

inline void append_utf8(std::string& o, unsigned cp) {
    if (cp < 0x80) o += char(cp);
    else if (cp < 0x800) { o += char(0xC0 | cp >> 6); o += char(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { o += char(0xE0 | cp >> 12); o += char(0x80 | (cp >> 6 & 63)); o += char(0x80 | (cp & 63)); }
    else { o += char(0xF0 | cp >> 18); o += char(0x80 | (cp >> 12 & 63)); o += char(0x80 | (cp >> 6 & 63)); o += char(0x80 | (cp & 63)); }
}

inline std::string gen_string(Gen& g, bool key = false) {
    Rng& r = g.r;
    static const std::string special[] = {
        std::string(), " ", "/", "~", "~0", "~1", "~01", "a/b", "m~n", "0", "1", "00", "-", "-1", "#", "#/a", "%20", "%41", "\"", "\\", "\\\"", "\n", "\t", "\r\n",
        std::string(1, '\0'), std::string("a\0b", 3), std::string("\0\0", 2), "\x01", "\x1f", "\x7f", "null", "true", "[]", "{}", "é", "日本語", "😀", "𝄞x",
        "\xEF\xBF\xBF", "\xC2\x80", "\xE2\x80\xA8", "\xEF\xBB\xBF", "value", "a", "b", "id", "name", "key", ".", "..", "$", "$re", "$ref ", "'", "</script>", "\\u0041", "\b\f", "1982-10-23", "2001-02-03T04:05:06Z", "AAAA", "QQ=="
    };
    if (g.wide) { std::string s; for (auto n = r.below(key ? 8 : 6); n--;) s += char('a' + r.below(26)); return s; }
    if (g.tiny) { std::string s; for (auto n = r.below(4); n--;) s += char('a' + r.below(3)); return s; }
    auto d = r.below(100);
    if (d < 6) return {};
    if (d < 34) return special[r.below(std::size(special))];
    if (d < 36 && key && g.in_shared == 0) return "$ref";
    std::size_t n = 1 + r.below(12);
    if (d >= 90) n = 10 + r.below(120);
    if (d >= 98) n = 200 + r.below(1500);
    if (!key && g.huge && d >= 99 && r.chance(1, 4)) n = 60000 + r.below(30000);
    if (key && n > 200) n = r.chance(1, 8) ? 250 + r.below(400) : 200;
    std::string s;
    auto mode = r.below(4);
    for (std::size_t i = 0; i < n; ++i) {
        switch (mode) {
            case 0: s += char('a' + r.below(26)); break;
            case 1: s += char(32 + r.below(95)); break;
            case 2: s += char(r.below(128)); break;
            default: {
                auto k = r.below(8);
                unsigned cp = k < 3 ? unsigned(r.below(0x80)) : k < 5 ? 0x80 + unsigned(r.below(0x780)) : k < 7 ? 0x800 + unsigned(r.below(0xF800)) : 0x10000 + unsigned(r.below(0x100000));
                if (cp >= 0xD800 && cp <= 0xDFFF) cp = 0xFFFD;
                append_utf8(s, cp);
            }
        }
    }
    return s;
}

// ---------------------------------------------------------------- encoding
enum EncMode { JSON, CANON };

inline std::string escape_pointer(std::string_view s) {
    std::string o;
    for (char c : s) { if (c == '~') o += "~0"; else if (c == '/') o += "~1"; else o += c; }
    return o;
}

struct Enc {
    EncMode mode;
    std::vector<std::string> path;               // already escaped segments
    using Id = std::pair<const void*, std::type_index>;   // an object and its first member share an address
    std::map<Id, std::string> refs;              // JSON: first occurrence
    std::map<Id, int> ids;                       // CANON: object identity
    std::map<Id, std::pair<long, long>> uses;    // CANON: pointers seen, use_count
    std::size_t shared_seen = 0, shared_reused = 0;
    std::string pointer() const {
        if (path.empty()) return "/";
        std::string o;
        for (auto& s : path) { o += '/'; o += s; }
        return o;
    }
};
struct Seg {
    std::vector<std::string>& v;
    Seg(std::vector<std::string>& v, std::string s) : v(v) { v.push_back(std::move(s)); }
    ~Seg() { v.pop_back(); }
};

// ---------------------------------------------------------------- decoding
enum DecMode { PARSE, DOM };
struct Dec {
    DecMode mode;
    const Node* root = nullptr;
    std::vector<std::string> path;
    std::map<std::pair<const Node*, std::type_index>, std::shared_ptr<void>> refs;
    bool unspec = false;      // a construct on which no verdict is claimed was met
    std::set<std::pair<const Node*, std::type_index>> tainted; // registered by an alternative that then failed
    bool missing = false;     // PARSE: a required member is absent (known finding K1: accepted)
    std::string fail_path;    // of first failure
    std::size_t fail_beg = 0, fail_end = 0;
    std::string why;
    bool fail(const std::string& reason, std::size_t b, std::size_t e) {
        why = reason;
        fail_path.clear();
        if (path.empty()) fail_path = "/";
        for (auto& s : path) { fail_path += '/'; fail_path += s; }
        fail_beg = b; fail_end = e;
        return false;
    }
    bool fail(const std::string& reason, const Node& n) {
        bool comp = n.k == mj::Arr || n.k == mj::Obj;
        return fail(reason, n.beg, comp ? n.beg + 1 : n.end);
    }
};

template<typename T, typename Enable = void> struct Model;

// ---- null, bool
template<> struct Model<std::nullptr_t> {
    using T = std::nullptr_t;
    static void gen(Gen&, T& x) { x = nullptr; }
    static bool enc(Enc&, const T&, Node& o) { o = Node::null(); return true; }
    static bool dec(Dec& d, const Node& n, T& x) { if (n.k != mj::Null) return d.fail("not null", n); x = nullptr; return true; }
};
template<> struct Model<bool> {
    static void gen(Gen& g, bool& x) { x = g.r.chance(1, 2); }
    static bool enc(Enc&, const bool& x, Node& o) { o = Node::boolean(x); return true; }
    static bool dec(Dec& d, const Node& n, bool& x) { if (n.k != mj::Bool) return d.fail("not boolean", n); x = n.b; return true; }
};

// ---- integers
using i128 = __int128;
inline bool lit_to_i128(const std::string& s, i128& v) {
    bool neg = !s.empty() && s[0] == '-';
    std::size_t i = neg;
    if (s.size() - i > 30) return false;
    v = 0;
    for (; i < s.size(); ++i) v = v * 10 + (s[i] - '0');
    if (neg) v = -v;
    return true;
}
inline std::string i128_to_lit(i128 v) {
    if (v == 0) return "0";
    bool neg = v < 0;
    std::string s;
    while (v != 0) { int d = int(v % 10); s += char('0' + (d < 0 ? -d : d)); v /= 10; }
    if (neg) s += '-';
    std::reverse(s.begin(), s.end());
    return s;
}
template<typename T> struct Model<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static void gen(Gen& g, T& x) {
        using L = std::numeric_limits<T>;
        Rng& r = g.r;
        switch (r.below(8)) {
            case 0: x = L::min(); break;
            case 1: x = L::max(); break;
            case 2: { T e = T(r.below(3)); x = r.chance(1, 2) ? T(L::min() + e) : T(L::max() - e); break; }
            case 3: x = T(r.below(3)); break;
            case 4: { std::uint64_t b = std::uint64_t(1) << r.below(sizeof(T) * 8); if (r.chance(1, 2)) --b; x = T(b); break; }
            case 5: x = T(r.next() >> r.below(64)); break;
            default: x = T(r.next()); break;
        }
    }
    static bool enc(Enc&, const T& x, Node& o) { o = Node::num(i128_to_lit(i128(x))); return true; }
    static bool dec(Dec& d, const Node& n, T& x) {
        if (n.k != mj::Num) return d.fail("not a number", n);
        if (!mj::is_int_lit(n.s)) return d.fail("not an integer literal", n);
        i128 v;
        if (!lit_to_i128(n.s, v) || v < i128(std::numeric_limits<T>::min()) || v > i128(std::numeric_limits<T>::max())) return d.fail("integer out of range", n);
        x = T(v);
        return true;
    }
};

// ---- floating point
template<typename T> struct Model<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static void gen(Gen& g, T& x) {
        using L = std::numeric_limits<T>;
        Rng& r = g.r;
        if (g.bad && r.chance(1, 6)) { T v[] = { L::infinity(), -L::infinity(), L::quiet_NaN() }; x = v[r.below(3)]; return; }
        switch (r.below(9)) {
            case 0: { T v[] = { T(0), -T(0), T(1), -T(1), T(0.1), T(0.5), T(1e21), T(1e22), T(1e-7), T(123456789), T(4294967296.0), T(3.14159265358979) }; x = v[r.below(12)]; break; }
            case 1: { T v[] = { L::max(), L::lowest(), L::min(), L::denorm_min(), L::epsilon(), -L::denorm_min(), std::nextafter(L::max(), T(0)), T(9007199254740993.0), T(16777217.0) }; x = v[r.below(9)]; break; }
            case 2: x = T(std::int64_t(r.next()) >> r.below(64)); break;
            case 3: x = T(std::int64_t(r.below(2000000)) - 1000000) / T(1000); break;
            default:
                for (;;) {
                    if constexpr (sizeof(T) == 8) { std::uint64_t b = r.next(); std::memcpy(&x, &b, 8); }
                    else { std::uint32_t b = std::uint32_t(r.next()); std::memcpy(&x, &b, 4); }
                    if (std::isfinite(x)) break;
                }
        }
        if (!std::isfinite(x)) x = T(1);
    }
    static bool enc(Enc& e, const T& x, Node& o) {
        if (!std::isfinite(x)) { o = Node::str(std::isnan(x) ? "nan" : x > 0 ? "inf" : "-inf"); return e.mode == CANON; }
        o = Node::num(c_format("%.17e", double(x)));
        return true;
    }
    static bool dec(Dec& d, const Node& n, T& x) {
        if (n.k != mj::Num) return d.fail("not a number", n);
        double v = c_strtod(n.s.c_str());
        if (mj::is_int_lit(n.s)) {
            i128 i;
            bool fits = lit_to_i128(n.s, i) && i >= -(i128(1) << 63) && i < (i128(1) << 64);
            if (fits) {
                i128 mag = i < 0 ? -i : i;
                if (d.mode == PARSE && mag >= (i128(1) << std::numeric_limits<T>::digits)) return d.fail("integer beyond exact range", n);
                if (i == 0) v = 0.0; // "-0" is the integer zero
                x = T(v);
                if (d.mode == DOM) x = T(double(i < 0 ? double(std::int64_t(i)) : double(std::uint64_t(i))));
                return true;
            }
        }
        if (!std::isfinite(v)) return d.fail("out of range of double", n);
        if constexpr (sizeof(T) < sizeof(double)) {
            if (v < -double(FLT_MAX) || v > double(FLT_MAX)) return d.fail("out of range of float", n);
        }
        x = T(v);
        return true;
    }
};

// ---- strings
template<> struct Model<std::string> {
    static void gen(Gen& g, std::string& x) { x = gen_string(g); }
    static bool enc(Enc&, const std::string& x, Node& o) { o = Node::str(x); return true; }
    static bool dec(Dec& d, const Node& n, std::string& x) { if (n.k != mj::Str) return d.fail("not a string", n); x = n.s; return true; }
};
template<> struct Model<std::string_view> {
    static std::vector<std::string>& store() { static std::vector<std::string> s = []{ std::vector<std::string> v; Rng r(77); Gen g(r); for (int i = 0; i < 200; ++i) v.push_back(gen_string(g)); return v; }(); return s; }
    static void gen(Gen& g, std::string_view& x) { auto& s = store(); x = s[g.r.below(s.size())]; if (x.empty() && g.r.chance(1, 2)) x = std::string_view(); }
    static bool enc(Enc&, const std::string_view& x, Node& o) { o = Node::str(std::string(x)); return true; }
    static bool dec(Dec& d, const Node&, std::string_view&) { d.unspec = true; return true; }
};

// ---- bytes
using bytes = std::vector<std::byte>;
inline std::string b64_ref(const bytes& v) {
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    unsigned acc = 0; int bits = 0;
    for (auto b : v) {
        acc = acc << 8 | unsigned(b); bits += 8;
        while (bits >= 6) { bits -= 6; o += A[acc >> bits & 63]; acc &= (1u << bits) - 1; }
    }
    if (bits) o += A[acc << (6 - bits) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
inline bool b64_dec_ref(const std::string& s, bytes& v) {
    v.clear();
    if (s.size() % 4) return false;
    std::size_t n = s.size();
    std::size_t pad = 0;
    while (pad < 2 && pad < n && s[n - 1 - pad] == '=') ++pad;
    unsigned acc = 0; int bits = 0;
    for (std::size_t i = 0; i < n - pad; ++i) {
        char c = s[i];
        int q = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
        if (q < 0) return false;
        acc = acc << 6 | unsigned(q); bits += 6;
        if (bits >= 8) { bits -= 8; v.push_back(std::byte(acc >> bits & 255)); acc &= (1u << bits) - 1; }
    }
    return true;
}
template<> struct Model<bytes> {
    static void gen(Gen& g, bytes& x) {
        Rng& r = g.r;
        std::size_t n = g.tiny ? r.below(4) : r.below(100) < 70 ? r.below(40) : r.below(100) < 90 ? r.below(200) : r.below(3000);
        x.clear();
        auto m = r.below(4);
        for (std::size_t i = 0; i < n; ++i) x.push_back(m == 0 ? std::byte(0xFF) : m == 1 ? std::byte(0) : std::byte(r.below(256)));
    }
    static bool enc(Enc&, const bytes& x, Node& o) { o = Node::str(b64_ref(x)); return true; }
    static bool dec(Dec& d, const Node& n, bytes& x) {
        if (n.k != mj::Str) return d.fail("not a string", n);
        if (!b64_dec_ref(n.s, x)) return d.fail("not Base64", n);
        return true;
    }
};

// ---- dates (own calendar arithmetic)
inline std::int64_t days_from_civil(std::int64_t y, unsigned m, unsigned d) {
    y -= m <= 2;
    std::int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = unsigned(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + std::int64_t(doe) - 719468;
}
inline void civil_from_days(std::int64_t z, std::int64_t& y, unsigned& m, unsigned& d) {
    z += 719468;
    std::int64_t era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = unsigned(z - era * 146097);
    unsigned yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    y = std::int64_t(yoe) + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    unsigned mp = (5 * doy + 2) / 153;
    d = doy - (153 * mp + 2) / 5 + 1;
    m = mp < 10 ? mp + 3 : mp - 9;
    y += m <= 2;
}
inline unsigned month_days(std::int64_t y, unsigned m) {
    static const unsigned L[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    bool leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    return m == 2 && leap ? 29 : L[m - 1];
}
inline bool ndig(const std::string& s, std::size_t at, std::size_t n, unsigned& v) {
    v = 0;
    for (std::size_t i = at; i < at + n; ++i) { if (s[i] < '0' || s[i] > '9') return false; v = v * 10 + unsigned(s[i] - '0'); }
    return true;
}
inline bool date_ref(const std::string& s, unsigned& y, unsigned& m, unsigned& d) {
    return s.size() == 10 && s[4] == '-' && s[7] == '-' && ndig(s, 0, 4, y) && ndig(s, 5, 2, m) && ndig(s, 8, 2, d)
        && m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m);
}
using ymd_t = std::chrono::year_month_day;
template<> struct Model<ymd_t> {
    static void gen(Gen& g, ymd_t& x) {
        Rng& r = g.r;
        int y = r.chance(1, 4) ? int(r.below(10000)) : 1890 + int(r.below(220));
        unsigned m = 1 + unsigned(r.below(12)), d = 1 + unsigned(r.below(month_days(y, m)));
        if (r.chance(1, 6)) d = month_days(y, m);
        if (g.bad && r.chance(1, 5)) { switch (r.below(4)) { case 0: m = 13; break; case 1: d = 32; break; case 2: m = 2; d = 30; break; default: y = 10000 + int(r.below(100)); } }
        x = ymd_t(std::chrono::year(y), std::chrono::month(m), std::chrono::day(d));
    }
    static bool enc(Enc& e, const ymd_t& x, Node& o) {
        int y = int(x.year()); unsigned m = unsigned(x.month()), d = unsigned(x.day());
        bool good = y >= 0 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m);
        char buf[64];
        std::snprintf(buf, sizeof buf, "%04d-%02u-%02u", y, m, d);
        o = Node::str(buf);
        return good || e.mode == CANON;
    }
    static bool dec(Dec& c, const Node& n, ymd_t& x) {
        if (n.k != mj::Str) return c.fail("not a string", n);
        unsigned y, m, d;
        if (!date_ref(n.s, y, m, d)) return c.fail("not a date", n);
        x = ymd_t(std::chrono::year(int(y)), std::chrono::month(m), std::chrono::day(d));
        return true;
    }
};
using stamp_t = std::chrono::time_point<std::chrono::system_clock>;
inline std::int64_t stamp_min() { return std::chrono::duration_cast<std::chrono::seconds>(stamp_t::min().time_since_epoch()).count(); }
inline std::int64_t stamp_max() { return std::chrono::duration_cast<std::chrono::seconds>(stamp_t::max().time_since_epoch()).count(); }
inline std::string stamp_text(std::int64_t t) {
    std::int64_t days = t >= 0 ? t / 86400 : -((-t + 86399) / 86400);
    std::int64_t sec = t - days * 86400;
    std::int64_t y; unsigned m, d;
    civil_from_days(days, y, m, d);
    char buf[64];
    std::snprintf(buf, sizeof buf, "%04d-%02u-%02uT%02d:%02d:%02dZ", int(y), m, d, int(sec / 3600), int(sec / 60 % 60), int(sec % 60));
    return buf;
}
/** 1: valid, 0: invalid */
inline bool stamp_ref(const std::string& s, std::int64_t& t) {
    if (s.size() != 20) return false;
    unsigned y, m, d, h, mi, se;
    if (!date_ref(s.substr(0, 10), y, m, d)) return false;
    if ((s[10] != 'T' && s[10] != ' ') || s[13] != ':' || s[16] != ':' || s[19] != 'Z') return false;
    if (!ndig(s, 11, 2, h) || !ndig(s, 14, 2, mi) || !ndig(s, 17, 2, se)) return false;
    if (h > 23 || mi > 59 || se > 59) return false;
    t = days_from_civil(y, m, d) * 86400 + h * 3600 + mi * 60 + se;
    return t >= stamp_min() && t <= stamp_max();
}
inline stamp_t make_stamp(std::int64_t t) { return stamp_t(std::chrono::seconds(t)); }
template<> struct Model<stamp_t> {
    static void gen(Gen& g, stamp_t& x) {
        Rng& r = g.r;
        std::int64_t lo = stamp_min(), hi = stamp_max();
        std::int64_t t;
        switch (r.below(6)) {
            case 0: t = std::int64_t(r.below(200)) - 100; break;
            case 1: t = r.chance(1, 2) ? lo + std::int64_t(r.below(3)) : hi - std::int64_t(r.below(3)); break;
            case 2: t = days_from_civil(1700 + std::int64_t(r.below(500)), 2, 28) * 86400 + std::int64_t(r.below(2 * 86400)); break;
            case 3: t = days_from_civil(1700 + std::int64_t(r.below(500)), 12, 31) * 86400 + 86395 + std::int64_t(r.below(10)); break;
            default: t = lo + std::int64_t(r.below(std::uint64_t(hi - lo) + 1)); break;
        }
        x = make_stamp(t);
    }
    static bool enc(Enc&, const stamp_t& x, Node& o) {
        auto t = std::chrono::floor<std::chrono::seconds>(x.time_since_epoch());
        o = Node::str(stamp_text(t.count()));
        return true;
    }
    static bool dec(Dec& d, const Node& n, stamp_t& x) {
        if (n.k != mj::Str) return d.fail("not a string", n);
        std::int64_t t;
        if (!stamp_ref(n.s, t)) return d.fail("not a timestamp", n);
        x = make_stamp(t);
        return true;
    }
};

// ---- enumerations: EnumNames<E>::names() lists (value, name) or is absent for integer enumerations
template<typename E> struct EnumNames { static constexpr bool named = false; };
template<typename E> struct Model<E, std::enable_if_t<std::is_enum_v<E> && !std::is_same_v<E, std::byte>>> {
    using U = std::underlying_type_t<E>;
    static void gen(Gen& g, E& x) {
        if constexpr (EnumNames<E>::named) { auto& v = EnumNames<E>::list(); x = v[g.r.below(v.size())].first; }
        else { U u; Model<U>::gen(g, u); x = E(u); }
    }
    static bool enc(Enc& e, const E& x, Node& o) {
        if constexpr (EnumNames<E>::named) {
            for (auto& p : EnumNames<E>::list()) if (p.first == x) { o = Node::str(p.second); return true; }
            o = Node::str("?unknown");
            return e.mode == CANON;
        } else return Model<U>::enc(e, U(x), o);
    }
    static bool dec(Dec& d, const Node& n, E& x) {
        if constexpr (EnumNames<E>::named) {
            if (n.k != mj::Str) return d.fail("not a string", n);
            for (auto& p : EnumNames<E>::list()) if (p.second == n.s) { x = p.first; return true; }
            return d.fail("not an enumerator name", n);
        } else {
            U u{};
            if (!Model<U>::dec(d, n, u)) return false;
            x = E(u);
            return true;
        }
    }
};

template<typename T> inline constexpr bool cheap_v = std::is_arithmetic_v<T> || std::is_enum_v<T> || std::is_same_v<T, std::string>;

// ---- sequences
template<typename T> struct is_item : std::false_type {};
template<typename V> struct is_item<std::pair<std::string, V>> : std::true_type {};
template<typename V> struct is_item<std::pair<std::string_view, V>> : std::true_type {};
template<typename T> struct Model<std::vector<T>, std::enable_if_t<!std::is_same_v<T, std::byte> && !is_item<T>::value>> {
    using C = std::vector<T>;
    static void gen(Gen& g, C& x) {
        Nest nest(g);
        x.clear();
        for (auto n = g.count(cheap_v<T>); n--;) { T v{}; Model<T>::gen(g, v); x.push_back(std::move(v)); }
    }
    static bool enc(Enc& e, const C& x, Node& o) {
        o = Node::arr();
        bool good = true;
        o.a.reserve(x.size());
        for (std::size_t i = 0; i < x.size(); ++i) { Seg s(e.path, std::to_string(i)); good = Model<T>::enc(e, x[i], o.add()) && good; if (!good && e.mode == JSON) return false; }
        return good;
    }
    static bool dec(Dec& d, const Node& n, C& x) {
        if (n.k != mj::Arr) return d.fail("not an array", n);
        x.clear();
        for (std::size_t i = 0; i < n.a.size(); ++i) { T v{}; Seg s(d.path, std::to_string(i)); if (!Model<T>::dec(d, n.a[i], v)) return false; x.push_back(std::move(v)); }
        return true;
    }
};
template<> struct Model<std::vector<bool>> {
    using C = std::vector<bool>;
    static void gen(Gen& g, C& x) { Nest nest(g); x.clear(); for (auto n = g.count(true); n--;) x.push_back(g.r.chance(1, 2)); }
    static bool enc(Enc&, const C& x, Node& o) { o = Node::arr(); for (bool b : x) o.add() = Node::boolean(b); return true; }
    static bool dec(Dec& d, const Node& n, C& x) {
        if (n.k != mj::Arr) return d.fail("not an array", n);
        x.clear();
        for (std::size_t i = 0; i < n.a.size(); ++i) { bool v; Seg s(d.path, std::to_string(i)); if (!Model<bool>::dec(d, n.a[i], v)) return false; x.push_back(v); }
        return true;
    }
};
template<typename T> struct Model<std::set<T>> {
    using C = std::set<T>;
    static void gen(Gen& g, C& x) {
        Nest nest(g);
        x.clear();
        for (auto n = g.count(cheap_v<T>); n--;) { T v{}; Model<T>::gen(g, v); if constexpr (std::is_floating_point_v<T>) if (v != v) continue; x.insert(std::move(v)); }
    }
    static bool enc(Enc& e, const C& x, Node& o) {
        o = Node::arr();
        bool good = true;
        std::size_t i = 0;
        for (auto& v : x) { Seg s(e.path, std::to_string(i++)); good = Model<T>::enc(e, v, o.add()) && good; if (!good && e.mode == JSON) return false; }
        return good;
    }
    static bool dec(Dec& d, const Node& n, C& x) {
        if (n.k != mj::Arr) return d.fail("not an array", n);
        x.clear();
        for (std::size_t i = 0; i < n.a.size(); ++i) {
            T v{}; Seg s(d.path, std::to_string(i));
            if (!Model<T>::dec(d, n.a[i], v)) return false;
            // elements comparing equal but with different representation (0.0 and -0.0): which one stays is not claimed
            if constexpr (std::is_floating_point_v<T>) { auto it = x.find(v); if (it != x.end() && std::signbit(*it) != std::signbit(v)) d.unspec = true; }
            x.insert(std::move(v));
        }
        return true;
    }
};
template<typename T, std::size_t N> struct Model<std::array<T, N>> {
    using C = std::array<T, N>;
    static void gen(Gen& g, C& x) { Nest nest(g); for (auto& v : x) Model<T>::gen(g, v); }
    static bool enc(Enc& e, const C& x, Node& o) {
        o = Node::arr();
        bool good = true;
        for (std::size_t i = 0; i < N; ++i) { Seg s(e.path, std::to_string(i)); good = Model<T>::enc(e, x[i], o.add()) && good; if (!good && e.mode == JSON) return false; }
        return good;
    }
    static bool dec(Dec& d, const Node& n, C& x) {
        if (n.k != mj::Arr) return d.fail("not an array", n);
        if (d.mode == DOM && n.a.size() != N) return d.fail("wrong array size", n);
        for (std::size_t i = 0; i < n.a.size(); ++i) {
            Seg s(d.path, std::to_string(i));
            if (i >= N) return d.fail("too many elements", n.a[i]);
            if (!Model<T>::dec(d, n.a[i], x[i])) return false;
        }
        if (n.a.size() < N) return d.fail("too few elements", n.end - 1, n.end);
        return true;
    }
};

// ---- pairs and tuples
template<typename C, std::size_t N> struct TupleModel {
    static void gen(Gen& g, C& x) { Nest nest(g); gen_(g, x, std::make_index_sequence<N>()); }
    static bool enc(Enc& e, const C& x, Node& o) { o = Node::arr(); return enc_(e, x, o, std::make_index_sequence<N>()); }
    static bool dec(Dec& d, const Node& n, C& x) {
        if (n.k != mj::Arr) return d.fail("not an array", n);
        if (d.mode == DOM && n.a.size() != N) return d.fail("wrong number of elements", n);
        if (!dec_(d, n, x, std::make_index_sequence<N>())) return false;
        if (n.a.size() > N) { Seg s(d.path, std::to_string(N)); return d.fail("too many elements", n.a[N]); }
        if (n.a.size() < N) return d.fail("too few elements", n.end - 1, n.end);
        return true;
    }
private:
    template<std::size_t... I> static void gen_(Gen& g, C& x, std::index_sequence<I...>) { (void)g; (void)x; (Model<std::tuple_element_t<I, C>>::gen(g, std::get<I>(x)), ...); }
    template<std::size_t I> static bool enc1(Enc& e, const C& x, Node& o) { Seg s(e.path, std::to_string(I)); return Model<std::tuple_element_t<I, C>>::enc(e, std::get<I>(x), o.add()); }
    template<std::size_t... I> static bool enc_(Enc& e, const C& x, Node& o, std::index_sequence<I...>) {
        (void)e; (void)x; (void)o;
        bool good = true;
        ((good = (good || e.mode == CANON) ? (enc1<I>(e, x, o) && good) : false), ...);
        return good;
    }
    template<std::size_t I> static bool dec1(Dec& d, const Node& n, C& x) {
        if (I >= n.a.size()) return true;
        Seg s(d.path, std::to_string(I));
        return Model<std::tuple_element_t<I, C>>::dec(d, n.a[I], std::get<I>(x));
    }
    template<std::size_t... I> static bool dec_(Dec& d, const Node& n, C& x, std::index_sequence<I...>) { (void)d; (void)n; (void)x; return (... && dec1<I>(d, n, x)); }
};
template<typename A, typename B> struct Model<std::pair<A, B>> : TupleModel<std::pair<A, B>, 2> {};
template<typename... Ts> struct Model<std::tuple<Ts...>> : TupleModel<std::tuple<Ts...>, sizeof...(Ts)> {};

// ---- dictionaries
template<typename C> struct MapModel {
    using V = typename C::mapped_type;
    static void gen(Gen& g, C& x) {
        Nest nest(g);
        x.clear();
        for (auto n = g.count(cheap_v<V>); n--;) { std::string k = gen_string(g, true); V v{}; Model<V>::gen(g, v); x.insert_or_assign(std::move(k), std::move(v)); }
    }
    static bool enc(Enc& e, const C& x, Node& o) {
        o = Node::obj();
        bool good = true;
        if (e.mode == CANON) {
            std::map<std::string, const V*> order;
            for (auto& [k, v] : x) order.emplace(std::string(k), &v);
            for (auto& [k, v] : order) { good = Model<V>::enc(e, *v, o.add(k)) && good; }
        } else {
            for (auto& [k, v] : x) { Seg s(e.path, escape_pointer(k)); good = Model<V>::enc(e, v, o.add(std::string(k))) && good; if (!good) return false; }
        }
        return good;
    }
    static bool dec(Dec& d, const Node& n, C& x) {
        if (n.k != mj::Obj) return d.fail("not an object", n);
        x.clear();
        for (std::size_t i = 0; i < n.a.size(); ++i) { V v{}; Seg s(d.path, escape_pointer(n.keys[i])); if (!Model<V>::dec(d, n.a[i], v)) return false; x.insert_or_assign(n.keys[i], std::move(v)); }
        return true;
    }
};
template<typename V> struct Model<std::map<std::string, V>> : MapModel<std::map<std::string, V>> {};
template<typename V> struct Model<std::unordered_map<std::string, V>> : MapModel<std::unordered_map<std::string, V>> {};
template<typename C> struct ViewMapModel {   // write-only dictionaries keyed by string_view, or lists of pairs
    using V = typename C::value_type::second_type;
    static void gen(Gen& g, C& x) {
        Nest nest(g);
        x.clear();
        std::set<std::string> used;
        for (auto n = g.count(true); n--;) {
            std::remove_const_t<typename C::value_type::first_type> k{};
            Model<std::remove_const_t<typename C::value_type::first_type>>::gen(g, k);
            if (!used.insert(std::string(k)).second) continue;
            V v{}; Model<V>::gen(g, v);
            if constexpr (requires { x.emplace_back(k, std::move(v)); }) x.emplace_back(k, std::move(v)); else x.emplace(k, std::move(v));
        }
    }
    static bool enc(Enc& e, const C& x, Node& o) {
        o = Node::obj();
        for (auto& [k, v] : x) { Seg s(e.path, escape_pointer(k)); if (!Model<V>::enc(e, v, o.add(std::string(k)))) return false; }
        return true;
    }
    static bool dec(Dec& d, const Node&, C&) { d.unspec = true; return true; }
};
template<typename V> struct Model<std::map<std::string_view, V>> : ViewMapModel<std::map<std::string_view, V>> {};
template<typename V> struct Model<std::unordered_map<std::string_view, V>> : ViewMapModel<std::unordered_map<std::string_view, V>> {};
template<typename V> struct Model<std::vector<std::pair<std::string_view, V>>> : ViewMapModel<std::vector<std::pair<std::string_view, V>>> {};
template<typename V> struct Model<std::vector<std::pair<std::string, V>>> : ViewMapModel<std::vector<std::pair<std::string, V>>> {};

// ---- pointers
template<typename T> struct Model<std::unique_ptr<T>> {
    using P = std::unique_ptr<T>;
    static void gen(Gen& g, P& x) {
        if (g.bad && g.r.chance(1, 5)) { x.reset(); return; }
        Nest nest(g);
        x = std::make_unique<T>(); Model<T>::gen(g, *x);
    }
    static bool enc(Enc& e, const P& x, Node& o) {
        if (!x) { o = Node::str("?nullptr"); return e.mode == CANON; }
        return Model<T>::enc(e, *x, o);
    }
    static bool dec(Dec& d, const Node& n, P& x) { auto p = std::make_unique<T>(); if (!Model<T>::dec(d, n, *p)) return false; x = std::move(p); return true; }
};
template<typename T> struct Model<T*> {   // write only; the pointee is kept alive for the whole run
    static void gen(Gen& g, T*& x) {
        static std::vector<std::unique_ptr<T>> keep;
        if (g.bad && g.r.chance(1, 5)) { x = nullptr; return; }
        if (keep.size() < 200) { keep.push_back(std::make_unique<T>()); Model<T>::gen(g, *keep.back()); x = keep.back().get(); }
        else x = keep[g.r.below(keep.size())].get();
    }
    static bool enc(Enc& e, T* const& x, Node& o) {
        if (!x) { o = Node::str("?nullptr"); return e.mode == CANON; }
        return Model<T>::enc(e, *x, o);
    }
    static bool dec(Dec& d, const Node&, T*&) { d.unspec = true; return true; }
};

/** RFC 6901 resolution on the reference tree; 1 found, 0 not found, -1 not a plain JSON pointer. */
inline int resolve(const Node& root, const std::string& ptr, const Node*& out) {
    out = &root;
    if (ptr.empty()) return 1;
    if (ptr[0] == '#') return -1;
    if (ptr[0] != '/') return 0;
    std::size_t i = 0;
    while (i < ptr.size()) {
        ++i;
        std::string tok;
        while (i < ptr.size() && ptr[i] != '/') {
            if (ptr[i] == '~') {
                if (i + 1 >= ptr.size()) return 0;
                if (ptr[i + 1] == '0') tok += '~'; else if (ptr[i + 1] == '1') tok += '/'; else return 0;
                i += 2;
            } else tok += ptr[i++];
        }
        if (out->k == mj::Obj) { out = out->find(tok); if (!out) return 0; }
        else if (out->k == mj::Arr) {
            if (tok.empty() || tok.size() > 9 || (tok.size() > 1 && tok[0] == '0')) return 0;
            std::size_t ix = 0;
            for (char c : tok) { if (c < '0' || c > '9') return 0; ix = ix * 10 + std::size_t(c - '0'); }
            if (ix >= out->a.size()) return 0;
            out = &out->a[ix];
        } else return 0;
    }
    return 1;
}
// escapes after the point of failure still make a pointer invalid; both mean "does not resolve"

/** Lets later pointers refer to the first member or element of a shared object, which has the address of the object. */
struct FirstVisitor { Gen& g; const std::shared_ptr<void>& owner; bool done = false; template<typename M> void field(const char*, M& m, bool) {
    if (!std::exchange(done, true)) g.pool[std::type_index(typeid(M))].push_back(std::shared_ptr<void>(owner, &m));
} };
template<typename T> void share_first(Gen& g, const std::shared_ptr<T>& x) {
    if constexpr (requires { typename T::visit_tag; }) { FirstVisitor v{ g, x }; x->visit(v); }
    else if constexpr (requires { std::tuple_size<T>::value; }) { if constexpr (std::tuple_size_v<T> > 0) { auto& m = std::get<0>(*x); g.pool[std::type_index(typeid(m))].push_back(std::shared_ptr<void>(x, &m)); } }
}
template<typename T> struct Model<std::shared_ptr<T>> {
    using P = std::shared_ptr<T>;
    static void gen(Gen& g, P& x) {
        if (g.bad && g.r.chance(1, 6)) { x.reset(); return; }
        auto& pool = g.pool[std::type_index(typeid(T))];
        if (g.share && !pool.empty() && g.r.chance(1, 2)) {
            x = std::static_pointer_cast<T>(pool[g.r.below(pool.size())]);
            if (g.r.chance(1, 8)) { auto owner = x; x = P(owner.get(), [owner](T*) {}); }   // the same object, counted on its own
            return;
        }
        Nest nest(g);
        ++g.in_shared;
        x = std::make_shared<T>();
        Model<T>::gen(g, *x);
        --g.in_shared;
        if (g.share) {
            g.pool[std::type_index(typeid(T))].push_back(x);
            if (g.r.chance(1, 3)) share_first(g, x);
        }
    }
    static bool enc(Enc& e, const P& x, Node& o) {
        if (!x) { o = Node::str("?nullptr"); return e.mode == CANON; }
        ++e.shared_seen;
        const Enc::Id id(x.get(), typeid(T));
        if (e.mode == CANON) {
            auto& use = e.uses[id];
            ++use.first;
            use.second = x.use_count();
            auto it = e.ids.find(id);
            bool first = it == e.ids.end();
            if (first) it = e.ids.emplace(id, int(e.ids.size())).first;
            o = Node::obj();
            o.add("?shared") = Node::num(std::to_string(it->second));
            if (!first) return true;
            Node v;
            bool good = Model<T>::enc(e, *x, v);
            o.add("?value") = std::move(v);
            return good;
        }
        auto it = e.refs.find(id);
        if (it != e.refs.end()) { ++e.shared_reused; o = Node::obj(); o.add("$ref") = Node::str(it->second); return true; }
        if (!Model<T>::enc(e, *x, o)) return false;
        e.refs.emplace(id, e.pointer());
        return true;
    }
    static bool dec(Dec& d, const Node& n, P& x) {
        if (d.mode == DOM && n.k == mj::Obj) {
            if (const Node* ref = n.find("$ref")) {
                if (ref->k != mj::Str) { Seg s(d.path, "$ref"); return d.fail("$ref is not a string", *ref); }
                const Node* target = nullptr;
                int how = resolve(*d.root, ref->s, target);
                if (how < 0) { d.unspec = true; x = std::make_shared<T>(); return true; }
                auto it = how == 1 ? d.refs.find({ target, std::type_index(typeid(T)) }) : d.refs.end();
                if (it == d.refs.end()) return d.fail("unresolved reference", n);
                if (d.tainted.count(it->first)) d.unspec = true;
                x = std::static_pointer_cast<T>(it->second);
                return true;
            }
        }
        auto p = std::make_shared<T>();
        if (!Model<T>::dec(d, n, *p)) return false;
        if (d.mode == DOM) { d.refs[{ &n, std::type_index(typeid(T)) }] = p; d.tainted.erase({ &n, std::type_index(typeid(T)) }); }
        x = p;
        return true;
    }
};

// ---- variants
template<typename... Ts> struct Model<std::variant<Ts...>> {
    using V = std::variant<Ts...>;
    static void gen(Gen& g, V& x) { Nest nest(g); gen_(g, x, g.r.below(sizeof...(Ts)), std::index_sequence_for<Ts...>()); }
    static bool enc(Enc& e, const V& x, Node& o) {
        bool good = std::visit([&](auto& v) { return Model<std::decay_t<decltype(v)>>::enc(e, v, o); }, x);
        if (e.mode == CANON) { Node w = Node::obj(); w.add("?alt") = Node::num(std::to_string(x.index())); w.add("?value") = std::move(o); o = std::move(w); }
        return good;
    }
    static bool dec(Dec& d, const Node& n, V& x) {
        auto saved_path = d.path;
        if (dec_(d, n, x, std::index_sequence_for<Ts...>())) return true;
        d.path = saved_path;
        return d.fail("no alternative matches", n);
    }
private:
    template<std::size_t... I> static void gen_(Gen& g, V& x, std::size_t k, std::index_sequence<I...>) {
        ((k == I ? (void)Model<std::variant_alternative_t<I, V>>::gen(g, x.template emplace<I>()) : void()), ...);
    }
    template<std::size_t I> static bool dec1(Dec& d, const Node& n, V& x) {
        using A = std::variant_alternative_t<I, V>;
        A v{};
        auto before = d.refs;
        if (!Model<A>::dec(d, n, v)) {
            for (auto& e : d.refs) { auto it = before.find(e.first); if (it == before.end() || it->second != e.second) d.tainted.insert(e.first); }
            return false;
        }
        x.template emplace<I>(std::move(v));
        return true;
    }
    template<std::size_t... I> static bool dec_(Dec& d, const Node& n, V& x, std::index_sequence<I...>) { return (... || dec1<I>(d, n, x)); }
};

// ---- classes: T::visit(V&) enumerates (name, member, is_default)
template<typename T> struct is_opt : std::false_type {};
template<typename T> struct is_opt<std::optional<T>> : std::true_type {};
template<typename T> concept Visitable = requires(T& t) { typename T::visit_tag; };

struct GenVisitor { Gen& g; template<typename M> void field(const char*, M& m, bool) {
    if constexpr (is_opt<M>::value) { if (g.depth <= g.limit + 1 && g.r.chance(g.limit > 23 ? 98 : g.limit > 5 ? 90 : 60, 100)) { m.emplace(); Model<typename M::value_type>::gen(g, *m); } else m.reset(); }
    else Model<M>::gen(g, m);
} };
struct EncVisitor { Enc& e; Node& o; bool good = true; template<typename M> void field(const char* name, M& m, bool) {
    if (!good && e.mode == JSON) return;
    Seg s(e.path, escape_pointer(name));
    if constexpr (is_opt<M>::value) { if (m.has_value()) good = Model<typename M::value_type>::enc(e, *m, o.add(name)) && good; }
    else good = Model<M>::enc(e, m, o.add(name)) && good;
} };
struct DomVisitor { Dec& d; const Node& n; bool good = true; template<typename M> void field(const char* name, M& m, bool dflt) {
    if (!good) return;
    const Node* v = n.find(name);
    if constexpr (is_opt<M>::value) {
        if (!v) { m.reset(); return; }
        typename M::value_type x{};
        Seg s(d.path, escape_pointer(name));
        if (!Model<typename M::value_type>::dec(d, *v, x)) { good = false; return; }
        m = std::move(x);
    } else {
        if (!v) { if (!dflt) good = d.fail("missing member", n); return; }
        Seg s(d.path, escape_pointer(name));
        good = Model<M>::dec(d, *v, m);
    }
} };
struct ParseVisitor { Dec& d; const std::string& key; const Node& v; bool found = false, good = true; template<typename M> void field(const char* name, M& m, bool) {
    if (found || key != name) return;
    found = true;
    Seg s(d.path, escape_pointer(name));
    if constexpr (is_opt<M>::value) { m.emplace(); good = Model<typename M::value_type>::dec(d, v, *m); }
    else good = Model<M>::dec(d, v, m);
} };
struct MissingVisitor { const Node& n; bool missing = false; template<typename M> void field(const char* name, M&, bool dflt) {
    if (!is_opt<M>::value && !dflt && !n.find(name)) missing = true;
} };

template<typename T> struct Model<T, std::enable_if_t<Visitable<T>>> {
    static void gen(Gen& g, T& x) { Nest nest(g); GenVisitor v{ g }; x.visit(v); }
    static bool enc(Enc& e, const T& x, Node& o) { o = Node::obj(); EncVisitor v{ e, o }; const_cast<T&>(x).visit(v); return v.good; }
    static bool dec(Dec& d, const Node& n, T& x) {
        if (n.k != mj::Obj) return d.fail("not an object", n);
        if (d.mode == DOM) { DomVisitor v{ d, n }; x.visit(v); return v.good; }
        for (std::size_t i = 0; i < n.a.size(); ++i) {
            ParseVisitor v{ d, n.keys[i], n.a[i] };
            x.visit(v);
            if (!v.found) return d.fail("unknown member", n.kspan[i].first, n.kspan[i].second);
            if (!v.good) return false;
        }
        MissingVisitor m{ n };
        x.visit(m);
        if (m.missing) d.missing = true;   // known finding K1: parse accepts objects that lack required members
        return true;
    }
};

template<typename T> std::string canon(const T& x) { Enc e{ CANON }; Node n; Model<T>::enc(e, x, n); return mj::text(n); }
