// Independent miniature JSON reader and printer (shares no code with the library or RapidJSON).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <set>
#include <algorithm>

#include <locale.h>

/** Number conversions of the harness, whatever the locale of the process. */
inline locale_t c_locale() { static locale_t l = newlocale(LC_ALL_MASK, "C", nullptr); return l; }
inline double c_strtod(const char* s) { return strtod_l(s, nullptr, c_locale()); }
inline std::string c_format(const char* format, double d) {
    char b[64];
    std::snprintf(b, sizeof b, format, d);
    for (char* p = b; *p; ++p) if (*p == ',') *p = '.';
    return b;
}

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<class C> auto& pick(C& c) { return c[below(std::size(c))]; }
};
inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull)); return r.next(); }
inline std::uint64_t fnv(std::string_view t) { std::uint64_t h = 1469598103934665603ull; for (unsigned char c : t) { h ^= c; h *= 1099511628211ull; } return h; }

namespace mj {

enum Kind { Null, Bool, Num, Str, Arr, Obj };

struct Node {
    Kind k = Null;
    bool b = false;
    std::string s;                 // string content or number literal
    std::vector<Node> a;           // elements or member values
    std::vector<std::string> keys; // member names
    std::size_t beg = 0, end = 0;
    std::vector<std::pair<std::size_t, std::size_t>> kspan;

    static Node null() { return Node(); }
    static Node boolean(bool v) { Node n; n.k = Bool; n.b = v; return n; }
    static Node num(std::string lit) { Node n; n.k = Num; n.s = std::move(lit); return n; }
    static Node str(std::string v) { Node n; n.k = Str; n.s = std::move(v); return n; }
    static Node arr() { Node n; n.k = Arr; return n; }
    static Node obj() { Node n; n.k = Obj; return n; }
    Node& add(std::string key) { keys.push_back(std::move(key)); a.emplace_back(); return a.back(); }
    Node& add() { a.emplace_back(); return a.back(); }
    const Node* find(std::string_view key) const {
        for (std::size_t i = 0; i < keys.size(); ++i) if (keys[i] == key) return &a[i];
        return nullptr;
    }
};

inline bool is_int_lit(const std::string& s) { return s.find_first_of(".eE") == std::string::npos; }

struct Result {
    bool ok = false;
    std::size_t err = 0;      // where the text stops being JSON
    bool unspec = false;      // text on which no verdict is claimed
    bool over = false;        // has a number beyond the range of double
    bool dup = false;         // some object has duplicate keys
    Node root;
};

class Reader {
public:
    explicit Reader(const std::string& t) : t(t) {}
    Result read() {
        Result r;
        if (t.find('\0') != std::string::npos) nul = true;
        bool good = value(r.root, 0);
        if (good) {
            ws();
            if (p != t.size()) { good = false; }
        }
        r.ok = good;
        r.err = p;
        r.unspec = unspec;
        r.over = over;
        r.dup = dup;
        return r;
    }
private:
    const std::string& t;
    std::size_t p = 0;
    bool unspec = false, dup = false, nul = false, over = false;

    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\n' || t[p] == '\r' || t[p] == '\t')) ++p; }
    bool lit(const char* w) {
        for (; *w; ++w, ++p) if (p >= t.size() || t[p] != *w) return false;
        return true;
    }
    bool value(Node& n, int depth) {
        if (depth > 3000) { unspec = true; return false; }
        ws();
        if (p >= t.size()) return false;
        n.beg = p;
        bool good = false;
        switch (t[p]) {
            case 'n': n.k = Null; good = lit("null"); break;
            case 't': n.k = Bool; n.b = true; good = lit("true"); break;
            case 'f': n.k = Bool; n.b = false; good = lit("false"); break;
            case '"': n.k = Str; good = string(n.s); break;
            case '[': n.k = Arr; good = array(n, depth); break;
            case '{': n.k = Obj; good = object(n, depth); break;
            default: n.k = Num; good = number(n.s); break;
        }
        n.end = p;
        return good;
    }
    bool dig() const { return p < t.size() && t[p] >= '0' && t[p] <= '9'; }
    bool number(std::string& out) {
        std::size_t b = p;
        if (p < t.size() && t[p] == '-') ++p;
        if (!dig()) return false;
        bool zero = true;
        if (t[p] == '0') ++p;
        else { while (dig()) ++p; zero = false; }
        if (p < t.size() && t[p] == '.') {
            ++p;
            if (!dig()) return false;
            while (dig()) { if (t[p] != '0') zero = false; ++p; }
        }
        bool exp = false;
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
            exp = true;
            ++p;
            if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
            if (!dig()) return false;
            while (dig()) ++p;
        }
        out.assign(t, b, p - b);
        if (zero && exp) unspec = true;   // RapidJSON's treatment of 0e999 is not a claim of ours
        if (out.size() > 700) unspec = true;
        double d = c_strtod(out.c_str());
        if (d > 1.7976931348623157e308 || d < -1.7976931348623157e308) over = true;
        return true;
    }
public:
    static void utf8(std::string& o, unsigned cp) {
        if (cp < 0x80) o += char(cp);
        else if (cp < 0x800) { o += char(0xC0 | cp >> 6); o += char(0x80 | (cp & 63)); }
        else if (cp < 0x10000) { o += char(0xE0 | cp >> 12); o += char(0x80 | (cp >> 6 & 63)); o += char(0x80 | (cp & 63)); }
        else { o += char(0xF0 | cp >> 18); o += char(0x80 | (cp >> 12 & 63)); o += char(0x80 | (cp >> 6 & 63)); o += char(0x80 | (cp & 63)); }
    }
    bool hex4(unsigned& v) {
        v = 0;
        for (int i = 0; i < 4; ++i, ++p) {
            if (p >= t.size()) return false;
            char c = t[p];
            v <<= 4;
            if (c >= '0' && c <= '9') v |= unsigned(c - '0');
            else if (c >= 'a' && c <= 'f') v |= unsigned(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') v |= unsigned(c - 'A' + 10);
            else return false;
        }
        return true;
    }
    bool string(std::string& out) {
        ++p;
        for (;;) {
            if (p >= t.size()) return false;
            unsigned char c = (unsigned char)t[p];
            if (c == '"') { ++p; return true; }
            if (c < 0x20) return false;
            if (c != '\\') { out += char(c); ++p; continue; }
            ++p;
            if (p >= t.size()) return false;
            switch (t[p]) {
                case '"': out += '"'; ++p; break;
                case '\\': out += '\\'; ++p; break;
                case '/': out += '/'; ++p; break;
                case 'b': out += '\b'; ++p; break;
                case 'f': out += '\f'; ++p; break;
                case 'n': out += '\n'; ++p; break;
                case 'r': out += '\r'; ++p; break;
                case 't': out += '\t'; ++p; break;
                case 'u': {
                    ++p;
                    unsigned v;
                    if (!hex4(v)) return false;
                    if (v >= 0xDC00 && v <= 0xDFFF) unspec = true; // lone low surrogate
                    if (v >= 0xD800 && v <= 0xDBFF) {
                        if (p + 1 >= t.size() || t[p] != '\\' || t[p + 1] != 'u') return false;
                        p += 2;
                        unsigned w;
                        if (!hex4(w)) return false;
                        if (w < 0xDC00 || w > 0xDFFF) return false;
                        v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                    }
                    utf8(out, v);
                    break;
                }
                default: return false;
            }
        }
    }
    bool array(Node& n, int depth) {
        ++p;
        ws();
        if (p < t.size() && t[p] == ']') { ++p; return true; }
        for (;;) {
            n.a.emplace_back();
            if (!value(n.a.back(), depth + 1)) return false;
            ws();
            if (p >= t.size()) return false;
            if (t[p] == ',') { ++p; continue; }
            if (t[p] == ']') { ++p; return true; }
            return false;
        }
    }
    bool object(Node& n, int depth) {
        ++p;
        ws();
        if (p < t.size() && t[p] == '}') { ++p; return true; }
        for (;;) {
            ws();
            if (p >= t.size() || t[p] != '"') return false;
            std::string key;
            std::size_t kb = p;
            if (!string(key)) return false;
            std::size_t ke = p;
            ws();
            if (p >= t.size() || t[p] != ':') return false;
            ++p;
            n.kspan.emplace_back(kb, ke);
            n.keys.push_back(std::move(key));
            n.a.emplace_back();
            if (!value(n.a.back(), depth + 1)) return false;
            ws();
            if (p >= t.size()) return false;
            if (t[p] == ',') { ++p; continue; }
            if (t[p] == '}') {
                ++p;
                if (n.keys.size() > 1) {
                    std::set<std::string_view> seen;
                    for (auto& k : n.keys) if (!seen.insert(k).second) dup = true;
                }
                return true;
            }
            return false;
        }
    }
};

inline Result read(const std::string& t) { return Reader(t).read(); }

inline bool same_bits(double x, double y) { return std::memcmp(&x, &y, sizeof x) == 0; }

/** True if `actual` denotes exactly the JSON that `expected` describes. */
inline bool same(const Node& expected, const Node& actual, std::string& why, const std::string& path = "") {
    if (expected.k != actual.k) { why = "kind differs at '" + path + "'"; return false; }
    switch (expected.k) {
        case Null: return true;
        case Bool: if (expected.b != actual.b) { why = "boolean differs at '" + path + "'"; return false; } return true;
        case Str: if (expected.s != actual.s) { why = "string differs at '" + path + "'"; return false; } return true;
        case Num:
            if (is_int_lit(expected.s)) {
                if (expected.s != actual.s) { why = "integer " + expected.s + " written as " + actual.s + " at '" + path + "'"; return false; }
            } else if (!same_bits(c_strtod(expected.s.c_str()), c_strtod(actual.s.c_str()))) {
                why = "number " + expected.s + " written as " + actual.s + " at '" + path + "'"; return false;
            }
            return true;
        case Arr:
            if (expected.a.size() != actual.a.size()) { why = "array size differs at '" + path + "'"; return false; }
            for (std::size_t i = 0; i < expected.a.size(); ++i)
                if (!same(expected.a[i], actual.a[i], why, path.size() < 300 ? path + "/" + std::to_string(i) : path)) return false;
            return true;
        case Obj:
            if (expected.keys != actual.keys) { why = "object keys differ at '" + path + "'"; return false; }
            for (std::size_t i = 0; i < expected.a.size(); ++i)
                if (!same(expected.a[i], actual.a[i], why, path.size() < 300 ? path + "/" + expected.keys[i] : path)) return false;
            return true;
    }
    return false;
}

struct Style {
    Rng* r = nullptr;     // null: compact canonical form
    bool space = false;   // random insignificant whitespace
    bool escape = false;  // random equivalent escapes
    bool shuffle = false; // random member order
};

inline void put_string(std::string& o, const std::string& s, const Style& st) {
    static const char* H[2] = { "0123456789abcdef", "0123456789ABCDEF" };
    auto u = [&](unsigned v) {
        const char* h = H[st.r ? st.r->below(2) : 0];
        o += "\\u"; o += h[v >> 12 & 15]; o += h[v >> 8 & 15]; o += h[v >> 4 & 15]; o += h[v & 15];
    };
    o += '"';
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = (unsigned char)s[i];
        bool esc = st.escape && st.r && st.r->chance(1, 3);
        if (c < 0x80) {
            ++i;
            const char* sh = nullptr;
            switch (c) {
                case '"': sh = "\\\""; break; case '\\': sh = "\\\\"; break; case '/': sh = "\\/"; break;
                case '\b': sh = "\\b"; break; case '\f': sh = "\\f"; break; case '\n': sh = "\\n"; break;
                case '\r': sh = "\\r"; break; case '\t': sh = "\\t"; break;
            }
            if (c == '/' && !esc) { o += '/'; continue; }
            if (sh && !(esc && st.r->chance(1, 2))) { o += sh; continue; }
            if (c < 0x20 || sh || esc) { u(c); continue; }
            o += char(c);
            continue;
        }
        int len = c >= 0xF0 && c < 0xF8 ? 4 : c >= 0xE0 ? 3 : c >= 0xC2 ? 2 : 1;
        unsigned cp = len == 4 ? c & 7 : len == 3 ? c & 15 : c & 31;
        bool valid = len > 1 && c < 0xF8 && i + len <= s.size();
        for (int j = 1; valid && j < len; ++j) { unsigned char d = (unsigned char)s[i + j]; if ((d & 0xC0) != 0x80) valid = false; else cp = cp << 6 | (d & 63); }
        if (valid && ((cp >= 0xD800 && cp <= 0xDFFF) || cp > 0x10FFFF || (len == 3 && cp < 0x800) || (len == 4 && cp < 0x10000))) valid = false;
        if (!valid) { o += char(c); ++i; continue; }
        if (esc) {
            if (cp < 0x10000) u(cp);
            else { unsigned v = cp - 0x10000; u(0xD800 + (v >> 10)); u(0xDC00 + (v & 0x3FF)); }
        } else o.append(s, i, len);
        i += len;
    }
    o += '"';
}

inline void put_ws(std::string& o, const Style& st) {
    if (!st.space || !st.r) return;
    while (st.r->chance(1, 3)) o += " \n\r\t"[st.r->below(4)];
}

inline void print(std::string& o, const Node& n, const Style& st) {
    put_ws(o, st);
    switch (n.k) {
        case Null: o += "null"; break;
        case Bool: o += n.b ? "true" : "false"; break;
        case Num: o += n.s; break;
        case Str: put_string(o, n.s, st); break;
        case Arr:
            o += '[';
            for (std::size_t i = 0; i < n.a.size(); ++i) { if (i) o += ','; print(o, n.a[i], st); }
            if (n.a.empty()) put_ws(o, st);
            o += ']';
            break;
        case Obj: {
            std::vector<std::size_t> ix(n.a.size());
            for (std::size_t i = 0; i < ix.size(); ++i) ix[i] = i;
            if (st.shuffle && st.r) for (std::size_t i = ix.size(); i > 1; --i) std::swap(ix[i - 1], ix[st.r->below(i)]);
            o += '{';
            bool first = true;
            for (auto i : ix) {
                if (!first) o += ',';
                first = false;
                put_ws(o, st);
                put_string(o, n.keys[i], st);
                put_ws(o, st);
                o += ':';
                print(o, n.a[i], st);
            }
            if (n.a.empty()) put_ws(o, st);
            o += '}';
            break;
        }
    }
    put_ws(o, st);
}
inline std::string text(const Node& n, Style st = {}) { std::string o; print(o, n, st); return o; }

} // namespace mj
