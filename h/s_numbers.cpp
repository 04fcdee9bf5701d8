// C07: exhaustive and dense sweeps over number values and literals.
#include "mon.hpp"
#include "types.hpp"
namespace P = persistence;

struct NumM { int pad = 0; };
template<typename T> struct Holder {
    T value{};
    std::string after;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(value) & MEMBER_VARIABLE(after); }
};

template<typename T> static std::string num_text(T v) {
    if constexpr (std::is_floating_point_v<T>) return c_format("%.17g", double(v)); else return std::to_string((long long)v);
}
template<typename T> static bool bits_eq(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof a) == 0; }

/** The literal must be read as `want`, or be rejected, by every path and position. */
template<typename T> static void literal(const char* type, const std::string& lit, bool accept, T want) {
    // K5: with this many digits before the point RapidJSON refuses a literal whatever its exponent
    auto first = lit.find_first_not_of('-'), last = std::min(lit.find_first_of(".eE"), lit.size());
    bool may_refuse = std::is_floating_point_v<T> && last - first >= 308 && lit.find("-", 1) != std::string::npos;
    auto judge = [&](const char* op, bool ok, const T& got) {
        if (may_refuse && accept && !ok) return;
        if (ok != accept) mon.fail(std::string(type) + "|" + op + "|outcome", std::string(op) + "<" + type + ">: " + (ok ? "accepts " : "rejects ") + lit);
        else if (ok && !bits_eq(got, want)) mon.fail(std::string(type) + "|" + op + "|value", std::string(op) + "<" + type + ">: " + lit + " read as " + num_text(got));
    };
    mon.doing(type, lit);
    try {
        { T v = T(1); bool ok = P::parse(lit, v); judge("parse", ok, v); }
        { T v = T(1); bool ok = P::deserialize(lit, v); judge("deserialize", ok, v); }
        { std::vector<T> v; bool ok = P::parse("[" + lit + "]", v); judge("parse vector", ok, ok && v.size() == 1 ? v[0] : T(1)); }
        { std::vector<T> v; bool ok = P::deserialize("[" + lit + "]", v); judge("deserialize vector", ok, ok && v.size() == 1 ? v[0] : T(1)); }
        { Holder<T> h; bool ok = P::parse("{\"value\":" + lit + ",\"after\":\"x\"}", h); judge("parse member", ok, h.value); }
        { Holder<T> h; bool ok = P::deserialize("{\"value\":" + lit + ",\"after\":\"x\"}", h); judge("deserialize member", ok, h.value); }
        { std::map<std::string, T> m; bool ok = P::parse("{\"k\":" + lit + "}", m); judge("parse dictionary", ok, ok ? m["k"] : T(1)); }
        { std::pair<T, T> p{}; bool ok = P::deserialize("[0," + lit + "]", p); judge("deserialize pair", ok, p.second); }
    } catch (const std::exception& e) { mon.fail(std::string(type) + "|exception", std::string(type) + " " + lit + ": " + e.what()); }
    mon.count("literals");
    mon.saw(fnv(type + lit), true);
}
/** The value must be written as a literal that denotes it, and survive all paths. */
template<typename T> static void value(const char* type, T v) {
    try {
        std::string w = P::write_to_string(v);
        rapidjson::Document d = P::serialize_to_document(v);
        std::string s = P::document_to_string(d);
        bool right;
        if constexpr (std::is_integral_v<T>) right = w == std::to_string(v) && s == w;
        else right = bits_eq(T(c_strtod(w.c_str())), v) && bits_eq(T(c_strtod(s.c_str())), v);
        if (!right) mon.fail(std::string(type) + "|written", std::string(type) + " " + num_text(v) + " written as " + w + ", serialized as " + s);
        T a = T(1), b = T(1), c = T(1);
        bool pa = P::parse(w, a), pb = P::deserialize(w, b), pc = P::deserialize(d, c);
        if (!pa || !bits_eq(a, v)) mon.fail(std::string(type) + "|parse round trip", std::string(type) + " " + w + (pa ? " read as " + num_text(a) : " rejected"));
        if (!pb || !bits_eq(b, v)) mon.fail(std::string(type) + "|deserialize round trip", std::string(type) + " " + w + (pb ? " read as " + num_text(b) : " rejected"));
        if (!pc || !bits_eq(c, v)) mon.fail(std::string(type) + "|document round trip", std::string(type) + " " + w + (pc ? " read as " + num_text(c) : " rejected"));
    } catch (const std::exception& e) { mon.fail(std::string(type) + "|exception", std::string(type) + " " + num_text(v) + ": " + e.what()); }
    mon.count("values");
    mon.saw(fnv(type + num_text(v)), true);
}
template<typename T> static void integer(const char* type, i128 x) {
    bool in = x >= i128(std::numeric_limits<T>::min()) && x <= i128(std::numeric_limits<T>::max());
    literal<T>(type, i128_to_lit(x), in, in ? T(x) : T(0));
    if (in && std::uint64_t(x) % 7 == mon.seed % 7) value<T>(type, T(x));
}
template<typename T> static void small(const char* type) {
    i128 lo = i128(std::numeric_limits<T>::min()) - 300, hi = i128(std::numeric_limits<T>::max()) + 300;
    for (i128 x = lo; x <= hi; ++x) {
        if (std::uint64_t(x - lo) % mon.shards != mon.shard) continue;
        integer<T>(type, x);
        if (x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max()) value<T>(type, T(x));
        if (mon.enough()) return;
    }
    mon.count("exhaustive_integer_types");
}
template<typename T> static void large(const char* type) {
    std::uint64_t n = 0;
    for (int k = 0; k <= 66; ++k) for (int sign = -1; sign <= 1; sign += 2) for (int d = -20; d <= 20; ++d)
        if (n++ % mon.shards == mon.shard) integer<T>(type, i128(sign) * (i128(1) << k) + d);
    // integral values in other notations are not integers
    for (const char* s : { "1.0", "1e0", "10E-1", "0.0", "-1.0", "1e2", "0e0", "1.5" }) if (n++ % mon.shards == mon.shard) literal<T>(type, s, false, T(0));
}
static bool float_once(std::uint32_t b) {
    float f;
    std::memcpy(&f, &b, 4);
    if (!std::isfinite(f)) {
        std::string s;
        rapidjson::Document d;
        if (P::write_to_string(f, s) || P::serialize_to_document(f, d)) { mon.fail("float|non-finite", "a non-finite float is written"); return false; }
        return true;
    }
    std::string w = P::write_to_string(f);
    float g = 1, h = 1;
    if (!P::parse(w, g) || !bits_eq(f, g) || !P::deserialize(w, h) || !bits_eq(f, h)) { mon.fail("float|round trip", "float " + num_text(f) + " written as " + w + " read as " + num_text(g) + " and " + num_text(h)); return false; }
    return true;
}
static void real_literal(const std::string& s) {
    double d = c_strtod(s.c_str());
    bool fin = std::isfinite(d);
    literal<double>("double", s, fin, d);
    bool ff = fin && d >= -double(FLT_MAX) && d <= double(FLT_MAX);
    literal<float>("float", s, ff, ff ? float(d) : 0.0f);
}

void probe_known() {
    std::string lit = "1" + std::string(310, '0') + "e-310";
    double a = 0, b = 0;
    if (!P::parse(lit, a) || !P::deserialize(lit, b)) mon.known("K5", "the literal 1 followed by 310 zeros and e-310, which denotes 1, is refused for double");
}

void special(Rng& r) {
    if (mon.only >= 0) return;
    bool thorough = mon.tier == "thorough";
    small<char>("char"); small<signed char>("signed char"); small<unsigned char>("unsigned char"); small<short>("short"); small<unsigned short>("unsigned short");
    large<int>("int"); large<unsigned>("unsigned"); large<long>("long"); large<unsigned long>("unsigned long"); large<long long>("long long"); large<unsigned long long>("unsigned long long");
    for (std::uint64_t n = 0, m = thorough ? 4000000 : 60000; n < m / mon.shards * 8 / 8 && !mon.enough(); ++n) {
        std::uint64_t b = r.next();
        if (r.chance(1, 4)) b &= 0x800fffffffffffffull | r.next() % 3 << 52;             // near zero
        if (r.chance(1, 4)) b = (b & 0x800fffffffffffffull) | (1021 + r.next() % 70) << 52; // around integers
        if (r.chance(1, 8)) b |= 0x7fc0000000000000ull & ~(1ull << 52 << r.below(11));
        if (r.chance(1, 4)) { double q = double(r.next() % 1000000) / double(1 + r.next() % 1000); std::memcpy(&b, &q, 8); } // short decimals
        double d;
        std::memcpy(&d, &b, 8);
        if (std::isfinite(d)) value<double>("double", d);
        float f = float(d);
        if (std::isfinite(f)) value<float>("float", f);
        if (r.chance(1, 3)) { // literals with many or few digits, any exponent within range
            std::string s = r.chance(1, 2) ? "-" : "";
            auto digits = 1 + r.below(r.chance(1, 10) ? 60 : 22);
            s += char('1' + r.below(9));
            s += '.';
            while (digits--) s += char('0' + r.below(10));
            s += "e" + std::to_string(int(r.below(r.chance(1, 2) ? 60 : 660)) - int(r.below(350)));
            real_literal(s);
        }
        if (n % 4 == 0) { // long literals, plain or with an exponent that makes up for their length, exponents in all spellings
            std::string s = r.chance(1, 2) ? "-" : "";
            unsigned shape = unsigned(r.below(4)), len = 21 + unsigned(r.below(r.chance(1, 2) ? 340 : 60));
            auto digits = [&](unsigned k) { std::string o; bool zeros = r.chance(1, 2); while (k--) o += zeros && !r.chance(1, 40) ? '0' : char('0' + r.below(10)); return o; };
            long power = 0;
            if (shape == 0) { s += char('1' + r.below(9)); s += digits(len); power = -long(len); }
            else if (shape == 1) { s += char('1' + r.below(9)); s += digits(len) + "." + digits(1 + unsigned(r.below(20))); power = -long(len); }
            else if (shape == 2) { s += "0." + std::string(len, '0'); s += char('1' + r.below(9)); s += digits(unsigned(r.below(30))); power = long(len); }
            else { s += char('1' + r.below(9)); s += "." + digits(len); }
            if (r.chance(1, 2)) {
                power += r.chance(1, 2) ? long(r.below(20)) - 10 : long(r.below(700)) - 350;
                s += r.chance(1, 2) ? "e" : "E";
                s += power < 0 ? "-" : r.chance(1, 2) ? "+" : "";
                s += std::string(r.below(4) * r.below(2), '0') + std::to_string(power < 0 ? -power : power);
            }
            real_literal(s);
            mon.count("long literals");
        }
    }
    std::uint64_t step = thorough ? mon.shards : 4801 * mon.shards;
    for (std::uint64_t b = mon.shard + (thorough ? 0 : mon.seed * 8191 % 4801 * mon.shards); b < (1ull << 32) && !mon.enough(); b += step) {
        if ((b & 0xfff) == 0) { mon.doing("float bits", std::to_string(b)); if (mon.late()) { mon.count("stopped_by_time_limit"); break; } }
        if (!float_once(std::uint32_t(b))) break;
        mon.count("float_bit_patterns");
    }
    mon.evaluations += mon.counts["float_bit_patterns"];
}
