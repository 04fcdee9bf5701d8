// C12: dates and timestamps against an independent calendar; whole calendar, all characters at all places, several time zones.
#include "positions.hpp"
#include <cstdlib>
#include <ctime>
namespace P = persistence;

static std::string two(unsigned v) { char b[8]; std::snprintf(b, 8, "%02u", v); return b; }
static std::string four(unsigned v) { char b[8]; std::snprintf(b, 8, "%04u", v); return b; }
static ymd_t make_ymd(int y, unsigned m, unsigned d) { return ymd_t(std::chrono::year(y), std::chrono::month(m), std::chrono::day(d)); }
// The helpers behind the operations are judged where they exist with this signature.
struct Helpers {
    template<typename T> static bool datetime(const std::string& s, T& u, bool& r) { if constexpr (requires { bool(P::parse_datetime(s.data(), s.size(), u)); }) { r = P::parse_datetime(s.data(), s.size(), u); return true; } else return false; }
    template<typename T> static bool day_start(const std::string& s, T& u, bool& r) { if constexpr (requires { bool(P::parse_date(s.data(), s.size(), u)); }) { r = P::parse_date(s.data(), s.size(), u); return true; } else return false; }
    template<typename U> static bool parts(const std::string& s, U& y, U& m, U& d, bool& r) { if constexpr (requires { bool(P::parse_date(s.data(), s.size(), y, m, d)); }) { r = P::parse_date(s.data(), s.size(), y, m, d); return true; } else return false; }
    template<typename T> static bool iso(const T& x, std::string& a, std::string& b) { if constexpr (requires { std::string(P::to_iso_datetime(x).text); std::string(P::to_iso_date(x).text); }) { a = P::to_iso_datetime(x).text; b = P::to_iso_date(x).text; return true; } else return false; }
    template<typename U> static bool make(U y, U m, U d, U h, U mi, U s, stamp_t& out) { if constexpr (requires { out = P::make_datetime(y, m, d, h, mi, s); }) { out = P::make_datetime(y, m, d, h, mi, s); return true; } else return false; }
    template<typename U> static bool valid(U y, U m, U d, bool& r) { if constexpr (requires { bool(P::is_valid_date(y, m, d)); }) { r = P::is_valid_date(y, m, d); return true; } else return false; }
};
static std::string jquote(const std::string& s) { std::string o; mj::put_string(o, s, mj::Style{}); return o; }

/** Cheap check of one date in the root position. */
static void date(int y, unsigned m, unsigned d, bool exists) {
    std::string s = four(unsigned(y)) + "-" + two(m) + "-" + two(d), lit = "\"" + s + "\"";
    ymd_t x = make_ymd(y, m, d), a{}, b{};
    bool pa = P::parse(lit, a), pb = P::deserialize(lit, b);
    if (pa != exists || pb != exists) mon.fail("date|outcome", s + (exists ? " exists but is rejected" : " does not exist but is accepted") + (pa != exists ? " by parse" : " by deserialize"));
    else if (exists && (a != x || b != x)) mon.fail("date|value", s + " is read as another date");
    std::string w = "?";
    rapidjson::Document doc;
    bool wa = P::write_to_string(x, w), wb = P::serialize_to_document(x, doc);
    if (wa != exists || wb != exists) mon.fail("date|write outcome", s + (exists ? " cannot be written" : " does not exist but is written as " + w));
    else if (exists && (w != lit || P::document_to_string(doc) != lit)) mon.fail("date|written", s + " is written as " + w + " and serialized as " + P::document_to_string(doc));
    bool valid = exists;
    if (Helpers::valid(unsigned(y), m, d, valid) && valid != exists) mon.fail("is_valid_date", "is_valid_date is wrong on " + s);
    mon.count(exists ? "dates" : "dates_that_do_not_exist");
    mon.saw(fnv(s), true);
}
static void stamp(std::int64_t t) {
    std::string s = stamp_text(t), lit = "\"" + s + "\"";
    stamp_t x = make_stamp(t), a{}, b{};
    std::string w = "?";
    rapidjson::Document doc;
    if (!P::write_to_string(x, w) || w != lit) mon.fail("stamp|written", std::to_string(t) + " s is written as " + w + ", expected " + lit);
    if (!P::serialize_to_document(x, doc) || P::document_to_string(doc) != lit) mon.fail("stamp|serialized", std::to_string(t) + " s is serialized as " + P::document_to_string(doc) + ", expected " + lit);
    if (!P::parse(lit, a) || a != x) mon.fail("stamp|parse", lit + " is rejected by parse or read as another instant");
    if (!P::deserialize(lit, b) || b != x) mon.fail("stamp|deserialize", lit + " is rejected by deserialize or read as another instant");
    std::string iso = s, day = s.substr(0, 10);
    Helpers::iso(x, iso, day);
    stamp_t made = x;
    auto field = [&](std::size_t at, std::size_t n) { unsigned v = 0; for (std::size_t i = at; i < at + n; ++i) v = v * 10 + unsigned(s[i] - '0'); return v; };
    Helpers::make(field(0, 4), field(5, 2), field(8, 2), field(11, 2), field(14, 2), field(17, 2), made);
    if (made != x) mon.fail("make_datetime", "make_datetime gives another instant than " + s);
    if (iso != s || day != s.substr(0, 10)) mon.fail("stamp|to_iso", s + ": to_iso_datetime gives " + iso + ", to_iso_date gives " + day);
    mon.count("instants");
    mon.saw(std::uint64_t(t) * 3 + 1, true);
}
/** Any string, as a date and as a timestamp, in all positions or few. */
static void text(const std::string& s, bool few) {
    mon.doing("date text", s);
    std::string lit = jquote(s);
    unsigned y = 0, m = 0, d = 0;
    bool dok = date_ref(s, y, m, d);
    ymd_t dwant = dok ? make_ymd(int(y), m, d) : ymd_t{};
    read_everywhere<ymd_t>(lit, [&](const char* op, bool got, const ymd_t* v, bool shape) {
        if (got != dok) mon.fail(std::string("date ") + op + "|outcome", std::string(op) + (got ? " accepts " : " rejects ") + show(s) + " as a date");
        else if (dok && (!shape || *v != dwant)) mon.fail(std::string("date ") + op + "|value", std::string(op) + " reads " + show(s) + " as another date");
    }, few);
    std::int64_t t = 0;
    bool sok = stamp_ref(s, t);
    stamp_t swant = sok ? make_stamp(t) : stamp_t{};
    read_everywhere<stamp_t>(lit, [&](const char* op, bool got, const stamp_t* v, bool shape) {
        if (got != sok) mon.fail(std::string("stamp ") + op + "|outcome", std::string(op) + (got ? " accepts " : " rejects ") + show(s) + " as a timestamp");
        else if (sok && (!shape || *v != swant)) mon.fail(std::string("stamp ") + op + "|value", std::string(op) + " reads " + show(s) + " as another instant");
    }, few);
    // the helpers behind them
    stamp_t u{};
    bool h = false;
    if (Helpers::datetime(s, u, h) && (h != sok || (sok && u != swant))) mon.fail("parse_datetime", "parse_datetime is wrong on " + show(s));
    unsigned yy = 0, mm = 0, dd = 0;
    if (Helpers::parts(s, yy, mm, dd, h) && (h != dok || (dok && (yy != y || mm != m || dd != d)))) mon.fail("parse_date", "parse_date is wrong on " + show(s));
    std::int64_t midnight = dok ? days_from_civil(y, m, d) * 86400 : 0;
    bool mok = dok && midnight >= stamp_min() && midnight <= stamp_max();
    u = stamp_t{};
    if (Helpers::day_start(s, u, h) && (h != mok || (mok && u != make_stamp(midnight)))) mon.fail("parse_date to timestamp", "parse_date gives a wrong instant for " + show(s));
    mon.count(dok ? "texts_that_are_dates" : sok ? "texts_that_are_timestamps" : "texts_rejected");
    mon.saw(fnv("t" + s), s.size() > 4);
}
static void zone(const char* tz) { if (*tz) setenv("TZ", tz, 1); else unsetenv("TZ"); tzset(); }

void special(Rng& r) {
    if (mon.only >= 0) return;
    bool thorough = mon.tier == "thorough";
    const std::uint64_t S = mon.shards, K = mon.shard;
    static const char* zones[] = { "", "UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "AAA+23:59", "BBB-14CCC,M3.2.0,M11.1.0", "XYZ12" };
    zone(zones[(K + mon.seed) % std::size(zones)]);
    // the whole calendar
    for (unsigned y = K; y < 10000 && !mon.enough(); y += S) {
        mon.doing("calendar year", std::to_string(y));
        for (unsigned m = 0; m <= 13; ++m) for (unsigned d = 0; d <= 32; ++d) {
            bool interesting = m >= 1 && m <= 12 && d >= 1 && d <= month_days(y, m);
            if (!interesting && m != 2 && (y + m + d) % 7 && !thorough) continue;
            date(int(y), m, d, interesting);
        }
    }
    mon.count("calendar_complete");
    // years that have no four-digit form must not be written
    for (int y : { -1, -4, -100, -9999, 10000, 10004, 20000, 32767, -32767 }) {
        std::string w = "?";
        rapidjson::Document doc;
        ymd_t x = make_ymd(y, 2, 1 + unsigned(r.below(28)));
        if (P::write_to_string(x, w) && mj::read(w).ok) { unsigned a, b, c; std::string s = mj::read(w).root.s; if (date_ref(s, a, b, c)) mon.fail("date|year range", "year " + std::to_string(y) + " is written as " + w); }
        if (P::serialize_to_document(x, doc)) { unsigned a, b, c; if (doc.IsString() && date_ref(std::string(doc.GetString(), doc.GetStringLength()), a, b, c)) mon.fail("date|year range", "year " + std::to_string(y) + " is serialized as " + doc.GetString()); }
        mon.count("years_out_of_range");
    }
    // every instant around midnight, month, year and epoch boundaries; seconds spread over the whole range
    std::uint64_t n = 0;
    for (std::int64_t y = 1678; y <= 2261; ++y) for (unsigned m = 1; m <= 12; ++m) for (unsigned d : { 1u, 28u, month_days(y, m) }) {
        if (n++ % S != K) continue;
        std::int64_t day = days_from_civil(y, m, d) * 86400;
        zone(zones[(n + K) % std::size(zones)]);
        for (std::int64_t o : { -1, 0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399 }) stamp(day + o);
        stamp(day + std::int64_t(r.below(86400)));
        if (mon.enough()) return;
    }
    for (std::int64_t t = -100000 + std::int64_t(K); t <= 100000; t += std::int64_t(S)) stamp(t);
    for (std::int64_t t = 951782400 - 86400 * 2 + std::int64_t(K); t <= 951782400 + 86400 * 2; t += std::int64_t(S)) stamp(t); // around 29 February 2000
    for (std::int64_t o = std::int64_t(K); o < 4000; o += std::int64_t(S)) { stamp(stamp_min() + o); stamp(stamp_max() - o); }
    std::uint64_t many = thorough ? 40000000 : 400000, span = std::uint64_t(stamp_max() - stamp_min());
    for (std::uint64_t k = 0; k < many / S && !mon.enough(); ++k) {
        stamp(stamp_min() + std::int64_t(r.next() % span));
        if (k % 1024 == 0) { zone(zones[r.below(std::size(zones))]); if (mon.late()) break; }
    }
    // sub-second instants are outside the claim; texts: every character at every place
    for (const char* base : { "1982-10-23", "2024-02-29", "0000-01-01", "9999-12-31", "1982-10-23T01:23:45Z", "2024-02-29T23:59:59Z", "2000-12-31 00:00:00Z", "1969-12-31T23:59:59Z", "2262-04-11T23:47:16Z", "1677-09-21T00:12:44Z" }) {
        std::string b = base;
        for (std::size_t at = 0; at < b.size(); ++at) for (unsigned c = 0; c < 128; ++c) {
            if ((at * 128 + c) % S != K) continue;
            std::string s = b; s[at] = char(c);
            text(s, (at * 128 + c) / S % (thorough ? 1 : 5) != 0);
        }
        for (std::size_t at = 0; at <= b.size(); ++at) if (at % S == K) {
            std::string s = b; s.insert(at, 1, '0'); text(s, false);
            s = b.substr(0, at); text(s, false);
            s = b; if (at < b.size()) { s.erase(at, 1); text(s, true); }
            s = b + b.substr(0, at); text(s, true);
            s = b; s.insert(at, 1, '\0'); text(s, true); s = b; s.insert(at, 1, ' '); text(s, true);
        }
        if (mon.enough()) return;
    }
    // all two-digit values of each field, alone and with the neighbouring ones at their limits
    n = 0;
    for (const char* day : { "2023-02-28", "2024-12-31" }) for (int field = 0; field < 5; ++field) for (unsigned v = 0; v < 100; ++v) {
        if (n++ % S != K) continue;
        std::string s = std::string(day) + "T23:59:59Z";
        static const std::size_t pos[] = { 5, 8, 11, 14, 17 };
        s.replace(pos[field], 2, two(v));
        text(s, false); text(s.substr(0, 10), true);
        s = std::string(day) + "T00:00:00Z"; s.replace(pos[field], 2, two(v)); text(s, true);
    }
    for (unsigned y = K; y < 10000; y += S * (thorough ? 1 : 3)) { text(four(y) + "-02-29T12:00:00Z", true); text(four(y) + "-03-01 00:00:00Z", true); text(four(y) + "-09-21", true); if (mon.enough()) return; }
    // seconds just outside what the clock can represent
    for (int o = 1; o <= 4000; o += int(S)) for (int side = -1; side <= 1; side += 2) {
        std::int64_t t = side < 0 ? stamp_min() - o - int(K) : stamp_max() + o + int(K);
        std::int64_t y; unsigned m, d;
        std::int64_t dn = t >= 0 ? t / 86400 : -((-t + 86399) / 86400), sec = t - dn * 86400;
        civil_from_days(dn, y, m, d);
        text(four(unsigned(y)) + "-" + two(m) + "-" + two(d) + "T" + two(unsigned(sec / 3600)) + ":" + two(unsigned(sec / 60 % 60)) + ":" + two(unsigned(sec % 60)) + "Z", true);
    }
    for (const char* s : { "", " ", "T", "Z", "1982-10-23T01:23:45", "1982-10-23T01:23:45z", "1982-10-23t01:23:45Z", "1982-10-23T01:23:45+00:00", "1982-10-23T01:23:45.000Z", "19821023T012345Z", "+982-10-23", "-982-10-23", "1982-1-23", "1982-10-3", " 982-10-23", "1982/10/23", "1982-10-23 ", "1982-10-23T24:00:00Z", "1982-10-23T23:60:00Z", "1982-10-23T23:59:60Z", "82-10-23", "1982-W43-6", "1982-296", "٢٠٢٤-01-01", "0x82-10-23", "1e82-10-23", "1982-+1-23", "1982-10-+3" }) text(s, false);
    // written in every position
    for (int k = 0; k < (thorough ? 40000 : 1500); ++k) {
        std::int64_t t = stamp_min() + std::int64_t(r.next() % span);
        std::string lit = "\"" + stamp_text(t) + "\"";
        write_everywhere(make_stamp(t), &lit, stamp_text(t));
        unsigned y = unsigned(r.below(10000)), m = 1 + unsigned(r.below(12)), d = 1 + unsigned(r.below(31));
        std::string s = four(y) + "-" + two(m) + "-" + two(d), l = "\"" + s + "\"";
        write_everywhere(make_ymd(int(y), m, d), d <= month_days(y, m) ? &l : nullptr, s);
        if (mon.enough()) return;
    }
    zone("");
}
