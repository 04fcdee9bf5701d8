// C13: every enumerator and every near miss of its name, every underlying type's range, in every position.
#include "positions.hpp"
#if PART == 0
template<typename E> void named(const char* type, Rng& r);
template<typename E> void numeric(const char* type, Rng& r);
extern template void named<EStr>(const char*, Rng&); extern template void named<EConv>(const char*, Rng&); extern template void named<EOne>(const char*, Rng&); extern template void named<EPerm>(const char*, Rng&); extern template void named<EDown>(const char*, Rng&); extern template void named<EBoost>(const char*, Rng&);
extern template void numeric<EInt>(const char*, Rng&); extern template void numeric<EU8>(const char*, Rng&); extern template void numeric<ES8>(const char*, Rng&); extern template void numeric<EI16>(const char*, Rng&); extern template void numeric<EU16>(const char*, Rng&);
extern template void numeric<EU32>(const char*, Rng&); extern template void numeric<EI64>(const char*, Rng&); extern template void numeric<EU64>(const char*, Rng&); extern template void numeric<EOld>(const char*, Rng&);

void special(Rng& r) {
    if (mon.only >= 0) return;
    named<EStr>("enum_traits", r); named<EConv>("make_enum_converter", r); named<EOne>("single enumerator", r); named<EPerm>("listed out of order", r); named<EDown>("listed downwards", r); named<EBoost>("Boost.Describe", r);
    numeric<EInt>("int", r); numeric<EU8>("uint8", r); numeric<ES8>("int8", r); numeric<EI16>("int16", r); numeric<EU16>("uint16", r); numeric<EU32>("uint32", r); numeric<EI64>("int64", r); numeric<EU64>("uint64", r); numeric<EOld>("unscoped", r);
}
#else
static std::string jquote(const std::string& s, Rng* r = nullptr) { std::string o; mj::Style st; st.r = r; st.escape = r != nullptr; mj::put_string(o, s, st); return o; }

/** want: the value the document denotes, or null if it must be rejected. */
template<typename E> static void look(const char* type, const std::string& lit, const E* want, bool few) {
    mon.doing(std::string("enum ") + type, lit);
    read_everywhere<E>(lit, [&](const char* op, bool got, const E* v, bool shape) {
        if (got != !!want) mon.fail(std::string(type) + "|" + op + "|outcome", std::string(type) + " " + op + (got ? " accepts " : " rejects ") + show(lit));
        else if (want && (!shape || *v != *want)) mon.fail(std::string(type) + "|" + op + "|value", std::string(type) + " " + op + " reads " + show(lit) + " as " + (v ? std::to_string((long long)std::underlying_type_t<E>(*v)) : "a container of another shape"));
    }, few);
    mon.count(want ? "accepted" : "rejected");
    mon.saw(fnv(std::string(type) + lit), lit.size() > 2);
}
template<typename E> void named(const char* type, Rng& r) {
    bool thorough = mon.tier == "thorough";
    const auto& list = EnumNames<E>::list();
    auto find = [&](const std::string& s) -> const E* { for (auto& [e, n] : list) if (n == s) return &e; return nullptr; };
    std::set<std::string> misses = { "", " ", "\t", "0", "1", "2", "-1", "null", "true", "{}", std::string(1, '\0'), "EStr", "red,green", "red|green" };
    for (auto& [e, n] : EnumNames<EStr>::list()) misses.insert(n);
    for (auto& [e, n] : EnumNames<EConv>::list()) misses.insert(n);
    for (auto& [e, n] : EnumNames<EBoost>::list()) misses.insert(n);
    for (auto& [e, n] : list) {
        for (std::size_t k = 0; k <= n.size(); ++k) {
            // a prefix of UTF-8 text need not be UTF-8
            auto utf8 = [](const std::string& s) { return mj::read(jquote(s)).ok; };
            for (auto& s : { n.substr(0, k), n.substr(k), n.substr(0, k) + n.substr(std::min(n.size(), k + 1)) }) if (utf8(s)) misses.insert(s);
            for (std::string ins : { std::string(1, '\0'), std::string(" "), std::string("a"), std::string("_"), std::string(1, '\x01') }) if (utf8(n.substr(0, k) + ins + n.substr(k))) misses.insert(n.substr(0, k) + ins + n.substr(k));
            if (k < n.size() && (n[k] & 0x80) == 0) {
                std::string s = n;
                s[k] = std::isupper((unsigned char)s[k]) ? char(std::tolower(s[k])) : char(std::toupper(s[k])); misses.insert(s);
                for (unsigned c = 0; c < 128; c += thorough ? 1 : 5) { s = n; s[k] = char(c); misses.insert(s); }
                s = n; s[k] ^= 1; misses.insert(s);
            }
        }
        std::string up, rev(n.rbegin(), n.rend());
        for (char c : n) up += (c & 0x80) ? c : char(std::toupper(c));
        misses.insert(up); misses.insert(n + n); misses.insert(n + "\n"); misses.insert(n + std::string(1, '\0') + n); misses.insert(n + std::string(300, 'x'));
        if (mj::read(jquote(rev)).ok) misses.insert(rev);
        for (auto& [e2, n2] : list) { misses.insert(n + n2); misses.insert(n + "," + n2); }
        if (mon.shard == 0) {
            std::string lit = jquote(n), w;
            write_everywhere(e, &lit, n);
            look<E>(type, lit, &e, false);
            for (int k = 0; k < 20; ++k) look<E>(type, jquote(n, &r), &e, false);
            mon.count("enumerators");
        }
    }
    // a value without a name has no text that denotes another value
    if (mon.shard == 0) for (int v = 0; v < 256; ++v) {
        E e = E(v);
        bool has = false;
        for (auto& [x, n] : list) has = has || x == e;
        if (has) continue;
        unnamed_everywhere(e, [&](const char* op, const std::string& text) {
            auto rd = mj::read(text);
            std::vector<const Node*> all;
            auto walk = [&](auto&& self, const Node& n) -> void { all.push_back(&n); for (auto& c : n.a) self(self, c); };
            walk(walk, rd.root);
            for (auto* n : all) if (n->k == mj::Str && find(n->s)) mon.fail(std::string(type) + "|" + op + "|unnamed", std::string(type) + " " + op + " writes the value " + std::to_string(v) + ", which has no name, as " + show(text));
        });
        mon.count("values_without_name");
    }
    std::uint64_t k = 0;
    for (auto& s : misses) if (k++ % mon.shards == mon.shard) { look<E>(type, jquote(s), find(s), false); if (mon.enough()) return; }
    for (const char* lit : { "0", "1", "2", "64", "-1", "1.0", "1.5", "null", "true", "false", "[]", "{}", "[\"red\"]", "{\"red\":0}", "[[\"a\"]]" }) if (k++ % mon.shards == mon.shard) look<E>(type, lit, nullptr, false);
}
template<typename E> void numeric(const char* type, Rng& r) {
    using U = std::underlying_type_t<E>;
    bool thorough = mon.tier == "thorough";
    std::set<i128> values;
    auto add = [&](i128 v) { for (int d = -3; d <= 3; ++d) values.insert(v + d); };
    for (int k = 0; k <= 65; ++k) { add(i128(1) << k); add(-(i128(1) << k)); }
    add(0); add(i128(std::numeric_limits<U>::min())); add(i128(std::numeric_limits<U>::max()));
    for (int k = 0; k < (thorough ? 3000 : 120); ++k) values.insert(i128(std::int64_t(r.next() >> r.below(60))) * (r.chance(1, 2) ? -1 : 1));
    if (sizeof(U) == 1) for (int v = -400; v <= 400; ++v) values.insert(v);
    std::uint64_t n = 0;
    for (i128 v : values) {
        if (n++ % mon.shards != mon.shard) continue;
        bool in = v >= i128(std::numeric_limits<U>::min()) && v <= i128(std::numeric_limits<U>::max());
        E e = in ? E(U(v)) : E{};
        std::string lit = i128_to_lit(v);
        look<E>(type, lit, in ? &e : nullptr, false);
        if (in) { write_everywhere(e, &lit, lit); mon.count("enum_values_written"); }
        look<E>(type, lit + ".0", nullptr, true);
        look<E>(type, "\"" + lit + "\"", nullptr, true);
        if (mon.enough()) return;
    }
    for (const char* lit : { "1e0", "0e1", "-0.0", "1.5", "null", "true", "false", "[]", "{}", "\"\"", "\"zero\"", "\"EInt::zero\"", "[0]", "{\"a\":0}" }) if (n++ % mon.shards == mon.shard) look<E>(type, lit, nullptr, false);
}
#if PART == 1
template void named<EStr>(const char*, Rng&); template void named<EConv>(const char*, Rng&);
#elif PART == 2
template void named<EOne>(const char*, Rng&); template void named<EBoost>(const char*, Rng&);
#elif PART == 3
template void numeric<EInt>(const char*, Rng&); template void numeric<EU8>(const char*, Rng&);
#elif PART == 4
template void numeric<ES8>(const char*, Rng&); template void numeric<EI16>(const char*, Rng&);
#elif PART == 5
template void numeric<EU16>(const char*, Rng&); template void numeric<EU32>(const char*, Rng&);
#elif PART == 6
template void numeric<EI64>(const char*, Rng&); template void numeric<EU64>(const char*, Rng&);
#elif PART == 7
template void numeric<EOld>(const char*, Rng&);
#elif PART == 8
template void named<EPerm>(const char*, Rng&); template void named<EDown>(const char*, Rng&);
#endif
#endif
