// Probes of the known findings (known-findings.txt): each runs exactly the listed input.
#include "mon.hpp"
#include <persistence/persistence.hpp>
#include <persistence/write_all.hpp>
#include <persistence/parse_all.hpp>
#include <persistence/serialize_all.hpp>
#include <persistence/deserialize_all.hpp>
#include <persistence/utility.hpp>

namespace {
struct Two {
    int first = 0;
    std::string second;
    template<typename A> constexpr auto persist(A& ar) { return ar & MEMBER_VARIABLE(first) & MEMBER_VARIABLE(second); }
};
}

void probe_known() {
    namespace P = persistence;
    if (mon.prop == "C05") {
        Two t;
        if (P::parse(std::string("{}"), t)) mon.known("K1", "parse accepts {} for a class with two required members");
    }
    if (mon.prop == "C01" || mon.prop == "C02") {
        std::vector<std::pair<std::string, int>> v = { { "a", 1 } }, w;
        std::string s = P::write_to_string(v);
        bool ok = mon.prop == "C01" ? P::parse(s, w) : P::deserialize(s, w);
        if (!ok || w != v) mon.known("K3", "vector<pair<string,int>>{{\"a\",1}} is written as an object, which cannot be read back");
    }
}
