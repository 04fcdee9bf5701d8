// Document workloads: mutators over reference trees and over text.
#pragma once
#include "model.hpp"

inline std::string boundary_number(Rng& r) {
    static const char* fixed[] = {
        "0", "-0", "1", "-1", "127", "128", "129", "-127", "-128", "-129", "255", "256", "257", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
        "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "16777215", "16777216", "16777217", "-16777216",
        "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740992", "340282346638528859811704183484516925440", "99999999999999999999999999", "1.0", "1.5", "-1.5", "0.0", "-0.0", "1e0", "1e1", "1E+2", "1e-2", "127.0", "255.0", "3.4028234663852886e38", "3.4028235677973366e38", "3.5e38", "-3.5e38", "1e39", "1e308", "1.7976931348623157e308", "1.7976931348623159e308", "1e309", "-1e400", "5e-324", "2e-324", "1e-400", "4.9406564584124654e-324", "1.401298464324817e-45", "0.1", "0.30000000000000004", "123456789012345678901234567890", "1.00000000000000000000000001", "2.2250738585072011e-308", "1000000000000000000000", "6.02214076e23", "4294967295.0", "2147483648.5"
    };
    switch (r.below(6)) {
        case 0: case 1: case 2: return fixed[r.below(std::size(fixed))];
        case 3: { // 2^k + small, either sign
            i128 v = (i128(1) << r.below(66)) + i128(r.below(5)) - 2;
            if (r.chance(1, 2)) v = -v;
            return i128_to_lit(v);
        }
        case 4: return i128_to_lit(i128(std::int64_t(r.next())) >> r.below(63));
        default: {
            double d; std::uint64_t b;
            do { b = r.next(); std::memcpy(&d, &b, 8); } while (!std::isfinite(d));
            if (r.chance(1, 2)) d = double(float(std::ldexp(double(r.next() >> 11), int(r.below(200)) - 150)));
            return c_format(r.chance(1, 2) ? "%.17g" : "%.20e", d);
        }
    }
}

inline Node random_json(Rng& r, int depth = 0) {
    Gen g(r);
    switch (r.below(depth > 3 ? 6 : 9)) {
        case 0: return Node::null();
        case 1: return Node::boolean(r.chance(1, 2));
        case 2: case 3: return Node::num(boundary_number(r));
        case 4: case 5: return Node::str(gen_string(g));
        case 6: case 7: { Node n = Node::arr(); for (auto k = r.below(4); k--;) n.a.push_back(random_json(r, depth + 1)); return n; }
        default: { Node n = Node::obj(); for (auto k = r.below(4); k--;) { auto key = gen_string(g, true); if (!n.find(key)) { auto v = random_json(r, depth + 1); n.add(key) = std::move(v); } } return n; }
    }
}

inline void all_nodes(Node& n, std::vector<Node*>& out) { out.push_back(&n); for (auto& c : n.a) all_nodes(c, out); }

inline std::string tweak_string(Rng& r, std::string s) {
    switch (r.below(9)) {
        case 0: return s + char('a' + r.below(26));
        case 1: if (!s.empty()) s.pop_back(); else s = "x"; return s;
        case 2: if (!s.empty()) s.erase(r.below(s.size()), 1); else s = "="; return s;
        case 3: if (!s.empty()) { char& c = s[r.below(s.size())]; if (c >= 0) c = char(32 + r.below(95)); } return s;
        case 4: return s + std::string(1, '\0');
        case 5: for (char& c : s) { if (c >= 'a' && c <= 'z') c = char(c - 32); else if (c >= 'A' && c <= 'Z') c = char(c + 32); } return s;
        case 6: if (!s.empty() && s.back() == '=') { s.back() = 'A'; return s; } return s + "=";
        case 7: return " " + s;
        default: s.insert(s.empty() ? 0 : r.below(s.size() + 1), 1, "0=/-:TZ+ a9"[r.below(11)]); return s;
    }
}

/** Applies one structural mutation at a random node; gives its name. */
inline const char* mutate(Rng& r, Node& root) {
    std::vector<Node*> nodes;
    all_nodes(root, nodes);
    // prefer leaves and inner nodes evenly
    Node& n = *nodes[r.below(nodes.size())];
    for (int tries = 0; tries < 12; ++tries) switch (r.below(17)) {
        case 0: n = random_json(r); return "replace";
        case 1: { Node w = Node::arr(); w.a.push_back(n); n = w; return "wrap-array"; }
        case 2: { Node w = Node::obj(); w.add("value") = n; n = w; return "wrap-object"; }
        case 3: if (!n.a.empty()) { Node c = n.a[r.below(n.a.size())]; n = c; return "unwrap"; } break;
        case 4: if (!n.a.empty()) { auto i = r.below(n.a.size()); n.a.erase(n.a.begin() + i); if (n.k == mj::Obj) n.keys.erase(n.keys.begin() + i); return "remove"; } break;
        case 5: if (n.k == mj::Arr) { Node c = n.a.empty() ? random_json(r, 2) : n.a[r.below(n.a.size())]; n.a.insert(n.a.begin() + r.below(n.a.size() + 1), c); return "insert-element"; } break;
        case 6: if (n.k == mj::Obj) { Gen g(r); std::string k = n.keys.empty() || r.chance(1, 3) ? gen_string(g, true) : tweak_string(r, n.keys[r.below(n.keys.size())]); if (n.find(k)) break; Node v = n.a.empty() || r.chance(1, 2) ? random_json(r, 2) : n.a[r.below(n.a.size())]; auto at = r.below(n.a.size() + 1); n.keys.insert(n.keys.begin() + at, k); n.a.insert(n.a.begin() + at, v); return "insert-member"; } break;
        case 7: if (n.k == mj::Obj && !n.keys.empty()) { auto i = r.below(n.keys.size()); std::string k = tweak_string(r, n.keys[i]); if (n.find(k)) break; n.keys[i] = k; return "rename-member"; } break;
        case 8: if (n.k == mj::Num) { n.s = boundary_number(r); return "number"; } break;
        case 9: if (n.k == mj::Num) { if (r.chance(1, 3)) { n = Node::str(n.s); return "number-to-string"; } if (n.s.find_first_of("eE.") == std::string::npos) { n.s += r.chance(1, 2) ? ".0" : r.chance(1, 2) ? "e0" : ".5"; return "number-fraction"; } } break;
        case 10: case 11: if (n.k == mj::Str) { n.s = tweak_string(r, n.s); return "string"; } break;
        case 12: n = Node::null(); return "null";
        case 13: if (n.k == mj::Bool) { if (r.chance(1, 2)) n.b = !n.b; else n = Node::num(n.b ? "1" : "0"); return "boolean"; } break;
        case 14: if (n.a.size() > 1) { std::swap(n.a[r.below(n.a.size())], n.a[r.below(n.a.size())]); return "swap"; } break;
        case 15: { Node& o = *nodes[r.below(nodes.size())]; Node c = o; n = c; return "copy-other"; }
        default: if (n.k == mj::Arr) { Node w = Node::obj(); for (std::size_t i = 0; i < n.a.size(); ++i) w.add(std::to_string(i)) = n.a[i]; n = w; return "array-to-object"; }
                 if (n.k == mj::Obj) { Node w = Node::arr(); w.a = n.a; n = w; return "object-to-array"; } break;
    }
    n = random_json(r);
    return "replace";
}

/** Applies one textual mutation. */
inline const char* mutate_text(Rng& r, std::string& t) {
    static const char* junk[] = { ",", ":", "]", "}", "[", "{", "\"", "\\", "//c", "/**/", "+", "-", ".", "0", "1", "e", "E", "nul", "tru", "NaN", "Infinity", "'", "\\u12", "\\ud800", "\\x", "\n", "\t", " ", "\x01", "\x7f", "\xEF\xBB\xBF", "\xff", "\xc3", "null", "true", "\"a\":", "00", "1.", ".5", "0x1", "--1", "[1,]", "{,}" };
    auto at = [&] { return std::size_t(r.below(t.size() + 1)); };
    switch (r.below(9)) {
        case 0: t.resize(at()); return "truncate";
        case 1: t.insert(at(), junk[r.below(std::size(junk))]); return "insert";
        case 2: if (!t.empty()) { auto p = at(); t.erase(p, 1 + r.below(3)); } return "erase";
        case 3: if (!t.empty()) t[r.below(t.size())] = char(r.below(256)); return "byte";
        case 4: if (!t.empty()) { auto p = at(), q = at(); if (p > q) std::swap(p, q); if (q - p > 60) q = p + 60; std::string c = t.substr(p, q - p); t.insert(at(), c); } return "duplicate";
        case 5: t += junk[r.below(std::size(junk))]; return "trailing";
        case 6: t.insert(at(), 1, '\0'); return "nul";
        case 7: if (!t.empty()) { auto p = r.below(t.size()); static const char s[] = "[]{},:\"0123456789-+.eEtfn\\ "; t[p] = s[r.below(sizeof s - 1)]; } return "token";
        default: { auto p = t.find_first_of(",:[{"); if (p != std::string::npos) { std::vector<std::size_t> ps; for (std::size_t i = 0; i < t.size(); ++i) if (std::strchr(",:[]{}", t[i]) && t[i]) ps.push_back(i); p = ps[r.below(ps.size())]; if (r.chance(1, 2)) t.erase(p, 1); else t.insert(p, 1, t[p]); } return "punctuation"; }
    }
}
