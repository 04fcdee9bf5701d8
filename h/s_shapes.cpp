// C18: dispatch by member name over generated classes.
#include "shapes.hpp"
void all_shapes(std::vector<Shape>&);
static const char* op_names[] = { "parse(text,target)", "deserialize(text,target)", "parse(text)", "deserialize(text)", "deserialize(document)" };
static std::string jquote(const std::string& s, Rng* r = nullptr) { std::string o; mj::Style st; st.r = r; st.escape = r != nullptr; mj::put_string(o, s, st); return o; }

void special(Rng& r) {
    std::vector<Shape> shapes;
    all_shapes(shapes);
    if (shapes.empty()) std::exit(3);
    std::uint64_t rounds = mon.tier == "thorough" ? 400000 : 30000;
    const std::uint64_t base = r.next();
    for (std::uint64_t i = mon.shard; i < rounds && !mon.enough(); i += mon.shards) {
        if (mon.only >= 0 && std::uint64_t(mon.only) != i) continue;
        if (i % 64 == mon.shard && mon.late()) { mon.count("stopped_by_time_limit"); break; }
        mon.begin(i);
        Rng q(mix(mon.seed * 31 + 7, i));
        (void)base;
        const Shape& s = shapes[(i / mon.shards) % shapes.size()];
        const auto& names = *s.names;
        const std::size_t n = names.size();
        // values that identify their member
        std::vector<std::string> want(n);
        std::vector<std::size_t> order;
        bool subset = q.chance(1, 4);   // only some keys present
        bool missing = false;
        for (std::size_t k = 0; k < n; ++k) {
            int v = int(10000 + k * 17 + q.below(5));
            bool present = subset ? q.chance(1, 2) : !((s.kinds[k] == 'O' || s.kinds[k] == 'D') && q.chance(1, 3));
            if (!present) { want[k] = s.initial[k]; if (s.kinds[k] != 'O' && s.kinds[k] != 'D') missing = true; continue; }
            switch (s.kinds[k]) {
                case 'S': want[k] = "\"s" + std::to_string(v) + "\""; break;
                case 'V': want[k] = "[" + std::to_string(v) + "," + std::to_string(v + 1) + "]"; break;
                default: want[k] = std::to_string(v);
            }
            order.push_back(k);
        }
        for (std::size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[q.below(k)]);
        auto document = [&](const std::string* extra, std::size_t at) {
            std::string t = "{";
            for (std::size_t k = 0; k <= order.size(); ++k) {
                if (extra && k == at) { if (t.size() > 1) t += ','; t += jquote(*extra) + (q.chance(1, 3) ? ":null" : q.chance(1, 2) ? ":77" : ":{\"x\":[1]}"); }
                if (k == order.size()) break;
                if (t.size() > 1) t += ',';
                t += jquote(names[order[k]], q.chance(1, 4) ? &q : nullptr) + ":" + want[order[k]];
            }
            return t + "}";
        };
        std::string text = document(nullptr, 0);
        auto differ = [&](const std::vector<std::string>& got) -> std::string { for (std::size_t k = 0; k < n; ++k) if (got[k] != want[k]) return "member " + jquote(names[k]) + " is " + got[k] + ", expected " + want[k]; return ""; };
        for (int op = 0; op < 5; ++op) {
            mon.doing(std::string(op_names[op]) + " " + s.title, text);
            Got g = s.read(op, text);
            bool parsing = op == 0 || op == 2;
            if (missing && parsing && !g.ok) continue;       // K1: rejecting would be right
            if (missing && !parsing) {
                if (g.ok) mon.fail(std::string(s.title) + "|" + op_names[op] + "|missing", std::string(op_names[op]) + " accepts an object without required members: " + show(text));
                continue;
            }
            if (!g.ok) mon.fail(std::string(s.title) + "|" + op_names[op] + "|rejects", std::string(op_names[op]) + " on " + s.title + " rejects " + show(text) + " " + g.what);
            else if (auto d = differ(g.members); !d.empty()) mon.fail(std::string(s.title) + "|" + op_names[op] + "|dispatch", std::string(op_names[op]) + " on " + s.title + ": " + d + "\ntext: " + show(text));
            mon.count("documents_read");
        }
        mon.count("members_dispatched", order.size());
        // a key that is no member
        for (int t = 0; t < 6; ++t) {
            std::string key = names[q.below(n)];
            switch (q.below(10)) {
                case 0: key += char('a' + q.below(26)); break;
                case 1: if (!key.empty()) { key.pop_back(); while (!key.empty() && !mj::read(jquote(key)).ok) key.pop_back(); } break;
                case 2: if (key.size() > 1 && !(key[0] & 0x80)) key.erase(0, 1); break;
                case 3: { bool ascii = true; for (char c : key) ascii = ascii && !(c & 0x80); if (ascii && key.size() > 1) std::swap(key[q.below(key.size())], key[q.below(key.size())]); break; }
                case 4: { auto p = q.below(key.size() + 1); if (p < key.size() && !(key[p] & 0x80)) key[p] = std::isupper((unsigned char)key[p]) ? char(std::tolower(key[p])) : char(std::toupper(key[p])); break; }
                case 5: key += '\0'; break;
                case 6: key.insert(0, 1, " _\0a"[q.below(4)]); break;
                case 7: key += names[q.below(n)]; break;
                case 8: { auto p = q.below(key.size() + 1); if (p < key.size() && !(key[p] & 0x80)) key[p] = char(key[p] ^ (1 << q.below(5))); break; }
                default: { key.clear(); for (auto c = q.below(9); c--;) key += char(' ' + q.below(95)); }
            }
            if (std::find(names.begin(), names.end(), key) != names.end() || !mj::read(jquote(key)).ok) continue;
            std::string bad = document(&key, q.below(order.size() + 1));
            mon.doing(std::string("unknown key ") + s.title, bad);
            Got p = s.read(t % 2 ? 0 : 2, bad);
            if (p.ok) mon.fail(std::string(s.title) + "|parse|unknown key", std::string("parse on ") + s.title + " accepts the unknown key " + jquote(key) + "\ntext: " + show(bad));
            Got d = s.read(t % 2 ? 1 : t % 4 ? 3 : 4, bad);
            if (!missing) {
                if (!d.ok) mon.fail(std::string(s.title) + "|deserialize|unknown key", std::string("deserialize on ") + s.title + " does not ignore the unknown key " + jquote(key) + "\ntext: " + show(bad));
                else if (auto f = differ(d.members); !f.empty()) mon.fail(std::string(s.title) + "|deserialize|unknown key", std::string("deserialize on ") + s.title + ": " + f + "\ntext: " + show(bad));
            } else if (d.ok) mon.fail(std::string(s.title) + "|deserialize|missing", std::string("deserialize on ") + s.title + " accepts an object without required members\ntext: " + show(bad));
            mon.count("unknown_keys");
        }
        // all members are written once, in declaration order
        if (!missing) for (int op = 0; op < 2; ++op) {
            std::string out, expect = "{";
            for (std::size_t k = 0; k < n; ++k) if (!want[k].empty()) { if (expect.size() > 1) expect += ','; expect += jquote(names[k]) + ":" + want[k]; }
            expect += "}";
            mon.doing(std::string("rewrite ") + s.title, text);
            if (!s.rewrite(op, text, out)) { mon.fail(std::string(s.title) + "|write", "cannot write back " + show(text)); continue; }
            auto a = mj::read(out), b = mj::read(expect);
            std::string why;
            if (!a.ok || a.dup || !mj::same(b.root, a.root, why)) mon.fail(std::string(s.title) + "|written", std::string(op ? "serialize" : "write") + " on " + s.title + ": " + why + "\ntext: " + show(out) + "\nexpected: " + show(expect));
            mon.count("objects_written");
        }
        mon.count(std::string("type ") + s.title);
        mon.saw(fnv(s.title + text), order.size() > 1 || n == 1);
        mon.sample(std::string(s.title) + ": " + text);
    }
}
