// C16: operations in several threads at once, watched by ThreadSanitizer; results compared with a sequential run.
#include "mon.hpp"
#include "blocks.hpp"
#include <atomic>
#include <thread>
#include <rapidjson/writer.h>
#include <rapidjson/stringbuffer.h>
namespace {
constexpr int THREADS = 4;
constexpr int OPS = 14;
const char* op_names[OPS] = { "write_to_string(x)", "write_to_string(x, s)", "serialize_to_document(x)", "serialize_to_document(x, d)", "parse(text, y)", "parse(text)", "deserialize(text, y)", "deserialize(text)", "deserialize(string&&, y)", "deserialize(document, y)", "deserialize(document)", "schema_to_string", "schema_document_to_string", "deserialize(string&&)" };
std::string text_of(const rapidjson::Document& d) {
    rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); d.Accept(w); return std::string(b.GetString(), b.GetSize());
}
struct Item { const TypeOps* t; Val x; std::string text; bool schema; };
/** One operation on its own target; the source object and text are shared with the other threads. */
std::string act(const Item& it, int op) {
    const TypeOps& t = *it.t;
    std::string s;
    Res r;
    auto done = [&](const Res& r, const Val& y) { return res_text(r) + (r.o == OK ? y.canon() : std::string()); };
    switch (op) {
        case 0: r = t.write_v(it.x.p, s); return res_text(r) + s;
        case 1: r = t.write(it.x.p, s); return res_text(r) + s;
        case 2: { rapidjson::Document d; r = t.ser_v(it.x.p, d); return res_text(r) + (r.o == OK ? text_of(d) : ""); }
        case 3: { rapidjson::Document d; r = t.ser(it.x.p, d); return res_text(r) + (r.o == OK ? text_of(d) : ""); }
        case 4: if (t.parse) { Val y(t); return done(t.parse(it.text, y.p), y); } break;
        case 5: if (t.parse) { Val y(t); return done(t.parse_v(it.text, y.p), y); } break;
        case 6: if (t.des) { Val y(t); return done(t.des(it.text, y.p), y); } break;
        case 7: if (t.des) { Val y(t); return done(t.des_v(it.text, y.p), y); } break;
        case 8: if (t.des) { Val y(t); return done(t.des_m(std::string(it.text), y.p), y); } break;
        case 13: if (t.des) { Val y(t); return done(t.des_mv(std::string(it.text), y.p), y); } break;
        case 9: case 10: if (t.des) { rapidjson::Document d; d.Parse(it.text.data(), it.text.size()); if (d.HasParseError()) return ""; Val y(t); return done(op == 9 ? t.des_doc(d, y.p) : t.des_doc_v(d, y.p), y); } break;
        case 11: if (t.schema) return t.schema(); break;
        case 12: if (t.schema_doc) return t.schema_doc(); break;
    }
    return "";
}
std::atomic<int> in_flight{ 0 };   // relaxed: orders nothing
struct Step { std::uint32_t item; std::uint8_t op; };
}
void special(Rng& r) {
    auto types = types_with(0);
    for (std::size_t k = types.size(); k > 1; --k) std::swap(types[k - 1], types[r.below(k)]);
    auto pool = types_with(F_DESER);
    const int rounds = mon.tier == "thorough" ? 400 : 6;
    std::set<std::string> first_used;
    for (int round = 0; round < rounds && !mon.enough(); ++round) {
        if (mon.late()) { mon.count("stopped_by_time_limit"); break; }
        mon.begin(round);
        // a few types per batch, so that all threads meet on the same ones
        for (std::size_t from = 0; from < types.size() && !mon.late(); from += 6) {
            std::vector<Item> items;
            for (std::size_t k = from; k < std::min(types.size(), from + 6); ++k) {
                const TypeOps& t = *types[k];
                Val x(t);
                generate(t, r, x.p, true, r.chance(1, 8));
                std::string text = make_document(t.des ? t : *pool[0], r, pool).text;
                items.push_back(Item{ &t, std::move(x), std::move(text), t.schema != nullptr });
            }
            // each thread performs every operation; in the first round all begin with the same one
            std::vector<Step> plan[THREADS];
            std::vector<Step> all;
            for (std::uint32_t i = 0; i < items.size(); ++i) for (int op = 0; op < OPS; ++op) if (round == 0 || r.chance(1, 2)) all.push_back({ i, std::uint8_t(op) });
            for (std::size_t k = all.size(); k > 1; --k) std::swap(all[k - 1], all[r.below(k)]);
            for (int t = 0; t < THREADS; ++t) {
                plan[t] = all;
                if (round > 0 && t > 0) for (std::size_t k = all.size(); k > 1; --k) std::swap(plan[t][k - 1], plan[t][r.below(k)]);
            }
            mon.doing("threads", items[0].t->name + "\n" + items[0].text);
            std::vector<std::string> results[THREADS];
            std::uint64_t overlapped[THREADS] = {};
            std::atomic<int> ready{ 0 };
            std::vector<std::thread> ts;
            const std::uint64_t salt = r.next();
            for (int t = 0; t < THREADS; ++t) ts.emplace_back([&, t] {
                Rng q(mix(salt, t));
                auto& out = results[t];
                out.reserve(plan[t].size());
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < THREADS) {}
                for (auto& s : plan[t]) {
                    if (in_flight.fetch_add(1, std::memory_order_relaxed) > 0) ++overlapped[t];
                    out.push_back(act(items[s.item], s.op));
                    in_flight.fetch_sub(1, std::memory_order_relaxed);
                    if (q.chance(1, 16)) std::this_thread::yield();
                }
            });
            for (auto& t : ts) t.join();
            // what each call returns alone
            std::map<std::pair<std::uint32_t, int>, std::string> alone;
            for (auto& s : all) alone[{ s.item, s.op }] = act(items[s.item], s.op);
            for (int t = 0; t < THREADS; ++t) for (std::size_t k = 0; k < plan[t].size(); ++k) {
                const auto& s = plan[t][k];
                const Item& it = items[s.item];
                const std::string& want = alone[{ s.item, s.op }];
                if (results[t][k] != want) mon.fail(it.t->name + "|" + op_names[s.op] + "|result", std::string(op_names[s.op]) + " on " + it.t->name + " gave another result while other threads ran: " + show(results[t][k]) + "\nalone: " + show(want) + "\ntext: " + show(it.text));
                if (!want.empty()) mon.saw(mix(fnv(it.t->name + op_names[s.op] + want), t), !want.empty());
                if (round == 0 && !want.empty() && first_used.insert(it.t->name + op_names[s.op]).second) mon.count("first uses of a type and operation by all threads at once");
            }
            for (auto n : overlapped) mon.count("operations_overlapping_others", n);
            mon.count("batches_of_threads");
            mon.sample("4 threads, " + std::to_string(all.size()) + " operations each on " + items[0].t->name + ", " + items.back().t->name + " and others; first text " + items[0].text);
        }
    }
}
