// C15: every allocation of every operation fails once (or from then on); lifetimes and allocations must balance.
#define OPS_IMPL
#include "mon.hpp"
#include "blocks.hpp"
#include <new>
#include <rapidjson/writer.h>
#include <rapidjson/stringbuffer.h>
#ifndef PART
#define FAULTS_IMPL
#endif
#include "faults.hpp"
using namespace std;

struct Entry { const char* name; void (*run)(const char*, Rng&, bool); };
#ifdef PART
template<typename T> struct HasVariant : std::false_type {};
template<typename... T> struct HasVariant<std::variant<T...>> : std::true_type {};
template<typename T> struct HasVariant<std::vector<T>> : HasVariant<T> {};
template<typename T> struct HasVariant<std::map<std::string, T>> : HasVariant<T> {};
/** A class whose every construction and destruction is accounted for. */
struct LT {
    LT() { Live::born(this); }
    LT(const LT& o) : a(o.a), s(o.s) { Live::born(this); }
    LT(LT&& o) noexcept : a(o.a), s(std::move(o.s)) { Live::born(this); }
    LT& operator=(const LT& o) { Live::used(this); Live::used(&o); a = o.a; s = o.s; return *this; }
    LT& operator=(LT&& o) noexcept { Live::used(this); Live::used(&o); a = o.a; s = std::move(o.s); return *this; }
    ~LT() { Live::dead(this); }
    int a = 0; std::string s;
    FIELDS((R, a), (R, s))
    bool operator<(const LT& o) const { Live::used(this); Live::used(&o); return std::tie(a, s) < std::tie(o.a, o.s); }
};
struct LOne { LT only; FIELDS((R, only)) };
struct LTwo { LT x; std::vector<LT> y; FIELDS((R, x), (R, y)) };
struct LMany {
    LT r; std::optional<LT> o; LT d; std::vector<LT> v; std::map<std::string, LT> m; std::unique_ptr<LT> u = std::make_unique<LT>(); std::shared_ptr<LT> sp = std::make_shared<LT>(); std::shared_ptr<LT> sq = std::make_shared<LT>(); std::tuple<int, LT, std::string> t; std::array<LT, 2> ar; bytes by; stamp_t ts{}; EStr es{}; double num = 0;
    FIELDS((R, r), (R, o), (D, d), (R, v), (R, m), (R, u), (R, sp), (R, sq), (R, t), (R, ar), (R, by), (R, ts), (R, es), (R, num))
};
struct LNode { LT v; std::vector<LNode> kids; std::optional<std::unique_ptr<LNode>> next; FIELDS((R, v), (R, kids), (R, next)) };
struct LDerived : LTwo { LT z; std::optional<std::vector<LT>> w; FIELDS_AFTER(LTwo, (R, z), (R, w)) };
struct LNoDef { LT r; std::vector<std::optional<int>> dummy; std::string tail; FIELDS((R, r), (R, tail)) };

template<typename F> Out shielded(F&& f, std::string& what) {
    try { bool ok = f(); Faults::off(); return ok ? OK : NO; }
    catch (const persistence::JsonParseError&) { Faults::off(); return EPARSE; }
    catch (const persistence::JsonDeserializationError&) { Faults::off(); return EDESER; }
    catch (const persistence::JsonSerializationError&) { Faults::off(); return ESER; }
    catch (const std::bad_alloc&) { Faults::off(); return EALLOC; }
    catch (const std::exception& e) { Faults::off(); what = e.what(); return EOTHER; }
    catch (...) { Faults::off(); what = "unknown exception"; return EOTHER; }
}
static std::string dom_text(const rapidjson::Document& d) { rapidjson::StringBuffer b; rapidjson::Writer<rapidjson::StringBuffer> w(b); d.Accept(w); return std::string(b.GetString(), b.GetSize()); }

enum { WRITE, WRITE_V, SER, SER_V, PARSE_, PARSE_V, DES, DES_V, DES_M, DES_MV, DES_DOC, DES_DOC_V, OPS_N };
static const char* op_names[OPS_N] = { "write_to_string(x, s)", "write_to_string(x)", "serialize_to_document(x, d)", "serialize_to_document(x)", "parse(text, y)", "parse(text)", "deserialize(text, y)", "deserialize(text)", "deserialize(string&&, y)", "deserialize(string&&)", "deserialize(document, y)", "deserialize(document)" };

template<typename T> struct Subject {
    const T& x;                  // source, shared by all runs
    T y{};                       // target
    std::string text, s;         // source text, target text
    rapidjson::Document doc, d;  // source document, target document
    explicit Subject(const T& x) : x(x) {}
    std::string canon(const T& v) { Enc e{ CANON }; Node n; Model<T>::enc(e, v, n); return mj::text(n); }
    Out run(int op, std::string& what) {
        namespace P = persistence;
        std::string copy;
        if (op == DES_M || op == DES_MV) copy = text;
        // allocations made here would not be the library's
        auto armed = [&](auto&& f) { return shielded([&] { Faults::arm(); return f(); }, what); };
        switch (op) {
            case WRITE: return armed([&] { return P::write_to_string(x, s); });
            case WRITE_V: return armed([&] { s = P::write_to_string(x); return true; });
            case SER: return armed([&] { return P::serialize_to_document(x, d); });
            case SER_V: return armed([&] { d = P::serialize_to_document(x); return true; });
            default: break;
        }
        if constexpr (!HasVariant<T>::value) {
            if (op == PARSE_) return armed([&] { return P::parse(text, y); });
            if (op == PARSE_V) return armed([&] { y = P::parse<T>(text); return true; });
        }
        switch (op) {
            case DES: return armed([&] { return P::deserialize(text, y); });
            case DES_V: return armed([&] { y = P::deserialize<T>(text); return true; });
            case DES_M: return armed([&] { return P::deserialize(std::move(copy), y); });
            case DES_MV: return armed([&] { y = P::deserialize<T>(std::move(copy)); return true; });
            case DES_DOC: return armed([&] { return P::deserialize(doc, y); });
            case DES_DOC_V: return armed([&] { y = P::deserialize<T>(doc); return true; });
        }
        return NO;
    }
    /** What the operation produced. */
    std::string result(int op) { return op <= WRITE_V ? s : op <= SER_V ? dom_text(d) : canon(y); }
};

template<typename T> void subject(const char* name, Rng& r, bool valid_document) {
    // an input shared by all runs of this subject
    T x{};
    { Gen g(r); g.share = true; g.tiny = r.chance(1, 2); Model<T>::gen(g, x); }
    std::string text;
    {
        Node n; Enc e{ JSON };
        while (!Model<T>::enc(e, x, n)) { Gen g(r); Model<T>::gen(g, x); e = Enc{ JSON }; n = Node(); }
        if (!valid_document) { mutate(r, n); if (r.chance(1, 3)) mutate(r, n); }
        mj::Style st; st.r = &r; st.escape = r.chance(1, 3); st.shuffle = r.chance(1, 3);
        text = mj::text(n, st);
        if (!valid_document && r.chance(1, 6)) mutate_text(r, text);
    }
    T used{};
    { Gen g(r); g.tiny = true; Model<T>::gen(g, used); }
        std::string used_text; // a document of the used target, to make it again
    { Node n; Enc e{ JSON }; if (!Model<T>::enc(e, used, n)) return; mj::Style st; used_text = mj::text(n, st); }
    auto prepare = [&](Subject<T>& s, bool fresh) {
        s.text = text;
        if (!fresh) { Dec d{ DOM }; auto u = mj::read(used_text); d.root = &u.root; Model<T>::dec(d, u.root, s.y); s.s = "previous text which is long enough to be on the heap"; s.d.SetArray().PushBack(1, s.d.GetAllocator()); }
        s.doc.Parse(text.data(), text.size());
    };
    for (int op = 0; op < OPS_N && !mon.enough() && !mon.late(); ++op) {
        if (HasVariant<T>::value && (op == PARSE_ || op == PARSE_V)) continue;
        for (int fresh = 0; fresh < 2; ++fresh) {
            std::string title = std::string(op_names[op]) + " on " + name + (fresh ? ", fresh target" : ", used target");
            mon.doing(title, text);
            // once without faults: outcome, result, number of allocations
            Out want; std::string want_result, what; std::uint64_t n;
            const auto live1 = Live::count(); const auto blocks1 = Faults::outstanding();
            {
                Subject<T> s(x);
                prepare(s, fresh);
                if ((op == DES_DOC || op == DES_DOC_V) && s.doc.HasParseError()) break;
                Faults::plan(~0ull, false);
                want = s.run(op, what);
                n = Faults::count();
                if (want == OK) want_result = s.result(op);
            }
            mon.count(want == OK ? "inputs accepted" : "inputs rejected");
            if (want == EOTHER || want == EALLOC) mon.fail(title + "|foreign exception", title + " ends with another exception: " + what + "\ntext: " + show(text));
            if (Live::count() != live1) mon.fail(title + "|objects", title + ": " + std::to_string(Live::count() - live1) + " objects were not destroyed\ntext: " + show(text));
            if (Faults::outstanding() != blocks1) mon.fail(title + "|allocations", title + ": " + std::to_string(Faults::outstanding() - blocks1) + " allocations were not released\ntext: " + show(text));
            for (int sticky = 0; sticky < 2; ++sticky) for (std::uint64_t k = 0; k < n && !mon.enough(); ++k) {
                if (n > 150 && !r.chance(150, n) && mon.tier == "quick") continue;
                if (sticky && mon.tier == "quick" && !r.chance(1, 3)) continue;
                mon.doing(title + ", allocation " + std::to_string(k) + " of " + std::to_string(n) + (sticky ? " and all later" : ""), text);
                const auto live0 = Live::count(); const auto blocks0 = Faults::outstanding();
                {
                    Subject<T> s(x);
                    prepare(s, fresh);
                    std::string before = s.canon(s.x), doc_before = s.doc.HasParseError() ? "" : dom_text(s.doc);
                                        Faults::plan(k, sticky);
                    Out got = s.run(op, what);
                    mon.count(std::string("outcome ") + out_name(got));
                    auto bad = [&](const char* key, const std::string& detail) { mon.fail(title + "|" + key, title + ", allocation " + std::to_string(k) + " of " + std::to_string(n) + (sticky ? " and all later" : "") + " fails: " + detail + "\ntext: " + show(text)); };
                    if (got == EOTHER) bad("foreign exception", "ends with another exception: " + what);
                    else if (got == OK && (want != OK || s.result(op) != want_result)) bad("wrong success", "reports success with a wrong result");
                    else if (got == OK) mon.count("faults survived");
                    if (s.canon(s.x) != before) bad("source object", "the source object changed");
                    if (s.text != text) bad("source text", "the source text changed");
                    if (!s.doc.HasParseError() && dom_text(s.doc) != doc_before) bad("source document", "the source document changed");
                    // the target is used again
                    Faults::plan(~0ull, false);
                    Out again = s.run(op, what);
                    if (again != want || (again == OK && s.result(op) != want_result)) bad("reuse", "the target cannot be used again: " + std::string(out_name(again)) + ", expected " + out_name(want) + (again == OK ? "\nresult " + show(s.result(op)) + "\nexpected " + show(want_result) : ""));
                }
                mon.count("faults injected");
                if (Live::count() != live0) mon.fail(title + "|objects", title + ", allocation " + std::to_string(k) + ": " + std::to_string(Live::count() - live0) + " objects were not destroyed\ntext: " + show(text));
                if (Faults::outstanding() != blocks0) mon.fail(title + "|allocations", title + ", allocation " + std::to_string(k) + ": " + std::to_string(Faults::outstanding() - blocks0) + " allocations were not released\ntext: " + show(text));
                if (Live::error()) mon.fail(title + "|lifetime", title + ", allocation " + std::to_string(k) + ": " + Live::error() + "\ntext: " + show(text)), Live::clear_error();
                mon.saw(mix(mix(fnv(title + text), k), sticky), true);
            }
            mon.count("allocations counted", n);
            if (n == 0 || want != OK) mon.saw(fnv(title + text), true);
            if (Live::error()) mon.fail(title + "|lifetime", title + ": " + Live::error() + "\ntext: " + show(text)), Live::clear_error();
            mon.sample(title + ", " + std::to_string(n) + " allocations: " + text);
        }
    }
    if (leak_check()) mon.fail(std::string(name) + "|leak", std::string("LeakSanitizer found leaked memory after operations on ") + name + "\ntext: " + show(text));
}

#define SUBJECT(...) { #__VA_ARGS__, subject<__VA_ARGS__> }
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(subjects_, PART)(std::vector<Entry>& v) {
    v.insert(v.end(), {
#if PART == 0
        SUBJECT(LT), SUBJECT(LOne), SUBJECT(LTwo), SUBJECT(vector<LT>), SUBJECT(map<string, LT>)
#elif PART == 1
        SUBJECT(LMany), SUBJECT(set<LT>), SUBJECT(unordered_map<string, LT>)
#elif PART == 2
        SUBJECT(LNode), SUBJECT(LDerived), SUBJECT(unique_ptr<LT>), SUBJECT(shared_ptr<LT>)
#elif PART == 3
        SUBJECT(array<LT, 3>), SUBJECT(pair<LT, string>), SUBJECT(tuple<LT, vector<LT>, string>), SUBJECT(vector<shared_ptr<LT>>)
#elif PART == 4
        SUBJECT(map<string, vector<unique_ptr<LT>>>), SUBJECT(variant<int, LT, vector<LT>>), SUBJECT(vector<variant<string, LT>>), SUBJECT(string)
#elif PART == 5
        SUBJECT(vector<vector<string>>), SUBJECT(bytes), SUBJECT(vector<vector<vector<LT>>>), SUBJECT(vector<LMany>), SUBJECT(vector<stamp_t>)
#endif
    });
}
#else
void subjects_0(std::vector<Entry>&); void subjects_1(std::vector<Entry>&); void subjects_2(std::vector<Entry>&); void subjects_3(std::vector<Entry>&); void subjects_4(std::vector<Entry>&); void subjects_5(std::vector<Entry>&);
void special(Rng& r) {
    std::vector<Entry> entries;
    subjects_0(entries); subjects_1(entries); subjects_2(entries); subjects_3(entries); subjects_4(entries); subjects_5(entries);
    for (std::size_t round = 0; !mon.enough() && (round < 2 || !mon.late()); ++round)
        for (std::size_t i = 0; i < entries.size() && !mon.enough(); ++i) {
            auto& e = entries[(i + mon.shard) % entries.size()];
            bool valid = (round + i + mon.shard) % 2;
            mon.count(valid ? "subjects with a valid document" : "subjects with a damaged document");
            e.run(e.name, r, valid);
            if (round && mon.late()) break;
        }
}
#endif
