// C17: generated schemas judged by an independent validator.
#include "mon.hpp"
#include "types.hpp"
namespace {
struct Schema { Node root; std::string text; };
/** -1: the schema itself is unusable; 0 invalid; 1 valid */
struct Validator {
    const Node& root;
    std::string bad;
    const Node* deref(const std::string& ref) {
        if (ref == "#") return &root;
        if (ref.rfind("#/", 0) != 0) { bad = "reference " + ref + " is not local"; return nullptr; }
        const Node* n = &root;
        std::size_t i = 1;
        while (i < ref.size()) {
            auto e = ref.find('/', i + 1);
            if (e == std::string::npos) e = ref.size();
            std::string seg = ref.substr(i + 1, e - i - 1), key;
            for (std::size_t k = 0; k < seg.size(); ++k) { if (seg[k] == '~' && k + 1 < seg.size()) { key += seg[++k] == '1' ? '/' : '~'; } else key += seg[k]; }
            n = n->k == mj::Obj ? n->find(key) : nullptr;
            if (!n) { bad = "reference " + ref + " does not resolve"; return nullptr; }
            i = e;
        }
        return n;
    }
    static bool is_integer(const Node& v) { if (v.k != mj::Num) return false; if (mj::is_int_lit(v.s)) return true; double d = c_strtod(v.s.c_str()); return std::isfinite(d) && d == std::floor(d); }
    static bool type_is(const Node& v, const std::string& t) {
        switch (v.k) {
            case mj::Null: return t == "null"; case mj::Bool: return t == "boolean"; case mj::Str: return t == "string"; case mj::Arr: return t == "array"; case mj::Obj: return t == "object";
            case mj::Num: return t == "number" || (t == "integer" && is_integer(v));
        }
        return false;
    }
    static int cmp(const Node& a, const Node& b) {
        i128 x, y;
        if (mj::is_int_lit(a.s) && mj::is_int_lit(b.s)) {
            bool p = lit_to_i128(a.s, x), q = lit_to_i128(b.s, y);
            if (p && q) return x < y ? -1 : x > y;
        }
        double c = c_strtod(a.s.c_str()), d = c_strtod(b.s.c_str());
        return c < d ? -1 : c > d;
    }
    static bool equal(const Node& a, const Node& b) {
        if (a.k != b.k) return false;
        switch (a.k) {
            case mj::Null: return true; case mj::Bool: return a.b == b.b; case mj::Str: return a.s == b.s; case mj::Num: return cmp(a, b) == 0;
            case mj::Arr: if (a.a.size() != b.a.size()) return false; for (std::size_t i = 0; i < a.a.size(); ++i) if (!equal(a.a[i], b.a[i])) return false; return true;
            case mj::Obj: if (a.a.size() != b.a.size()) return false; for (std::size_t i = 0; i < a.a.size(); ++i) { auto* o = b.find(a.keys[i]); if (!o || !equal(a.a[i], *o)) return false; } return true;
        }
        return false;
    }
    bool ok(const Node& s, const Node& v) {
        if (!bad.empty()) return false;
        if (s.k == mj::Bool) return s.b;
        if (s.k != mj::Obj) { bad = "a schema is neither object nor boolean"; return false; }
        const Node *items = nullptr, *prefix = nullptr, *props = nullptr, *add = nullptr;
        bool good = true;
        for (std::size_t i = 0; i < s.a.size() && bad.empty(); ++i) {
            const std::string& k = s.keys[i];
            const Node& w = s.a[i];
            if (k == "$ref") { const Node* t = w.k == mj::Str ? deref(w.s) : nullptr; if (!t) { if (bad.empty()) bad = "$ref is not a string"; return false; } good = ok(*t, v) && good; }
            else if (k == "type") { bool m = false; if (w.k == mj::Str) m = type_is(v, w.s); else for (auto& x : w.a) m = m || type_is(v, x.s); good = good && m; }
            else if (k == "enum") { bool m = false; for (auto& x : w.a) m = m || equal(x, v); good = good && m; }
            else if (k == "const") good = good && equal(w, v);
            else if (k == "minimum") good = good && (v.k != mj::Num || cmp(v, w) >= 0);
            else if (k == "maximum") good = good && (v.k != mj::Num || cmp(v, w) <= 0);
            else if (k == "exclusiveMinimum") good = good && (v.k != mj::Num || cmp(v, w) > 0);
            else if (k == "exclusiveMaximum") good = good && (v.k != mj::Num || cmp(v, w) < 0);
            else if (k == "minItems" || k == "maxItems") {
                i128 c = 0;
                if (w.k != mj::Num || !lit_to_i128(w.s, c) || c < 0) { bad = k + " is not a non-negative integer"; return false; }
                if (v.k == mj::Arr) good = good && (k == "minItems" ? i128(v.a.size()) >= c : i128(v.a.size()) <= c);
            }
            else if (k == "uniqueItems") { if (w.k != mj::Bool) { bad = "uniqueItems is not a boolean"; return false; } if (w.b && v.k == mj::Arr) for (std::size_t p = 0; p < v.a.size() && good; ++p) for (std::size_t q = 0; q < p; ++q) if (equal(v.a[p], v.a[q])) { good = false; break; } }
            else if (k == "items") items = &w; else if (k == "prefixItems") prefix = &w; else if (k == "properties") props = &w; else if (k == "additionalProperties") add = &w;
            else if (k == "required") { if (w.k != mj::Arr) { bad = "required is not an array"; return false; } if (v.k == mj::Obj) for (auto& x : w.a) { if (x.k != mj::Str) { bad = "required has a non-string"; return false; } good = good && v.find(x.s); } }
            else if (k == "oneOf" || k == "anyOf" || k == "allOf") {
                if (w.k != mj::Arr || w.a.empty()) { bad = k + " is not a non-empty array"; return false; }
                std::size_t m = 0;
                for (auto& x : w.a) m += ok(x, v);
                good = good && (k == "oneOf" ? m == 1 : k == "anyOf" ? m >= 1 : m == w.a.size());
            }
            else if (k == "not") good = good && !ok(w, v);
            else if (k == "format" || k == "contentEncoding" || k == "definitions" || k == "$defs" || k == "$schema" || k == "$id" || k == "title" || k == "description" || k == "$comment" || k == "contentMediaType" || k == "default" || k == "examples") {}
            else { bad = "unknown keyword " + k; return false; }
        }
        if (items && items->k == mj::Arr) { bad = "items is an array, which this version of JSON Schema does not have"; return false; }
        if (prefix && prefix->k != mj::Arr) { bad = "prefixItems is not an array"; return false; }
        if (props && props->k != mj::Obj) { bad = "properties is not an object"; return false; }
        if (v.k == mj::Arr) for (std::size_t i = 0; i < v.a.size() && bad.empty() && good; ++i) {
            if (prefix && i < prefix->a.size()) good = ok(prefix->a[i], v.a[i]); else if (items) good = ok(*items, v.a[i]);
        }
        if (v.k == mj::Obj) for (std::size_t i = 0; i < v.a.size() && bad.empty() && good; ++i) {
            const Node* p = props ? props->find(v.keys[i]) : nullptr;
            if (p) good = ok(*p, v.a[i]); else if (add) good = ok(*add, v.a[i]);
        }
        return good && bad.empty();
    }
    /** Walks all sub-schemas: every reference must resolve, every keyword be known and well-formed. */
    void lint(const Node& n) {
        if (n.k == mj::Obj) {
            Node probe = Node::obj(); // an object that triggers no applicator, to make ok() look at the keywords
            (void)probe;
            if (auto* t = n.find("type")) if (t->k == mj::Str) { static const std::set<std::string> types = { "null", "boolean", "object", "array", "number", "integer", "string" }; if (!types.count(t->s)) bad = "unknown type " + t->s; }
            if (auto* r = n.find("$ref")) { if (r->k != mj::Str) bad = "$ref is not a string"; else deref(r->s); }
        }
        for (auto& c : n.a) if (bad.empty()) lint(c);
    }
};
std::map<const TypeOps*, Schema>& schemas() { static std::map<const TypeOps*, Schema> m; return m; }
}

void probe_known() {
    using V = std::variant<int, double>;
    auto rd = mj::read(persistence::schema_to_string<V>());
    Validator v{ rd.root, "" };
    std::string w = persistence::write_to_string(V(1));
    if (!v.ok(rd.root, mj::read(w).root)) mon.known("K4", "the schema of variant<int, double> refuses " + w + ", which is how variant<int, double>(1) is written, because oneOf matches twice");
}

void special(Rng& r) {
    if (mon.only >= 0) return;
    std::vector<const TypeOps*> types;
    for (auto& t : registry()) if (t.schema) types.push_back(&t);
    if (types.empty()) { std::fprintf(stderr, "no types\n"); std::exit(3); }
    for (int round = 0; round < 3; ++round) { // the text must not depend on what was generated before
        auto order = types;
        for (std::size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
        for (auto* t : order) {
            mon.doing("schema of " + t->name, "");
            std::string s = t->schema(), d = t->schema_doc();
            auto& e = schemas()[t];
            if (round == 0) {
                auto a = mj::read(s), b = mj::read(d);
                if (!a.ok || a.dup) { mon.fail(t->name + "|malformed", "schema is not well-formed JSON: " + show(s)); continue; }
                if (!b.ok || b.dup) { mon.fail(t->name + "|malformed document", "schema document is not well-formed JSON: " + show(d)); continue; }
                const Node* v = b.root.find("$schema");
                if (!v || v->k != mj::Str || v->s.find("json-schema.org") == std::string::npos) mon.fail(t->name + "|$schema", "schema document names no schema version: " + show(d));
                Node strip = b.root;
                for (std::size_t i = 0; i < strip.keys.size(); ++i) if (strip.keys[i] == "$schema") { strip.keys.erase(strip.keys.begin() + long(i)); strip.a.erase(strip.a.begin() + long(i)); break; }
                if (!Validator::equal(strip, a.root)) mon.fail(t->name + "|document", "schema document differs from the schema in more than $schema: " + show(d) + "\n" + show(s));
                Validator w{ a.root, "" };
                w.lint(a.root);
                if (!w.bad.empty()) mon.fail(t->name + "|unusable", w.bad + "\nschema: " + show(s));
                e.root = a.root;
                e.text = s;
            } else if (e.text != s) mon.fail(t->name + "|repeat", "schema text differs from that of an earlier call: " + show(e.text) + "\n" + show(s));
            mon.count("schemas_generated");
        }
    }
    std::uint64_t per = mon.tier == "thorough" ? 80000000 / mon.shards : 2000000 / mon.shards;
    for (std::uint64_t i = 0; i < per && !mon.enough(); ++i) {
        const TypeOps& t = *types[i % types.size()];
        auto it = schemas().find(&t);
        if (it == schemas().end() || it->second.text.empty()) continue;
        if (i % 128 == 0 && mon.late()) { mon.count("stopped_by_time_limit"); break; }
        mon.begin(i);
        Val x(t);
        Gen g(r);
        g.share = false;
        t.gen(g, x.p);
        Enc e{ JSON };
        Node n;
        if (!t.enc(e, x.p, n)) continue;
        bool written = r.chance(2, 5);
        std::string text;
        if (written) {
            if (t.write(x.p, text).o != OK) { mon.fail(t.name + "|write", "cannot write " + show(x.canon())); continue; }
            auto rd = mj::read(text);
            if (!rd.ok) continue;   // another property
            n = rd.root;
        } else {
            for (auto k = 1 + r.below(2) * r.below(3); k--;) mutate(r, n);
            text = mj::text(n);
            auto rd = mj::read(text);
            if (!rd.ok || rd.dup || rd.unspec || rd.over) { mon.count("no_verdict"); continue; }
            n = rd.root;
        }
        mon.doing("validate " + t.name, text);
        int want = t.admits(n);
        if (written && want != 1) { // formats have no verdict in general, but written values always conform; overlapping variants remain without one
            if (want == 0) { mon.fail(t.name + "|model", "the value model refuses a written value: " + show(text)); continue; }
            if (t.flags & F_VARIANT) { mon.count("no_verdict"); continue; }
            want = 1;
        }
        if (want == 2) { mon.count("no_verdict"); continue; }
        Validator v{ it->second.root, "" };
        bool got = v.ok(it->second.root, n);
        if (!v.bad.empty()) mon.fail(t.name + "|unusable", v.bad + "\nschema: " + show(it->second.text));
        else if (got != (want == 1)) mon.fail(t.name + (got ? "|admits" : "|refuses"), std::string("schema ") + (got ? "admits a document that violates the type: " : "refuses a document of the type: ") + show(text) + "\nschema: " + show(it->second.text));
        mon.count(written ? "written_values_validated" : want ? "other_documents_admitted" : "documents_refused");
        mon.count("type " + t.name);
        mon.saw(fnv(t.name + text), !trivial(text));
        mon.sample(t.name + ": " + (got ? "admits " : "refuses ") + text);
    }
}
