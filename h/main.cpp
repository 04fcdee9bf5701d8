#include <clocale>
#include <locale>
extern "C" void __lsan_disable() __attribute__((weak));
extern "C" void __lsan_enable() __attribute__((weak));
// Drivers: one workload and oracle per property, over the registered types.
#include "mon.hpp"
#include "blocks.hpp"
#include <persistence/utility.hpp>
#include <unistd.h>

Mon mon;
void register_groups();

static void foreign(const TypeOps& t, const char* op, const Res& r, const std::string& input) {
    if (r.o == EOTHER || r.o == EALLOC || (r.o == ESER)) mon.fail(t.name + "|" + op + "|foreign exception", std::string(op) + "<" + t.name + "> threw " + res_text(r) + "\ninput: " + show(input));
}
static std::string doc_text(const rapidjson::Document& d) { return persistence::document_to_string(d); }

// ---------------------------------------------------------------- C01
static void c01(std::uint64_t i, const TypeOps& t, Rng& r) {
    (void)i;
    Val x(t);
    generate(t, r, x.p, false, false, true);
    std::string text;
    mon.doing("write " + t.name, x.canon());
    Res w = t.write(x.p, text);
    if (w.o != OK) { mon.fail(t.name + "|write", "write_to_string failed: " + res_text(w) + "\nvalue: " + show(x.canon())); return; }
    std::string want = x.canon();
    mon.doing("parse " + t.name, text);
    Val y(t), z(t);
    Res p = t.parse(text, y.p), q = t.parse_v(text, z.p);
    if (p.o != OK || q.o != OK) { mon.fail(t.name + "|parse", "parse of written text failed: " + res_text(p) + " / " + res_text(q) + "\ntext: " + show(text)); return; }
    std::string a = y.canon(), b = z.canon();
    if (a != want || b != want) mon.fail(t.name + "|value", "round trip through text changed the value\ntext: " + show(text) + "\nwritten: " + show(want) + "\nparsed: " + show(a != want ? a : b));
    {   // a target that already holds a value: no trace of it, but members that the text lacks may keep what they had
        Val u(t), m(t);
        std::uint64_t s = r.next();
        Rng ra(s), rb(s);
        generate(t, ra, u.p, false, false); generate(t, rb, m.p, false, false);
        auto rd = mj::read(text);
        DecOut d = t.dec(PARSE, rd.root, m.p);
        if (rd.ok && d.st == 0) {
            mon.doing("parse(text, used target) " + t.name, text);
            Res res = t.parse(text, u.p);
            if (res.o != OK) mon.fail(t.name + "|used target|parse", "parse into a used target failed: " + res_text(res) + "\ntext: " + show(text));
            else if (std::string c = u.canon(); c != want && c != m.canon()) mon.fail(t.name + "|used target|value", "parsing into a used target gives another value\ntext: " + show(text) + "\nexpected: " + show(want) + "\nparsed: " + show(c));
            mon.count("reused_targets");
        }
    }
    mon.saw(fnv(t.name + text), !trivial(text));
    mon.count("type " + t.name);
    mon.count("bytes_written", text.size());
    mon.sample(t.name + " -> " + text);
}

// ---------------------------------------------------------------- C02
static void c02(std::uint64_t, const TypeOps& t, Rng& r) {
    Val x(t);
    generate(t, r, x.p, true, false, true);
    Node n;
    if (!expected_json(t, x.p, n)) return;
    std::string want = x.canon();
    {   // variants whose alternatives cannot be told apart in JSON are outside the claim
        Val m(t);
        DecOut d = t.dec(DOM, n, m.p);
        if (d.st != 0 || m.canon() != want) { mon.count("indistinguishable_skipped"); return; }
    }
    auto check = [&](const char* how, const Res& res, const void* got, const std::string& expect, const std::string& input) {
        mon.count("round_trips");
        if (res.o != OK) { mon.fail(t.name + "|" + how, std::string(how) + " failed: " + res_text(res) + "\ninput: " + show(input)); return; }
        std::string c = t.canon(got);
        if (c != expect) mon.fail(t.name + "|" + how + "|value", std::string(how) + " changed the value\ninput: " + show(input) + "\nexpected: " + show(expect) + "\ngot: " + show(c));
    };
    mon.doing("serialize " + t.name, want);
    rapidjson::Document d1, d2;
    Res s1 = t.ser(x.p, d1), s2 = t.ser_v(x.p, d2);
    if (s1.o != OK || s2.o != OK) { mon.fail(t.name + "|serialize", "serialize_to_document failed: " + res_text(s1) + "/" + res_text(s2) + "\nvalue: " + show(want)); return; }
    { Val y(t); mon.doing("deserialize(doc) " + t.name, want); check("serialize+deserialize(doc,target)", t.des_doc(d1, y.p), y.p, want, want); }
    { Val y(t); check("serialize+deserialize(doc)", t.des_doc_v(d2, y.p), y.p, want, want); }
    std::string text;
    mon.doing("write " + t.name, want);
    Res w = t.write(x.p, text);
    if (w.o != OK) { mon.fail(t.name + "|write", "write_to_string failed: " + res_text(w)); return; }
    mon.doing("deserialize(text) " + t.name, text);
    { Val y(t); auto d = persistence::string_to_document(text); check("write+string_to_document+deserialize", t.des_doc(d, y.p), y.p, want, text); }
    { Val y(t); auto d = persistence::string_to_document(std::string(text)); check("write+string_to_document(&&)+deserialize", t.des_doc_v(d, y.p), y.p, want, text); }
    { Val y(t); check("deserialize(text,target)", t.des(text, y.p), y.p, want, text); }
    { Val y(t); check("deserialize(text)", t.des_v(text, y.p), y.p, want, text); }
    { Val y(t); check("deserialize(text&&,target)", t.des_m(std::string(text), y.p), y.p, want, text); }
    { Val y(t); check("deserialize(text&&)", t.des_mv(std::string(text), y.p), y.p, want, text); }
    {   // a target that already holds a value
        Val y(t), m(t);
        std::uint64_t s = r.next();
        Rng ra(s), rb(s);
        generate(t, ra, y.p, true, false); generate(t, rb, m.p, true, false);
        DecOut d = t.dec(DOM, n, m.p);
        if (d.st == 0) { std::string expect = m.canon(); mon.doing("deserialize(text, used target) " + t.name, text); check("deserialize(text, used target)", t.des(text, y.p), y.p, expect, text); mon.count("reused_targets"); }
    }
    mon.saw(fnv(t.name + text), !trivial(text));
    mon.count("type " + t.name);
    mon.sample(t.name + " -> " + text);
}

// ---------------------------------------------------------------- C03
static void c03(std::uint64_t, const TypeOps& t, Rng& r) {
    Val x(t);
    bool bad = r.chance(1, 3);
    generate(t, r, x.p, true, bad, true);
    std::string value = x.canon();
    mon.doing("write/serialize " + t.name, value);
    std::string a, b;
    rapidjson::Document d1, d2;
    Res w = t.write(x.p, a), wv = t.write_v(x.p, b), s = t.ser(x.p, d1), sv = t.ser_v(x.p, d2);
    bool wo = w.o == OK, so = s.o == OK;
    std::string detail = "write: " + res_text(w) + ", write value: " + res_text(wv) + ", serialize: " + res_text(s) + ", serialize value: " + res_text(sv) + "\nvalue: " + show(value);
    if (wo != so || (wv.o == OK) != wo || (sv.o == OK) != so) { mon.fail(t.name + "|outcome", "paths disagree on whether the value can be written; " + detail); return; }
    if (wo) {
        std::string c = doc_text(d1), d = doc_text(d2);
        if (a != c || a != b || a != d) mon.fail(t.name + "|text", "paths produce different JSON; write: " + show(a) + "\nserialize: " + show(a != c ? c : a != d ? d : b) + "\nvalue: " + show(value));
        // a document that held something else before, and one whose allocator is reused
        rapidjson::Document used;
        used.Parse("{\"old\":[1,2,3]}");
        Res u = t.ser(x.p, used);
        if (u.o != OK || doc_text(used) != a) mon.fail(t.name + "|used document", "serializing into a used document differs: " + show(doc_text(used)) + "\nexpected: " + show(a));
        std::string used_s = "previous content";
        Res us = t.write(x.p, used_s);
        if (us.o != OK || used_s != a) mon.fail(t.name + "|used string", "writing into a used string differs: " + show(used_s) + "\nexpected: " + show(a));
        mon.count("both_succeed");
    } else mon.count("both_fail");
    mon.saw(fnv(t.name + value), !trivial(a) || !wo);
    mon.count("type " + t.name);
    mon.sample(t.name + " -> " + (wo ? a : std::string("rejected by both: ") + value));
}

// ---------------------------------------------------------------- C04
static void c04(std::uint64_t, const TypeOps& t, Rng& r) {
    Val x(t);
    generate(t, r, x.p, true, r.chance(1, 5), true);
    std::string value = x.canon();
    Node want;
    bool can = expected_json(t, x.p, want);
    mon.doing("write/serialize " + t.name, value);
    std::string texts[2];
    rapidjson::Document d;
    Res w = t.write(x.p, texts[0]), s = t.ser(x.p, d);
    if (s.o == OK) texts[1] = doc_text(d);
    for (int k = 0; k < 2; ++k) {
        const char* op = k ? "serialize_to_document" : "write_to_string";
        const Res& res = k ? s : w;
        if ((res.o == OK) != can) { mon.fail(t.name + "|" + op + "|outcome", std::string(op) + " gave " + res_text(res) + " for a value that can" + (can ? "" : "not") + " be written\nvalue: " + show(value)); continue; }
        if (!can) { mon.count("unwritable_rejected"); continue; }
        auto rd = mj::read(texts[k]);
        if (!rd.ok) { mon.fail(t.name + "|" + op + "|malformed", std::string(op) + " wrote text that is not JSON at byte " + std::to_string(rd.err) + ": " + show(texts[k]) + "\nvalue: " + show(value)); continue; }
        std::string why;
        if (!mj::same(want, rd.root, why)) mon.fail(t.name + "|" + op + "|encoding", std::string(op) + ": " + why + "\ntext: " + show(texts[k]) + "\nexpected: " + show(mj::text(want)));
        mon.count("texts_checked");
    }
    mon.saw(fnv(t.name + value), can && !trivial(texts[0]));
    mon.count("type " + t.name);
    mon.sample(t.name + " -> " + texts[0]);
}

// ---------------------------------------------------------------- C05, C06: conformance
static const char* verdict_names[] = { "accepted", "rejected_by_type", "no_verdict" };
static void conform(const TypeOps& t, const Doc& doc, bool parse_side, bool locate) {
    const std::string& text = doc.text;
    auto rd = mj::read(text);
    bool verdict = !(rd.unspec || rd.dup);
    if (!verdict) mon.count("no_verdict");
    Val m(t);
    DecOut d{ 1, false, "", "malformed", 0, 0 };
    if (rd.ok && verdict) { d = t.dec(parse_side ? PARSE : DOM, rd.root, m.p); if (d.st == 2) { verdict = false; mon.count("no_verdict"); } }
    bool accept = rd.ok && d.st == 0;
    std::string want = accept && verdict ? m.canon() : std::string();
    std::string ctx = "\ntext: " + show(text) + "\nreference: " + (accept ? "accept " + show(want) : "reject, " + (rd.ok ? d.why + " at " + d.path : "not JSON at byte " + std::to_string(rd.err))) + "\nmutation: " + doc.how;
    auto check = [&](const char* op, const Res& res, const Val& y) {
        mon.count("calls");
        foreign(t, op, res, text);
        if (!verdict) return;
        bool got = res.o == OK;
        if (parse_side && accept && d.missing && !got) return; // see K1: rejecting would be right, too
        if (rd.over && !got) return;                           // a number beyond the range of double may be refused anywhere
        if (got != accept) { mon.fail(t.name + "|" + op + "|" + (accept ? "rejects valid" : "accepts invalid"), std::string(op) + "<" + t.name + "> gave " + res_text(res) + ctx); return; }
        if (got) { std::string c = y.canon(); if (c != want) mon.fail(t.name + "|" + op + "|value", std::string(op) + "<" + t.name + "> gave the value " + show(c) + ctx); }
        else if (locate) {
            if (res.o == EDESER && rd.ok && res.path != d.path) mon.fail(t.name + "|" + op + "|path", std::string(op) + " reports path '" + res.path + "', the offending value is at '" + d.path + "'" + ctx);
            if (res.o == EPARSE && rd.ok && !(res.offset >= d.b && res.offset <= d.e)) mon.fail(t.name + "|" + op + "|offset", std::string(op) + " reports offset " + std::to_string(res.offset) + ", the offending token is at " + std::to_string(d.b) + ".." + std::to_string(d.e) + ctx);
            if (res.o == EPARSE && res.offset > text.size()) mon.fail(t.name + "|" + op + "|offset", "offset beyond the text" + ctx);
            mon.count("locations_checked");
        }
    };
    if (parse_side) {
        mon.doing("parse " + t.name, text);
        Val a(t), b(t);
        check("parse(text,target)", t.parse(text, a.p), a);
        check("parse(text)", t.parse_v(text, b.p), b);
    } else {
        mon.doing("deserialize " + t.name, text);
        { Val y(t); check("deserialize(text,target)", t.des(text, y.p), y); }
        { Val y(t); check("deserialize(text)", t.des_v(text, y.p), y); }
        { Val y(t); check("deserialize(text&&,target)", t.des_m(std::string(text), y.p), y); }
        { Val y(t); check("deserialize(text&&)", t.des_mv(std::string(text), y.p), y); }
        { Val y(t); auto doc = persistence::string_to_document(text); check("deserialize(document,target)", t.des_doc(doc, y.p), y); }
        { Val y(t); auto doc = persistence::string_to_document(std::string(text)); check("deserialize(document)", t.des_doc_v(doc, y.p), y); }
    }
    mon.saw(fnv(t.name + text), verdict && !trivial(text));
    if (verdict) mon.count(!rd.ok ? "malformed" : verdict_names[d.st]);
    mon.count("type " + t.name);
    mon.sample(t.name + " <- " + text + "  => " + (accept ? "accept" : "reject"));
}
static void c05(std::uint64_t, const TypeOps& t, Rng& r) { static auto pool = types_with(F_PARSE); conform(t, make_document(t, r, pool), true, false); }
static void c06(std::uint64_t, const TypeOps& t, Rng& r) { static auto pool = types_with(F_DESER); conform(t, make_document(t, r, pool), false, false); }

// ---------------------------------------------------------------- C07: numbers
static void c07(std::uint64_t i, const TypeOps& t, Rng& r) {
    // documents whose numbers are boundary literals
    Node n = base_document(t, r);
    std::vector<Node*> nodes, nums;
    all_nodes(n, nodes);
    for (auto* x : nodes) if (x->k == mj::Num) nums.push_back(x);
    if (nums.empty()) { mon.count("no_numbers"); return; }
    auto k = 1 + r.below(r.chance(1, 3) ? nums.size() : 1);
    while (k--) nums[r.below(nums.size())]->s = boundary_number(r);
    Doc d{ mj::text(n), "numbers" };
    if (t.parse) conform(t, d, true, false);
    if (t.des) conform(t, d, false, false);
    // and every finite value survives both paths, non-finite ones are refused
    if (i % 3 == 0) {
        Val x(t);
        generate(t, r, x.p, false, r.chance(1, 4));
        Node want;
        bool can = expected_json(t, x.p, want);
        std::string value = x.canon(), text, dom;
        mon.doing("write numbers " + t.name, value);
        rapidjson::Document doc;
        Res w = t.write(x.p, text), s = t.ser(x.p, doc);
        if ((w.o == OK) != can || (s.o == OK) != can) { mon.fail(t.name + "|outcome", "write " + res_text(w) + ", serialize " + res_text(s) + " for " + show(value)); return; }
        if (!can) { mon.count("unwritable_rejected"); return; }
        dom = doc_text(doc);
        std::string why;
        for (auto* o : { &text, &dom }) { auto rd = mj::read(*o); if (!rd.ok || !mj::same(want, rd.root, why)) mon.fail(t.name + "|written number", "written: " + show(*o) + " expected: " + show(mj::text(want)) + " " + why); }
        if (t.parse) { Val y(t); Res p = t.parse(text, y.p); if (p.o != OK || y.canon() != value) mon.fail(t.name + "|parse round trip", show(text) + " parsed as " + show(y.canon()) + " " + res_text(p) + ", was " + show(value)); }
        if (t.des && !(t.flags & F_VARIANT)) {
            Val y(t); Res p = t.des(text, y.p); if (p.o != OK || y.canon() != value) mon.fail(t.name + "|deserialize round trip", show(text) + " read as " + show(y.canon()) + " " + res_text(p) + ", was " + show(value));
            Val z(t); p = t.des_doc(doc, z.p); if (p.o != OK || z.canon() != value) mon.fail(t.name + "|document round trip", show(dom) + " read as " + show(z.canon()) + " " + res_text(p) + ", was " + show(value));
        }
        mon.count("value_round_trips");
    }
}

// ---------------------------------------------------------------- C08: error contract
static void c08(std::uint64_t i, const TypeOps& t, Rng& r) {
    if (i % 2 == 0 || !(t.flags & (F_PARSE | F_DESER))) {
        Val x(t);
        generate(t, r, x.p, true, r.chance(2, 3));
        Node want;
        bool can = expected_json(t, x.p, want);
        std::string value = x.canon();
        mon.doing("write " + t.name, value);
        const std::string before = "untouched \x01 content";
        std::string a = before, b = before;
        rapidjson::Document d1, d2;
        Res w = t.write(x.p, a), wv = t.write_v(x.p, b), s = t.ser(x.p, d1), sv = t.ser_v(x.p, d2);
        std::string detail = "write: " + res_text(w) + ", write value: " + res_text(wv) + ", serialize: " + res_text(s) + ", serialize value: " + res_text(sv) + "\nvalue: " + show(value);
        if (w.o != (can ? OK : NO) || s.o != (can ? OK : NO)) mon.fail(t.name + "|write|bool", "boolean overload: " + detail);
        if (wv.o != (can ? OK : ESER) || sv.o != (can ? OK : ESER)) mon.fail(t.name + "|write|throw", "value overload: " + detail);
        if (!can && a != before) mon.fail(t.name + "|write|target", "failed write changed the target string to " + show(a) + "; " + detail);
        if (!can) mon.count("unwritable_values");
        mon.saw(fnv(t.name + value), !can || value.size() > 4);
        return;
    }
    static auto pool = types_with(F_DESER);
    Doc doc = make_document(t, r, pool);
    const std::string& text = doc.text;
    auto rd = mj::read(text);
    if (rd.unspec || rd.over) { mon.count("no_verdict"); return; }
    auto pair = [&](const char* op, const Res& b, const Res& v, Out bad) {
        std::string detail = std::string(op) + "<" + t.name + ">: filling overload " + res_text(b) + ", returning overload " + res_text(v) + "\ntext: " + show(text);
        if (b.o != OK && b.o != NO) mon.fail(t.name + "|" + op + "|bool throws", detail);
        if ((b.o == OK) != (v.o == OK)) mon.fail(t.name + "|" + op + "|overloads disagree", detail);
        if (v.o != OK && v.o != bad) mon.fail(t.name + "|" + op + "|exception type", detail);
        if (v.o != OK && v.what.empty()) mon.fail(t.name + "|" + op + "|no message", detail);
        mon.count(b.o == OK ? "successes" : "failures");
    };
    if (t.parse) {
        mon.doing("parse " + t.name, text);
        Val a(t), b(t);
        pair("parse", t.parse(text, a.p), t.parse_v(text, b.p), EPARSE);
    }
    if (t.des) {
        mon.doing("deserialize " + t.name, text);
        Out bad = rd.ok ? EDESER : EPARSE;
        { Val a(t), b(t); pair("deserialize(text)", t.des(text, a.p), t.des_v(text, b.p), bad); }
        { Val a(t), b(t); pair("deserialize(text&&)", t.des_m(std::string(text), a.p), t.des_mv(std::string(text), b.p), bad); }
        {
            auto d = persistence::string_to_document(text);
            Val a(t), b(t);
            Res x = t.des_doc(d, a.p);
            pair("deserialize(document)", x, t.des_doc_v(d, b.p), bad);
        }
    }
    mon.saw(fnv(t.name + text), !trivial(text));
    mon.count("type " + t.name);
    mon.sample(t.name + " <- " + text);
}

// ---------------------------------------------------------------- C09: error locations
static void c09(std::uint64_t i, const TypeOps& t, Rng& r) {
    Node n = base_document(t, r);
    mj::Style st;
    st.r = &r; st.space = r.chance(1, 3); st.escape = r.chance(1, 4); st.shuffle = r.chance(1, 3);
    if (i % 4 == 3) { // malformed text: the error is where the text stops being JSON
        std::string text = mj::text(n, st);
        const char* how = mutate_text(r, text);
        auto rd = mj::read(text);
        if (rd.ok || rd.unspec || rd.over || text.find('\0') != std::string::npos) { mon.count("still_json"); return; }
        mon.doing("locate syntax error " + t.name, text);
        auto look = [&](const char* op, const Res& res) {
            if (res.o != EPARSE) { mon.fail(t.name + "|" + op + "|syntax outcome", std::string(op) + " gave " + res_text(res) + " on malformed text " + show(text)); return; }
            // within the token that breaks the text; a bad escape or string is reported somewhere in that string
            std::size_t lo = rd.err, hi = rd.err;
            while (lo > 0 && !std::strchr("[]{},: \n\r\t", text[lo - 1])) --lo;
            if (lo > 0) --lo;
            for (std::size_t q = 0, inside = 0, start = 0; q < rd.err && q < text.size(); ++q) { // enclosing string
                if (!inside && text[q] == '"') { inside = 1; start = q; }
                else if (inside && text[q] == '\\') ++q;
                else if (inside && text[q] == '"') inside = 0;
                if (q + 1 >= rd.err && inside) lo = std::min(lo, start);
            }
            hi = std::min(text.size(), rd.err + 12);
            if (res.offset < lo || res.offset > hi) mon.fail(t.name + "|" + op + "|syntax offset", std::string(op) + " reports offset " + std::to_string(res.offset) + ", the text stops being JSON at " + std::to_string(rd.err) + " (token " + std::to_string(lo) + ".." + std::to_string(hi) + ")\ntext: " + show(text) + "\nmutation: " + how);
            mon.count("syntax_locations_checked");
        };
        if (t.des) { Val y(t); look("deserialize(text)", t.des_v(text, y.p)); Val z(t); look("deserialize(text&&)", t.des_mv(std::string(text), z.p)); }
        mon.saw(fnv(t.name + text), true);
        return;
    }
    // inject one fault at one place; every place is eventually chosen
    std::vector<Node*> nodes;
    all_nodes(n, nodes);
    Node& x = *nodes[r.below(nodes.size())];
    std::string how;
    switch (r.below(7)) {
        case 0: x = x.k == mj::Null ? Node::boolean(true) : Node::null(); how = "null"; break;
        case 1: x = x.k == mj::Obj ? Node::arr() : Node::obj(); how = "object"; break;
        case 2: x = x.k == mj::Str ? Node::num("12345678901234567890123") : Node::str("no"); how = "string"; break;
        case 3: if (x.k == mj::Num) { x.s = r.chance(1, 2) ? "1e300" : "123456789012345678901234"; how = "number"; } else { x = Node::num("1.5"); how = "number"; } break;
        case 4: if (!x.a.empty()) { auto k = r.below(x.a.size()); x.a.erase(x.a.begin() + k); if (x.k == mj::Obj) x.keys.erase(x.keys.begin() + k); how = "remove"; } break;
        case 5: if (x.k == mj::Arr) { Node c = x.a.empty() ? Node::null() : x.a[0]; x.a.push_back(c); how = "extra element"; } else if (x.k == mj::Obj) { x.add("unknown\tkey") = Node::null(); how = "extra member"; } break;
        default: how = mutate(r, n); break;
    }
    if (r.chance(1, 10)) { mutate(r, n); how += "+1"; }
    Doc d{ mj::text(n, st), how };
    if (t.des) conform(t, d, false, true);
    if (t.parse) conform(t, d, true, true);
}

// ---------------------------------------------------------------- C10: sharing
static void c10(std::uint64_t i, const TypeOps& t, Rng& r) {
    Val x(t);
    generate(t, r, x.p, true, false);
    Enc e{ JSON };
    Node want;
    if (!t.enc(e, x.p, want)) return;
    std::string value = x.canon();
    mon.count("shared_pointers", e.shared_seen);
    mon.count("back_references", e.shared_reused);
    mon.doing("write shared " + t.name, value);
    std::string text, dom;
    rapidjson::Document doc;
    Res w = t.write(x.p, text), s = t.ser(x.p, doc);
    if (w.o != OK || s.o != OK) { mon.fail(t.name + "|write", "write " + res_text(w) + " serialize " + res_text(s) + "\nvalue: " + show(value)); return; }
    dom = doc_text(doc);
    std::string why;
    for (auto* o : { &text, &dom }) {
        auto rd = mj::read(*o);
        if (!rd.ok || !mj::same(want, rd.root, why)) mon.fail(t.name + "|encoding", "wrong encoding of shared objects: " + why + "\ntext: " + show(*o) + "\nexpected: " + show(mj::text(want)));
    }
    auto restored = [&](const char* op, const Res& res, const Val& y) {
        if (res.o != OK) { mon.fail(t.name + "|" + op, std::string(op) + " failed: " + res_text(res) + "\ntext: " + show(text)); return; }
        Enc c{ CANON };
        Node k;
        t.enc(c, y.p, k);
        if (mj::text(k) != value) mon.fail(t.name + "|" + op + "|sharing", std::string(op) + " restored different sharing or values\ntext: " + show(text) + "\nexpected: " + show(value) + "\ngot: " + show(mj::text(k)));
        for (auto& [p, u] : c.uses) if (u.first != u.second) { mon.fail(t.name + "|" + op + "|use_count", std::string(op) + ": an object held by " + std::to_string(u.first) + " pointers of the result has use_count " + std::to_string(u.second) + "\ntext: " + show(text)); break; }
        mon.count("restored_graphs");
    };
    Val m(t);
    DecOut dm = t.dec(DOM, want, m.p);
    if (dm.st == 0 && m.canon() == value) { // variants aside, always
        mon.doing("deserialize shared " + t.name, text);
        { Val y(t); Res q = t.des(text, y.p); restored("deserialize(text,target)", q, y); }
        { Val y(t); Res q = t.des_v(text, y.p); restored("deserialize(text)", q, y); }
        { Val y(t); Res q = t.des_m(std::string(text), y.p); restored("deserialize(text&&,target)", q, y); }
        { Val y(t); Res q = t.des_mv(std::string(text), y.p); restored("deserialize(text&&)", q, y); }
        { Val y(t); Res q = t.des_doc(doc, y.p); restored("deserialize(document,target)", q, y); }
        { Val y(t); Res q = t.des_doc_v(doc, y.p); restored("deserialize(document)", q, y); }
    }
    // hostile references
    std::vector<Node*> nodes, refs, spots;
    all_nodes(want, nodes);
    for (auto* k : nodes) if (k->k == mj::Obj && k->keys.size() == 1 && k->keys[0] == "$ref") refs.push_back(k);
    std::vector<std::string> ptrs = { "", "/", "/0", "/1", "/x", "//", "/-", "/00", "/~", "/~2", "~0", "x", "/a/b", "/0/0", "/vec/0", "/18446744073709551616", "/4294967296", "/01", " /0", "/0/" };
    std::vector<std::pair<const Node*, std::string>> where;
    auto walk = [&](auto&& self, const Node& k, const std::string& p) -> void {
        where.emplace_back(&k, p);
        for (std::size_t j = 0; j < k.a.size(); ++j) self(self, k.a[j], p + "/" + (k.k == mj::Obj ? escape_pointer(k.keys[j]) : std::to_string(j)));
    };
    walk(walk, want, "");
    std::string how;
    Node* at = nullptr;
    if (!refs.empty() && r.chance(2, 3)) at = refs[r.below(refs.size())]; else at = nodes[r.below(nodes.size())];
    std::string target = r.chance(1, 3) ? ptrs[r.below(ptrs.size())] : where[r.below(where.size())].second;
    if (r.chance(1, 8)) target = tweak_string(r, target);
    Node ref = Node::obj();
    switch (r.below(10)) {
        case 0: ref.add("$ref") = Node::num("1"); how = "number"; break;
        case 1: ref.add("$ref") = Node::null(); how = "null"; break;
        case 2: ref.add("$ref") = Node::str(target); ref.add("extra") = Node::num("1"); how = "extra"; break;
        case 3: ref.add("id") = Node::num("1"); ref.add("$ref") = Node::str(target); how = "second"; break;
        default: ref.add("$ref") = Node::str(target); how = "pointer " + target;
    }
    *at = ref;
    conform(t, Doc{ mj::text(want), "ref " + how }, false, i % 2 == 0);
    mon.saw(fnv(t.name + text), e.shared_reused > 0);
    mon.sample(t.name + " -> " + text);
}

// ---------------------------------------------------------------- C19: variants
static void c19(std::uint64_t, const TypeOps& t, Rng& r) {
    static auto pool = types_with(F_VARIANT);
    {   // written exactly as the active alternative
        Val x(t);
        generate(t, r, x.p, true, r.chance(1, 5));
        Node want;
        bool can = expected_json(t, x.p, want);
        mon.doing("write variant " + t.name, x.canon());
        std::string text;
        rapidjson::Document doc;
        Res w = t.write(x.p, text), s = t.ser(x.p, doc);
        if ((w.o == OK) != can || (s.o == OK) != can) mon.fail(t.name + "|write outcome", "write " + res_text(w) + " serialize " + res_text(s) + "\nvalue: " + show(x.canon()));
        else if (can) {
            std::string why;
            for (auto& o : { text, doc_text(doc) }) { auto rd = mj::read(o); if (!rd.ok || !mj::same(want, rd.root, why)) mon.fail(t.name + "|encoding", why + "\ntext: " + show(o) + "\nexpected: " + show(mj::text(want))); }
        }
    }
    conform(t, make_document(t, r, pool, false), false, false);
    {   // the same through a target that held another alternative
        Node n = base_document(t, r);
        if (r.chance(1, 2)) mutate(r, n);
        std::string text = mj::text(n);
        auto rd = mj::read(text);
        Val y(t), m(t);
        std::uint64_t s = r.next();
        Rng ra(s), rb(s);
        generate(t, ra, y.p, true, false); generate(t, rb, m.p, true, false);
        if (!rd.ok || rd.unspec || rd.dup || rd.over) return;
        DecOut d = t.dec(DOM, rd.root, m.p);
        if (d.st == 2) return;
        mon.doing("deserialize into used variant " + t.name, text);
        Res q = t.des(text, y.p);
        if ((q.o == OK) != (d.st == 0)) mon.fail(t.name + "|used target|outcome", res_text(q) + "\ntext: " + show(text));
        else if (d.st == 0 && y.canon() != m.canon()) mon.fail(t.name + "|used target|value", "expected " + show(m.canon()) + "\ngot " + show(y.canon()) + "\ntext: " + show(text));
        mon.count("reused_targets");
    }
}

// ---------------------------------------------------------------- C21: purity
static Node sorted(Node n) {
    for (auto& c : n.a) c = sorted(std::move(c));
    if (n.k == mj::Obj) {
        std::vector<std::size_t> ix(n.a.size());
        for (std::size_t i = 0; i < ix.size(); ++i) ix[i] = i;
        std::sort(ix.begin(), ix.end(), [&](auto a, auto b) { return n.keys[a] < n.keys[b]; });
        Node m = n;
        for (std::size_t i = 0; i < ix.size(); ++i) { m.keys[i] = n.keys[ix[i]]; m.a[i] = n.a[ix[i]]; }
        return m;
    }
    return n;
}
static std::string perform(const TypeOps& t, int op, const void* x, const std::string& text, rapidjson::Document& doc) {
    std::string s;
    Val y(t);
    Res r;
    switch (op) {
        case 0: r = t.write(x, s); return res_text(r) + s;
        case 1: {   // sometimes into a document that holds the result of an earlier operation
            static std::unique_ptr<rapidjson::Document> used;
            static unsigned turn = 0;
            if (++turn % 5 == 0) used.reset();
            if (!used) used = std::make_unique<rapidjson::Document>();
            rapidjson::Document& d = *used;
            r = t.ser(x, d); return res_text(r) + (r.o == OK ? doc_text(d) : ""); }
        case 2: if (!t.parse) return ""; r = t.parse(text, y.p); return res_text(r) + (r.o == OK ? y.canon() : "");
        case 3: if (!t.parse) return ""; r = t.parse_v(text, y.p); return res_text(r) + (r.o == OK ? y.canon() : "");
        case 4: if (!t.des) return ""; r = t.des(text, y.p); return res_text(r) + (r.o == OK ? y.canon() : "");
        case 5: if (!t.des) return ""; r = t.des_v(text, y.p); return res_text(r) + (r.o == OK ? y.canon() : "");
        case 6: if (!t.des) return ""; r = t.des_m(std::string(text), y.p); return res_text(r) + (r.o == OK ? y.canon() : "");
        case 7: if (!t.des) return ""; r = t.des_doc(doc, y.p); return res_text(r) + (r.o == OK ? y.canon() : "");
        case 8: if (!t.des) return ""; r = t.des_doc_v(doc, y.p); return res_text(r) + (r.o == OK ? y.canon() : "");
        case 9: { r = t.write_v(x, s); return res_text(r) + s; }
    }
    return "";
}
static void c21(std::uint64_t i, const TypeOps& t0, Rng& r) {
    // a history over several types; every operation is repeated in another order and must repeat its result
    static auto pool = types_with(0);
    struct Slot { const TypeOps* t; Val x; std::string canon, text; rapidjson::Document doc; std::string doc_before; std::map<int, std::string> results; };
    std::vector<std::unique_ptr<Slot>> slots;
    for (int k = 0; k < 4; ++k) {
        const TypeOps* t = k == 0 ? &t0 : pool[r.below(pool.size())];
        Val x(*t);
        generate(*t, r, x.p, true, r.chance(1, 5));
        std::string c = x.canon();
        auto s = std::unique_ptr<Slot>(new Slot{ t, std::move(x), c, "", {}, "", {} });
        static auto dp = types_with(F_DESER);
        s->text = make_document(*(t->des ? t : dp[0]), r, dp).text;
        s->doc = persistence::string_to_document(s->text);
        s->doc_before = doc_text(s->doc);
        slots.push_back(std::move(s));
    }
    std::vector<std::pair<int, int>> plan;
    for (int k = 0; k < 4; ++k) for (int op = 0; op < 10; ++op) for (int rep = 0; rep < 2; ++rep) plan.emplace_back(k, op);
    for (std::size_t k = plan.size(); k > 1; --k) std::swap(plan[k - 1], plan[r.below(k)]);
    std::uint64_t h = i;
    for (auto [k, op] : plan) {
        Slot& s = *slots[k];
        const std::string text_before = s.text;
        mon.doing("history op " + std::to_string(op) + " " + s.t->name, s.text + "\n" + s.canon);
        std::string res = perform(*s.t, op, s.x.p, s.text, s.doc);
        mon.count("operations");
        h = mix(h, fnv(res));
        auto [it, fresh] = s.results.emplace(op, res);
        if (!fresh && it->second != res) mon.fail(s.t->name + "|op" + std::to_string(op) + "|history", "the same operation gave different results at different times: " + show(it->second) + "\nthen: " + show(res) + "\ntext: " + show(s.text));
        if (s.x.canon() != s.canon) { mon.fail(s.t->name + "|op" + std::to_string(op) + "|source object", "an operation changed its source object: " + show(s.canon) + " -> " + show(s.x.canon())); s.canon = s.x.canon(); }
        if (s.text != text_before) mon.fail(s.t->name + "|op" + std::to_string(op) + "|source text", "an operation changed its source text " + show(text_before));
        if (op >= 7 && op <= 8 && doc_text(s.doc) != s.doc_before) { mon.fail(s.t->name + "|op" + std::to_string(op) + "|source document", "deserializing changed the document: " + show(s.doc_before) + " -> " + show(doc_text(s.doc))); s.doc_before = doc_text(s.doc); }
    }
    // writing what was read gives the text of the first writing
    Slot& s = *slots[0];
    std::string a;
    if (s.t->write(s.x.p, a).o == OK) {
        bool unordered = s.t->name.find("unordered") != std::string::npos || s.t->name == "CCont" || s.t->name == "SGraph";
        auto again = [&](const char* op, Res res, const Val& y) {
            if (res.o != OK) return; // other properties decide that
            std::string b;
            if (s.t->write(y.p, b).o != OK) { mon.fail(s.t->name + "|" + op + "|rewrite fails", "value read from " + show(a) + " cannot be written"); return; }
            bool eq = a == b;
            if (!eq && unordered) { auto p = mj::read(a), q = mj::read(b); eq = p.ok && q.ok && (s.t->flags & F_SHARE || mj::text(sorted(p.root)) == mj::text(sorted(q.root))); }
            if (!eq) mon.fail(s.t->name + "|" + op + "|rewrite differs", "first text: " + show(a) + "\nsecond text: " + show(b));
            mon.count("rewrites");
        };
        auto ra = mj::read(a);
        bool refs = a.find("\"$ref\"") != std::string::npos;
        if (s.t->parse && !refs) { Val y(*s.t); again("parse", s.t->parse(a, y.p), y); }
        if (s.t->des && !(s.t->flags & F_VARIANT)) { Val y(*s.t); again("deserialize", s.t->des(a, y.p), y); }
    }
    mon.saw(h, true);
    mon.sample("history of " + std::to_string(plan.size()) + " operations on " + slots[0]->t->name + ", " + slots[1]->t->name + ", " + slots[2]->t->name + ", " + slots[3]->t->name);
}

// ---------------------------------------------------------------- C14 (decided by the sanitizers the binary is built with)
static std::string hostile_text(const TypeOps& t, Rng& r) {
    static auto pool = types_with(F_DESER);
    const TypeOps& base = t.des ? t : *pool[r.below(pool.size())];
    auto valid = [&] { mj::Style st; st.r = &r; st.space = r.chance(1, 4); st.escape = r.chance(1, 4); st.shuffle = r.chance(1, 4); return mj::text(base_document(base, r), st); };
    static const char* tokens[] = { "{", "}", "[", "]", ",", ":", "null", "true", "false", "0", "-1", "1.5", "1e5", "\"\"", "\"a\"", "\"$ref\"", "\"/0\"", "\"\\u0000\"", "\"\\ud800\"", "\"AAAA\"", "\"2000-01-01\"", "\"2000-01-01T00:00:00Z\"", " ", "\n", "\"value\"", "18446744073709551616", "\"\\", "\"\xff\"", "\"\xc0\x80\"", "/**/", "nul", "1e400", "-0", "00" };
    std::string s;
    switch (r.below(12)) {
        case 0: case 1: case 2: return make_document(base, r, pool).text;
        case 3: s = valid(); return s.substr(0, r.below(s.size() + 1));
        case 4: case 5: s = valid(); for (auto n = 1 + r.below(12); n-- && !s.empty();) s[r.below(s.size())] = r.chance(1, 2) ? char(r.next()) : "{}[],:\"\\0-.eE/ntf"[r.below(18)]; return s;
        case 6: for (auto n = r.below(60); n--;) s += tokens[r.below(std::size(tokens))]; return s;
        case 7: for (auto n = r.below(200); n--;) s += char(r.next()); return s;
        case 8: { auto n = r.below(r.chance(1, 8) ? 2000 : 200); const char* o[] = { "[", "{\"kids\":[", "{\"sub\":{\"x\":", "{\"next\":", "[[1,", "{\"a\":" }; auto* p = o[r.below(6)]; while (n--) s += p; if (r.chance(1, 2)) s += "1"; return s; }
        case 9: { s = valid(); auto p = r.below(s.size() + 1); auto q = r.below(s.size() + 1); return s.substr(0, p) + valid() + s.substr(std::min(q, s.size())); }
        case 10: { s = valid(); if (!s.empty()) { auto p = r.below(s.size()); auto n = 1 + r.below(20); s.erase(p, n); } return s; }
        default: { s = valid(); auto p = s.find('"', r.below(s.size() + 1)); if (p != std::string::npos) s.insert(p + 1, std::string(r.below(r.chance(1, 20) ? 100000 : 64), r.chance(1, 2) ? 'A' : '=')); return s; }
    }
}
static void c14(std::uint64_t, const TypeOps& t, Rng& r) {
    const bool deep = r.chance(1, 1000);
    std::string text = deep ? std::string() : hostile_text(t, r);
    if (deep) { auto n = r.below(100000); const char* o[] = { "[", "{\"zz\":", "[[1],", "{\"\":[" }; auto* p = o[r.below(4)]; while (n--) text += p; mon.count("very deep texts"); }
    text.shrink_to_fit();
    Val used(t);
    generate(t, r, used.p, true, r.chance(1, 4));
    int rejected = 0, accepted = 0;
    auto note = [&](const Res& res) { if (res.o == OK) ++accepted; else ++rejected; mon.count(std::string("outcome ") + out_name(res.o)); };
    mon.doing("hostile text " + t.name, text);
    if (t.parse) {
        { Val y(t); note(t.parse(text, y.p)); }
        { Val y(t); note(t.parse_v(text, y.p)); }
        note(t.parse(text, used.p));
    }
    if (t.des) {
        { Val y(t); note(t.des(text, y.p)); }
        { Val y(t); note(t.des_v(text, y.p)); }
        { Val y(t); note(t.des_m(std::string(text), y.p)); }
        { Val y(t); note(t.des_mv(std::string(text), y.p)); }
        { Val y(t); auto k = r.below(3); if (k == 0) note(t.des(text, used.p)); else if (k == 1) note(t.des_m(std::string(text), used.p)); else note(t.des_v(text, used.p)); }
        try {
            auto doc = r.chance(1, 2) ? persistence::string_to_document(text) : persistence::string_to_document(std::string(text));
            Val y(t);
            note(t.des_doc(doc, y.p));
            note(t.des_doc_v(doc, y.p));
            if (!deep) persistence::document_to_string(doc);
        } catch (const std::exception&) {}
    }
    mon.doing("hostile value " + t.name, text);
    std::string s;
    rapidjson::Document d;
    {
        Val x(t);
        generate(t, r, x.p, true, r.chance(1, 3), r.chance(1, 50));
        note(t.write(x.p, s));
        note(t.write_v(x.p, s));
        note(t.ser(x.p, d));
        rapidjson::Document e;
        note(t.ser_v(x.p, e));
        if (t.des) { Val y(t); note(t.des_doc(e, y.p)); }
    }
    mon.saw(fnv(t.name + text), text.size() > 4);
    mon.count("type " + t.name);
    mon.sample(t.name + ": " + text);
    (void)accepted;
}

// ---------------------------------------------------------------- known findings
void probe_known();   // probes.cpp, where linked
__attribute__((weak)) void probe_known() {}
// dedicated workloads, where linked
__attribute__((weak)) void special(Rng&);
__attribute__((weak)) void special(Rng&) {}

int main(int argc, char** argv) {
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--prop") mon.prop = v; else if (k == "--seed") mon.seed = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--cases") mon.cases = std::strtoull(v.c_str(), nullptr, 10); else if (k == "--shard") mon.shard = std::strtoull(v.c_str(), nullptr, 10);
        else if (k == "--shards") mon.shards = std::strtoull(v.c_str(), nullptr, 10); else if (k == "--out") mon.out = v; else if (k == "--tier") mon.tier = v;
        else if (k == "--cur") mon.open_cur(v.c_str()); else if (k == "--deadline") mon.deadline = std::strtod(v.c_str(), nullptr); else if (k == "--quiet") mon.quiet = v == "1"; else if (k == "--only") mon.only = std::strtoll(v.c_str(), nullptr, 10);
        else { std::fprintf(stderr, "unknown option %s\n", k.c_str()); return 3; }
    }
    // half of the processes run in a locale with decimal commas, digit grouping and unusual letter case
    if (mon.shard % 2) {
        if (__lsan_disable) __lsan_disable();   // the C library keeps some memory for its locales
        if (std::setlocale(LC_ALL, "tr_TR.UTF-8")) { std::locale::global(std::locale("tr_TR.UTF-8")); mon.count("processes in locale tr_TR"); }
        if (__lsan_enable) __lsan_enable();
    }
    register_groups();
    using Driver = void (*)(std::uint64_t, const TypeOps&, Rng&);
    struct Entry { const char* prop; Driver d; unsigned need, without; };
    static const Entry table[] = {
        { "C01", c01, F_PARSE, 0 }, { "C02", c02, F_DESER, 0 }, { "C03", c03, 0, 0 }, { "C04", c04, 0, 0 }, { "C05", c05, F_PARSE, 0 }, { "C06", c06, F_DESER, 0 },
        { "C07", c07, F_DESER, 0 }, { "C08", c08, 0, 0 }, { "C09", c09, F_DESER, 0 }, { "C10", c10, F_DESER | F_SHARE, 0 }, { "C14", c14, 0, 0 }, { "C19", c19, F_VARIANT, 0 }, { "C21", c21, 0, 0 },
    };
    if (mon.shard == 0 && mon.only < 0) probe_known();
    bool found = false;
    for (auto& e : table) if (mon.prop == e.prop && mon.cases > 0) {
        found = true;
        auto types = types_with(e.need, e.without);
        for (std::uint64_t i = 0; i < mon.cases && !mon.enough(); ++i) {
            if (!mon.mine(i)) continue;
            if (i % 64 == mon.shard && mon.late()) { mon.count("stopped_by_time_limit"); break; }
            mon.begin(i);
            giant_case = mix(i, 77) % (mon.prop == "C21" ? 32003 : 4001) == 0;
            deep_case = mix(i, 78) % 31 == 0;
            if (giant_case) mon.count("cases with a very large container");
            Rng r(mix(mix(mon.seed, fnv(mon.prop)), i));
            e.d(i, *types[(i / 8) % types.size()], r);
        }
    }
    (void)found;
    { Rng r(mix(mix(mon.seed, fnv(mon.prop + "special")), mon.shard)); special(r); }
    mon.finish();
    return 0;
}
