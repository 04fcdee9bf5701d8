// Building blocks of the workloads: values and documents of registered types.
#pragma once
#include "mon.hpp"

inline std::vector<const TypeOps*> types_with(unsigned need, unsigned without = 0) {
    std::vector<const TypeOps*> v;
    for (auto& t : registry()) if ((t.flags & need) == need && !(t.flags & without)) v.push_back(&t);
    if (v.empty()) { std::fprintf(stderr, "no types\n"); std::exit(3); }
    return v;
}

// ---------------------------------------------------------------- building blocks
inline bool giant_case = false;   // the values of this case have a very large container
inline bool deep_case = false;    // the values of this case may be nested deeply, if the type is recursive
inline void generate(const TypeOps& t, Rng& r, void* p, bool share, bool bad, bool huge = false) {
    Gen g(r);
    g.share = share && (t.flags & F_SHARE);
    g.bad = bad;
    g.huge = huge;
    g.giant = giant_case;
    if (deep_case) g.limit = r.chance(1, 2) ? 24 + int(r.below(40)) : 6 + int(r.below(18));
    t.gen(g, p);
}
/** Encodes; false if the value cannot be written. */
inline bool expected_json(const TypeOps& t, const void* p, Node& n) { Enc e{ JSON }; return t.enc(e, p, n); }

/** A document of the type's shape (from a generated value), not yet mutated. */
inline Node base_document(const TypeOps& t, Rng& r) {
    for (;;) {
        Val x(t);
        generate(t, r, x.p, true, false);
        Node n;
        if (expected_json(t, x.p, n)) return n;
    }
}
struct Doc { std::string text; std::string how; };
inline Doc make_document(const TypeOps& t, Rng& r, const std::vector<const TypeOps*>& pool, bool textual = true) {
    Doc d;
    const TypeOps* src = &t;
    if (r.chance(1, 20)) { src = pool[r.below(pool.size())]; d.how = "other-type "; }
    Node n = base_document(*src, r);
    auto k = r.below(100);
    int muts = k < 30 ? 0 : k < 75 ? 1 : k < 92 ? 2 : 3;
    for (int i = 0; i < muts; ++i) { d.how += mutate(r, n); d.how += ' '; }
    mj::Style st;
    st.r = &r;
    st.space = r.chance(1, 2);
    st.escape = r.chance(1, 2);
    st.shuffle = r.chance(1, 2);
    d.text = mj::text(n, st);
    if (textual && r.chance(1, 5)) { d.how += mutate_text(r, d.text); if (r.chance(1, 4)) mutate_text(r, d.text); }
    if (d.how.empty()) d.how = "unchanged";
    return d;
}
