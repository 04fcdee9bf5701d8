"""Generates classes of many shapes for C18: sizes, name families, member kinds, inheritance, declaration order."""
import os
import random

WORDS = "id name value type size count key data list item node left right parent child first last next prev begin end min max sum avg total index offset length width height depth color style label title text body head tail path url host port user pass token time date year month day hour minute second status code error message level mode flag option config version".split()


def names(rng, n, family):
    out = []
    seen = set()

    def add(s):
        if s not in seen:
            seen.add(s)
            out.append(s)
    guard = 0
    while len(out) < n:
        guard += 1
        k = len(out)
        if family == "words":
            add(rng.choice(WORDS) if guard < 4 * n else rng.choice(WORDS) + "_" + rng.choice(WORDS))
        elif family == "numbered":
            add("member%d" % k)
        elif family == "short":
            add("".join(rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(1 if guard < 10 else 2)))
        elif family == "permuted":   # same letters, other order
            base = list("abcdefg")
            rng.shuffle(base)
            add("".join(base))
        elif family == "case":
            w = rng.choice(WORDS)
            add("".join(rng.choice((c.lower(), c.upper())) for c in w))
        elif family == "prefix":
            add("a" * (k + 1) if n <= 40 else "p" + "x" * (k % 20) + str(k // 20))
        elif family == "long":
            add("a_name_that_is_rather_long_and_differs_only_near_its_end_or_begin_" * 3 + str(k) if rng.random() < .5 else str(k) + "_a_name_that_is_rather_long_and_differs_only_near_its_end_or_begin")
        elif family == "odd":        # keys that are no identifiers
            add("".join(rng.choice(["a", "b", " ", "/", "~", "\"", "\\", "\u00e9", "\u4e2d", "\U0001f600", ".", "$", "-", "0", "\t"]) for _ in range(rng.randrange(0, 5))))
        elif family == "bits":       # characters that differ in one bit
            add("".join(chr(ord("a") ^ (1 << rng.randrange(0, 5))) for _ in range(6)))
        else:
            add("".join(rng.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789") for _ in range(rng.randrange(1, 12))))
    rng.shuffle(out)
    return out


FAMILIES = ["words", "numbered", "short", "permuted", "case", "prefix", "long", "odd", "bits", "random"]
TYPES = {"R": "int", "D": "int", "O": "std::optional<int>", "S": "std::string", "V": "std::vector<int>"}


def cstr(s):
    return '"' + "".join('\\%03o' % b if b < 32 or b > 126 or chr(b) in '"\\?' else chr(b) for b in s.encode()) + '"'


def emit(rng, cname, n, family, out):
    ns = names(rng, n, family)
    kinds = [rng.choice("RRRDOSV") for _ in ns]
    # split over bases
    cuts = []
    shape = rng.choice(["flat", "flat", "derived", "chain", "two bases"]) if n > 3 else "flat"
    if shape == "derived":
        cuts = [rng.randrange(1, n)]
    elif shape in ("chain", "two bases") :
        cuts = sorted(rng.sample(range(1, n), 2))
    bounds = [0] + cuts + [n]
    parts = list(zip(bounds, bounds[1:]))

    def fields(a, b):
        s = ""
        for i in range(a, b):
            init = {"R": "{-1}", "D": "{%d}" % (1000 + i), "O": "", "S": "{\"init\"}", "V": ""}[kinds[i]]
            s += "    %s m%d%s;\n" % (TYPES[kinds[i]], i, init)
        return s

    def chain(a, b):
        return "".join(" & NAMED_MEMBER_VARIABLE%s(%s, m%d)" % ("_DEFAULT" if kinds[i] == "D" else "", cstr(ns[i]), i) for i in range(a, b))
    for k, (a, b) in enumerate(parts):
        last = k == len(parts) - 1
        name = cname if last else "%sB%d" % (cname, k)
        if k == 0 or (shape == "two bases" and k == 1):
            bases, body = "", "return ar%s;" % chain(a, b)
        elif shape == "two bases":
            bases = " : %sB0, %sB1" % (cname, cname)
            body = "auto x = this->%sB0::persist(ar); auto y = this->%sB1::persist(x); return y%s;" % (cname, cname, chain(a, b))
        else:
            bases = " : %sB%d" % (cname, k - 1)
            body = "return this->%sB%d::persist(ar)%s;" % (cname, k - 1, chain(a, b))
        out.append("struct %s%s {\n%s    template<typename A> constexpr auto persist(A& ar) { %s }\n};\n" % (name, bases, fields(a, b), body))
    out.append("template<> struct Desc<%s> {\n    static constexpr const char* title = %s;\n    static const std::vector<std::string>& names() { static const std::vector<std::string> v = { %s }; return v; }\n    static constexpr const char* kinds = \"%s\";\n    static std::string get(const %s& k, std::size_t i) {\n        switch (i) {\n%s        }\n        return \"?\";\n    }\n};\n" % (
        cname, cstr("%s, %d members, %s names, %s" % (cname, n, family, shape)),
        ", ".join("std::string(%s, %d)" % (cstr(x), len(x.encode())) for x in ns), "".join(kinds), cname,
        "".join("            case %d: return as_json(k.m%d);\n" % (i, i) for i in range(n))))
    return shape


def generate(out_dir, seed, tier):
    rng = random.Random(seed * 7919 + 5)
    sizes = list(range(1, 34)) + [40, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129]
    if tier == "thorough":
        sizes += list(range(1, 100)) + [130, 150, 192, 193]
    jobs = []
    for i, n in enumerate(sizes):
        fams = [FAMILIES[(i + seed) % len(FAMILIES)]]
        if n <= 16:
            fams += [FAMILIES[(i + seed + 3) % len(FAMILIES)], FAMILIES[(i + seed + 7) % len(FAMILIES)]]
        for f in fams:
            if f == "odd" and n > 60:
                f = "random"
            if f == "bits" and n > 60:
                f = "long"
            jobs.append((n, f))
    units = 16 if tier == "quick" else 48
    texts = [["#include \"shapes.hpp\"\n"] for _ in range(units)]
    loads = [0] * units
    calls = [[] for _ in range(units)]
    for k, (n, f) in enumerate(sorted(jobs, reverse=True)):
        u = loads.index(min(loads))
        loads[u] += 8 + n + n * n // 40
        emit(rng, "K%d" % k, n, f, texts[u])
        calls[u].append("K%d" % k)
    paths = []
    for u in range(units):
        texts[u].append("void shapes_%d(std::vector<Shape>& v) {\n%s}\n" % (u, "".join("    v.push_back(make_shape<%s>());\n" % c for c in calls[u])))
        p = os.path.join(out_dir, "shapes%d.cpp" % u)
        with open(p, "w") as fh:
            fh.write("".join(texts[u]))
        paths.append(p)
    p = os.path.join(out_dir, "shapes_all.cpp")
    with open(p, "w") as fh:
        fh.write("#include \"shapes.hpp\"\n" + "".join("void shapes_%d(std::vector<Shape>&);\n" % u for u in range(units)) + "void all_shapes(std::vector<Shape>& v) {\n" + "".join("    shapes_%d(v);\n" % u for u in range(units)) + "}\n")
    return paths + [p]
