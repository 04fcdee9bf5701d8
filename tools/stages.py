"""What each check builds and runs. groups: h/groups.cpp families; mask: operations compiled in (1 write, 2 serialize, 4 parse, 8 deserialize, 16 schema)."""
from genclasses import generate as generate_classes

ALL = list(range(13))
NOVAR = list(range(11))
BASE = ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DPERSISTENCE_BOOST_DESCRIBE"]

SAN = ["-O0", "-D_GLIBCXX_ASSERTIONS", "-DPERSISTENCE_BOOST_DESCRIBE", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]

TSAN = ["-O0", "-DPERSISTENCE_BOOST_DESCRIBE", "-fsanitize=thread"]


def generic(name, groups, mask, cases, seconds=(60, 600), sources=(), flags=BASE, **kw):
    d = dict(name=name, groups=groups, flags=flags + ["-DOPS_MASK=%d" % mask], cases=cases, seconds=seconds, sources=list(sources))
    d.update(kw)
    return d


def parts(source, n):
    return [(source, ["-DPART=%d" % i], "part%d" % i) for i in range(n)]


STAGES = {
    "C01": [generic("text", NOVAR, 5, (1600000, 40000000), sources=["h/probes.cpp"])],
    "C02": [generic("dom", ALL, 11, (600000, 16000000), sources=["h/probes.cpp"])],
    "C03": [generic("paths", ALL, 3, (2000000, 60000000))],
    "C04": [generic("encoding", ALL, 3, (2000000, 60000000))],
    "C05": [generic("parse", NOVAR, 4, (4000000, 120000000), sources=["h/probes.cpp"])],
    "C06": [generic("deserialize", ALL, 8, (2000000, 60000000), sources=["h/s_deep.cpp"])],
    "C07": [generic("numbers", [0, 1, 2, 3, 4, 5, 6, 7, 8, 11], 15, (1600000, 40000000), (120, 1800), sources=["h/s_numbers.cpp"])],
    "C08": [generic("contract", ALL, 15, (2000000, 40000000))],
    "C09": [generic("locations", ALL, 12, (2000000, 40000000))],
    "C10": [generic("sharing", [9, 10, 12], 11, (1000000, 30000000))],
    "C11": [generic("bytes", [], 31, (0, 0), (90, 1500), sources=["h/s_bytes.cpp"])],
    "C12": [generic("dates", [], 31, (0, 0), (90, 1500), sources=["h/s_dates.cpp"])],
    "C13": [generic("enums", [], 31, (0, 0), (90, 900), sources=parts("h/s_enums.cpp", 9))],
    "C14": [
        generic("asan", ALL, 15, ({"C14": 120000, "C05": 60000, "C06": 24000, "C08": 24000, "C10": 16000, "C01": 20000, "C21": 2000}, {"C14": 40000000, "C05": 4000000, "C06": 4000000, "C08": 4000000, "C10": 4000000, "C01": 2000000, "C21": 400000}), (30, 600),
                flags=SAN, props=["C14", "C05", "C06", "C08", "C10", "C01", "C21"], quiet=True),
        generic("asan-bytes", [], 31, (0, 0), (15, 300), sources=["h/s_bytes.cpp"], flags=SAN, props=["C11"], quiet=True),
        generic("asan-strings", [], 31, (0, 0), (15, 300), sources=["h/s_strings.cpp"], flags=SAN, props=["C22"], quiet=True),
        generic("asan-dates", [], 31, (0, 0), (15, 300), sources=["h/s_dates.cpp"], flags=SAN, props=["C12"], quiet=True),
        generic("memcheck", [0, 3, 6, 7, 9, 11], 15, (12000, 2000000), (30, 900), quiet=True, props=["C14"], flags=["-O1", "-g1", "-DPERSISTENCE_BOOST_DESCRIBE"],
                wrap=["valgrind", "-q", "--error-exitcode=88", "--leak-check=no", "--max-stackframe=8000000"]),
    ],
    "C15": [generic("faults", [], 31, (0, 0), (110, 1500), sources=["h/s_faults.cpp"] + parts("h/s_faults.cpp", 6), flags=SAN)],
    "C16": [generic("threads", ALL, 31, (0, 0), (90, 1500), sources=["h/s_threads.cpp"], flags=TSAN, libs=["-pthread"])],
    "C17": [generic("schema", ALL, 17, (0, 0), (90, 1500), sources=["h/s_schema.cpp"])],
    "C18": [generic("classes", [], 31, (0, 0), (90, 1500), sources=["h/s_shapes.cpp"], generate=generate_classes)],
    "C19": [generic("variants", [11, 12], 11, (2000000, 60000000))],
    "C20": [generic("nesting", [], 4, (0, 0), (120, 1500), sources=["h/s_nest.cpp"] + parts("h/s_nest.cpp", 9), flags=SAN)],
    "C22": [generic("strings", [], 31, (0, 0), (90, 1500), sources=["h/s_strings.cpp"])],
    "C23": [generic("extensions", [13], 15, ({'C01': 600000, 'C02': 600000, 'C03': 600000, 'C04': 600000, 'C05': 600000, 'C06': 600000, 'C08': 600000, 'C09': 600000, 'C10': 600000, 'C19': 600000, 'C21': 8000}, {'C01': 6000000, 'C02': 6000000, 'C03': 6000000, 'C04': 6000000, 'C05': 6000000, 'C06': 6000000, 'C08': 6000000, 'C09': 6000000, 'C10': 6000000, 'C19': 6000000, 'C21': 300000}), (60, 600), props=['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C19', 'C21'])],
    "C21": [generic("histories", ALL, 15, (160000, 4000000))],
}

RULES = {
    "C01": "random value of a random supported type, biased to boundary numbers, special strings and large sizes; written with write_to_string, parsed back with both parse overloads, compared in a canonical form; non-trivial: text longer than 4 bytes, distinct (type, text)",
    "C02": "random value of a random supported type incl. shared pointers and variants; through serialize, write, string_to_document and every deserialize overload, fresh and used targets; non-trivial: text longer than 4 bytes, distinct (type, text)",
    "C03": "random value of a random type, a third of the runs with unwritable parts (null pointers, non-finite numbers, invalid dates); outcomes and texts of the four writing overloads compared; non-trivial: distinct (type, value) that is longer than 4 bytes or unwritable",
    "C04": "random value of a random type; both writers' texts read by an independent JSON reader and compared structurally with an independent encoder; non-trivial: distinct (type, value) with text over 4 bytes",
    "C05": "document made from a random value of the type by an independent encoder, then mutated structurally (0-3 mutations) and in a fifth of the cases textually, with random white space, escapes and key order; verdict and value compared with an independent reference decoder; non-trivial: distinct (type, text) longer than 4 bytes on which the reference has a verdict",
    "C06": "as C05, through the six deserialize overloads, and documents nested up to 400000 deep in members that are ignored or rejected",
    "C07": "documents whose numbers are replaced by boundary literals around every type's limits, and random values written and read back on all paths, against exact integer and strtod arithmetic; non-trivial: distinct (type, text) longer than 4 bytes with a verdict",
    "C08": "writable and unwritable values through the four writers; valid, mismatching and malformed texts through the eight readers; returning and throwing overloads must agree and throw the documented type; non-trivial: distinct (type, input) over 4 bytes or unwritable",
    "C09": "a fault injected at a random place of a valid document (or the text damaged); path and offset compared with the place the reference decoder finds; non-trivial: distinct (type, text) over 4 bytes with a verdict",
    "C10": "random acyclic sharing graphs; encoding compared with the reference, pointer identity and use counts after reading compared with the original; then hostile $ref documents against the reference; non-trivial: graph with at least one back-reference",
    "C11": "byte sequences of every length up to the bound, every byte value at every place up to length 30, a lattice (thorough: all) of triplets, every character at every place of valid texts, all padding layouts, random damage; buffers touch inaccessible pages on both sides; the same texts as bytes in 17 positions through four reading and two writing operations; against an independent RFC 4648 reference; non-trivial: input longer than one byte, distinct",
    "C12": "every date of years 0000-9999 and impossible dates, instants at every day boundary of the clock's range plus random ones, every ASCII character at every place of ten base texts, all two-digit field values, instants just beyond the clock, under eight time zones; in 17 positions through four reading and two writing operations; against an independent calendar; non-trivial: distinct date, instant or text over 4 characters",
    "C13": "every enumerator of four enumerations with names (enum_traits, make_enum_converter, Boost.Describe) and thousands of near-miss strings derived from the names; for nine enumerations without names, boundary integers of every underlying type; each document in 17 positions through the reading operations and each value through the writing ones; non-trivial: distinct document over 2 characters",
    "C14": "hostile texts (mutated, truncated, corrupted, token soup, random bytes, deep, spliced) and values (incl. unwritable ones) of every type through every operation, fresh and used targets; then the workloads of C01, C05, C06, C08, C10, C11, C12, C21 and C22; under AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer, and a part again under valgrind memcheck for uninitialised memory; non-trivial: distinct (type, text) longer than 4 bytes",
    "C15": "valid and damaged documents of 25 types built from a class that registers every construction and destruction; through the twelve reading and writing operations, on fresh and used targets; each run first without faults, then once per allocation index with that allocation failing, and with it and all later ones failing; outcome, sources, allocation and object balance checked, then the same target is used again without fault and must give the fault-free result; non-trivial: distinct (operation, document, allocation index, mode)",
    "C16": "batches of six types; four threads start together and perform every reading, writing and schema operation on them, in the first round all in the same order and as the first use of the type in the process, later in different orders with random yields; sources and texts are shared, targets and documents are not; ThreadSanitizer watches, and every result is compared with the same call made alone; non-trivial: distinct (type, operation, result, thread)",
    "C17": "for every type with a schema: the schema text is read by an independent JSON reader, every reference resolved, every keyword known; written values of the type and structurally mutated documents (0-3 mutations, boundary integers) are validated against it by an independent validator and compared with what the C++ type demands; schema texts repeated in shuffled order; non-trivial: distinct (type, document) over 4 bytes with a verdict",
    "C18": "classes generated per seed: 1 to 129 members (thorough: to 193), ten families of names (permutations, one-bit differences, prefixes, long, non-identifier, ...), five member kinds, flat, derived, chained and two-base inheritance; documents with all or some keys in random order and escapes, six near-miss keys each; every member compared, written keys compared in order; non-trivial: distinct (class, document) with more than one key",
    "C19": "random variants written and compared with the active alternative's encoding; matching, mutated and foreign documents read and compared with the reference (first alternative that matches alone); fresh and used targets; non-trivial: distinct (type, text) over 4 bytes with a verdict",
    "C20": "a recursive class that nests through eleven kinds of containers, pointers and tuples, with random siblings before and after at every level: every depth to 150 (thorough: 300) and selected ones to 700 per kind, random mixtures, truncations, texts that only open, and types nested 1 to 12 levels in their declaration; each parsed four times, value compared with the reference decoder; built with address and undefined-behaviour sanitizers; non-trivial: distinct bracket structure of depth over 1",
    "C22": "all \\uXXXX escapes of BMP characters, surrogate pairs (quick: a lattice), every character up to U+3000 and a lattice (thorough: all) beyond, a special character at every place of strings of every length up to the bound, long strings, random strings under random equivalent escapes, families of similar keys; as value in 17 positions, as key of ordered and unordered dictionaries, as views and char arrays; source destroyed before the document is read; judged by an independent JSON reader; non-trivial: distinct string over 1 byte or literal over 3",
    "C23": "34 types built from three user types with specializations of the four templates (a string format, a restricted number, a transparent wrapper template) as root, member, optional and default member, element, dictionary value, pointee and alternative; through the workloads and oracles of C01 to C06, C08 to C10, C19 and C21; non-trivial: as there",
    "C21": "histories of 80 operations in random order over 4 values, texts and documents of random types, each operation repeated; every result compared with its first result, sources compared before and after each operation, rewriting compared with the first text; non-trivial: each history is distinct by its results",
}
TRUST = ["the independent JSON reader and reference encoder/decoder in /verif/h (mj.hpp, model.hpp) are right where they agree with the library on the unchanged tree", "g++ 13 and libstdc++, RapidJSON as installed"]
LEVELS = {k: ("exploration", TRUST) for k in STAGES}
LEVELS["C15"] = ("fault_enumeration", TRUST)

_DIFF = "runtime monitoring: online differential oracle over "
TECHNIQUES = {
    "C01": _DIFF + "write/parse round trips of random values of 200 types",
    "C02": _DIFF + "serialize/deserialize round trips, all overloads, fresh and used targets",
    "C03": _DIFF + "the four writing overloads of both paths, with unwritable values",
    "C04": _DIFF + "written text, read by an independent JSON reader and compared with an independent encoder",
    "C05": _DIFF + "parse verdicts and values on mutated documents, against a reference decoder",
    "C06": _DIFF + "deserialize verdicts and values on mutated documents, against a reference decoder",
    "C07": _DIFF + "number literals and values against exact arithmetic",
    "C08": "runtime monitoring: outcome monitor (result, exception type, untouched target) over all overloads",
    "C09": "runtime monitoring: error paths and offsets compared with injected fault places",
    "C10": "runtime monitoring: pointer identity, use counts and encoding of random sharing graphs, hostile $ref documents",
    "C11": "runtime monitoring: Base64 against an RFC 4648 reference, guard pages around every buffer",
    "C12": "runtime monitoring: dates and instants against an independent calendar, under several time zones",
    "C13": "runtime monitoring: enumerators, near-miss names and boundary integers in 17 positions",
    "C14": "AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer and valgrind memcheck over hostile workloads",
    "C15": "fault injection at every allocation under AddressSanitizer with lifetime accounting",
    "C16": "ThreadSanitizer over concurrent first uses and mixed operations, results compared with sequential runs",
    "C17": "runtime monitoring: an independent JSON schema validator over written values and mutated documents",
    "C18": "runtime monitoring: dispatch monitor over classes generated per seed",
    "C19": "runtime monitoring: first-match oracle over variants",
    "C20": "runtime monitoring: nesting sweeps under AddressSanitizer and UndefinedBehaviorSanitizer against a reference decoder",
    "C21": "runtime monitoring: history checker (repeatability, unchanged sources) over random operation sequences",
    "C23": _DIFF + "types that contain user extensions, against a reference encoder and decoder",
    "C22": "runtime monitoring: strings and keys in every position, read by an independent JSON reader",
}
NOTES = {k: "Holds on every execution observed: " + RULES[k] + ". Trusts the reference implementations in /verif/h and the compiler." for k in STAGES}
