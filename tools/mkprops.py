#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
I="include/persistence/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],
                 "observe_at":observe,"hook_needed":None}})

p("C01","Writing a value to a string and parsing it back yields the same value",
 "For every supported C++ type without variants and every value of it that can be written (no two pointers sharing an object, every number finite), parse<T>(write_to_string(x)) succeeds and yields a value equal to x: same numbers bit for bit, same string bytes, same container contents and order, same presence of optional members, same pointed-to objects. This holds for every composition of the supported types (fundamental types, strings, bytes, dates and timestamps at one-second resolution, enumerations, containers, tuples, dictionaries, pointers, classes with required, optional, default and inherited members) and for every size, including empty and very large. Parsing the text into a target that already holds a value gives the same value, except that a class member whose key is absent from the text may keep what it held.",
 ["inputs","programs"],"all values x all type compositions",
 "The tests round-trip a handful of literals per type; they never compose types systematically, never use random or boundary values, and compare most results against hand-picked strings.",
 [I+"write.hpp",I+"parse.hpp",I+"write_*.hpp",I+"parse_*.hpp"],
 [("JsonWriter<T> specialisations emit one JSON value per C++ value",I+"write_*.hpp"),("JsonParser<T> event handlers on a polymorphic stack rebuild the value",I+"parse_*.hpp")],
 ["return value of write_to_string","return value of parse<T>"])
p("C02","Serializing a value and deserializing it back yields the same value",
 "For every supported type and value that can be written, deserialize<T> gives back a value equal to x from the document that serialize_to_document(x) produced, from string_to_document(write_to_string(x)), and from the text itself through every overload (lvalue or rvalue text, returning or filling a target); this includes variants whose alternatives are distinguishable in JSON and shared pointers. Deserializing into a target that already holds a value gives the same result as deserializing into a fresh one, except that a member declared with a default keeps its previous value when its key is absent.",
 ["inputs","programs","configurations"],"all values x all type compositions x all ways to route a value through the DOM",
 "The tests deserialize a few literals per type through one overload each and never reuse a populated target.",
 [I+"serialize.hpp",I+"deserialize.hpp",I+"serialize_*.hpp",I+"deserialize_*.hpp",I+"utility.hpp"],
 [("JsonSerializer<T> builds DOM values",I+"serialize_*.hpp"),("JsonDeserializer<Exception, T> reads DOM values",I+"deserialize_*.hpp")],
 ["return value of deserialize<T>","target after deserialize(doc, target)"])
p("C03","The two serialization paths produce the same JSON",
 "For every supported value, write_to_string(x) and document_to_string(serialize_to_document(x)) either both succeed and produce byte-for-byte the same text, or both fail. The same agreement holds between the overloads that return a value and those that fill a target.",
 ["inputs","programs"],"all values of all writable types, including values that cannot be written (null pointers, non-finite numbers, invalid dates) at any depth",
 "Each path is tested against its own literals; nothing compares the two on the same random value.",
 [I+"write_*.hpp",I+"serialize_*.hpp",I+"utility.hpp"],
 [("parallel JsonWriter / JsonSerializer specialisations",I+"write_*.hpp, serialize_*.hpp")],
 ["write_to_string","serialize_to_document + document_to_string"])
p("C04","Written JSON is well-formed and has the documented encoding",
 "Every text the library writes is one well-formed JSON value whose structure is the documented encoding of the C++ value: fundamental types as their JSON type, containers, pairs and tuples as arrays in order, dictionaries and classes as objects with exactly the declared keys in declaration (or iteration) order, absent optionals omitted, bytes as Base64, dates and timestamps as ISO 8601 UTC strings, enumerations as integer or name, pointers as their pointee and repeated shared pointers as {\"$ref\": JSON pointer}. Numbers denote exactly the C++ value, and strings and keys denote exactly the C++ bytes.",
 ["inputs","programs"],"all values of all writable types",
 "Tests compare a few outputs with literals; well-formedness and the encoding rule must hold for all values (control characters, quotes, NULs, empty containers, nesting).",
 [I+"write_*.hpp",I+"serialize_*.hpp"],
 [("StringWriter (RapidJSON Writer) calls in each JsonWriter",I+"write_*.hpp")],
 ["output text, read by an independent JSON reader"])
p("C05","Parsing accepts exactly the documents that denote a value of the type",
 "For every text and every parseable type, parse succeeds if and only if the text is a single well-formed JSON value of the shape, key set, element count, number range and string format the type requires, and then yields exactly the value the document denotes; members may come in any order, with any insignificant whitespace and any equivalent string escapes. Unknown member names, wrong token types, too few or too many array elements, out-of-range or non-integral numbers for integer types, trailing text and truncated text are all rejected.",
 ["inputs","programs"],"all texts (valid, mutated and hostile) x all parseable types, into a fresh target",
 "The tests feed a few valid and a few malformed literals; acceptance is an if-and-only-if over all texts.",
 [I+"parse.hpp",I+"parse_base.hpp",I+"parse_*.hpp"],
 [("JsonParseHandler rejects every token a handler does not override",I+"parse_base.hpp"),("one handler per JSON construct, replaced or popped as tokens arrive",I+"parse_*.hpp")],
 ["return value of parse","parsed value"])
p("C06","Deserializing accepts exactly the documents that denote a value of the type",
 "For every text (or DOM document) and every deserializable type, deserialize succeeds if and only if the document is well-formed JSON that has the shape, required keys, element count, number range and string format the type demands, and then yields exactly the value the document denotes; unknown keys are ignored, absent optional members become empty and absent default members keep their value. A failure in any member, element or dictionary item, wherever it stands, makes the whole operation fail, and all overloads agree.",
 ["inputs","programs"],"all texts and documents x all deserializable types, fresh or reused targets",
 "The tests use a few literals; errors in the middle of a composite followed by good members, or combinations of missing and extra keys, are not sampled.",
 [I+"deserialize.hpp",I+"deserialize_*.hpp",I+"deserialize_check.hpp"],
 [("type, size and range checks per JsonDeserializer",I+"deserialize_check.hpp, deserialize_fundamental.hpp"),("result accumulation in JsonObjectDeserializer",I+"deserialize_object.hpp")],
 ["return value of deserialize","deserialized value"])
p("C07","Numbers are carried exactly or rejected, never silently changed",
 "For every integer type, an integer literal is accepted if and only if its mathematical value fits the type, and is then stored exactly; literals with a fraction or exponent are never accepted for integer types, and every integer value is written as its exact decimal. For float and double, every finite value survives a round trip bit for bit in every path, decimal literals are read as the nearest representable value, parse rejects an integer literal beyond the range in which the type holds all integers, a double literal beyond the range of float is rejected for float, and non-finite values are never written. None of this depends on the locale of the process.",
 ["inputs","configurations"],"all literals and all values of all arithmetic types, as a root value, container element and class member, in both reading modes",
 "Boundary behaviour must hold for every type and every literal; tests check a dozen boundaries.",
 [I+"parse_fundamental.hpp",I+"detail/numeric_traits.hpp",I+"deserialize_fundamental.hpp",I+"write_fundamental.hpp",I+"serialize_fundamental.hpp",I+"number.hpp"],
 [("is_assignable range test",I+"detail/numeric_traits.hpp"),("check_range after JSON type test",I+"deserialize_fundamental.hpp"),("full-precision number reading",I+"parse.hpp, deserialize.hpp, utility.hpp")],
 ["accept/reject and stored value per (type, literal)"])
p("C08","Boolean overloads never throw; value overloads throw exactly on failure",
 "For every input, the overloads that fill a target return true or false and throw nothing, and the overloads that return a value throw if and only if the former return false, and only the documented types: JsonParseError for malformed JSON text (and any failure of parse), JsonDeserializationError for a document that does not match the type, JsonSerializationError for a value that cannot be written. A write that fails leaves the target string untouched.",
 ["inputs","programs"],"all inputs and values, valid or not, x all types x all overloads",
 "Tests check a handful of failures, mostly through one overload.",
 [I+"exception.hpp",I+"parse.hpp",I+"deserialize.hpp",I+"write.hpp",I+"serialize.hpp"],
 [("Exception template parameter selects throw or return false",I+"deserialize_*.hpp"),("result flag converted to JsonSerializationError",I+"write.hpp, serialize.hpp")],
 ["return value or exception type of every overload"])
p("C09","Errors point at the place that caused them",
 "When a document does not match the type, the path in JsonDeserializationError is the RFC 6901 JSON pointer (special characters escaped, '/' for the root) of the offending value: the mismatching value itself, the object that lacks a required member, the array with the wrong number of elements, or the variant no alternative of which matches. When parse fails, the offset in JsonParseError lies on the token that caused the failure, or for malformed text, at the place where the text stops being JSON; offsets never exceed the text length.",
 ["inputs","programs"],"all types x all single faults injected at any place of a valid document",
 "Tests check a few paths and offsets; the location must be right at every depth, index and key.",
 [I+"detail/path.hpp",I+"detail/segment.hpp",I+"detail/deserialize_context.hpp",I+"parse.hpp"],
 [("context chain of segments",I+"detail/deserialize_context.hpp"),("Path::str escaping",I+"detail/path.hpp"),("ParseResult offset",I+"parse.hpp")],
 ["JsonDeserializationError::path","JsonParseError::offset"])
p("C10","Shared pointers are written once and restored as shared",
 "When an object graph without cycles holds several shared_ptr of the same type to the same object (also with separate control blocks, or aliasing a member of another object), the written or serialized JSON contains that object once, at its first occurrence, and a {\"$ref\": pointer} with the RFC 6901 path of that occurrence at every other; deserializing restores the same sharing: pointers of the same type are equal afterwards exactly where they were equal before. A back-reference that is malformed, does not resolve, or resolves to a place where no object of that pointer's type was deserialized before makes deserialization fail, and nothing leaks or is shared between separate calls.",
 ["inputs","programs","histories"],"all acyclic sharing graphs x all containers and member positions x all keys (including those needing escapes) x hostile $ref documents",
 "Tests have two or three sharing examples; index positions, special keys, nested containers and unresolvable references are not covered.",
 [I+"write_pointer.hpp",I+"serialize_pointer.hpp",I+"deserialize_pointer.hpp",I+"detail/references.hpp",I+"detail/output_context.hpp",I+"detail/path.hpp"],
 [("reference table from object address to path",I+"detail/output_context.hpp"),("reference table from DOM node and type to object",I+"detail/deserialize_context.hpp")],
 ["output text","pointer identities after deserialization","use counts"])
p("C11","Base64 follows RFC 4648 for every byte sequence",
 "For every byte sequence of every length, encoding yields the RFC 4648 Base64 text (standard alphabet, padded, no line breaks) and decoding that text yields the bytes back. Decoding accepts a text if and only if its length is a multiple of four and it consists of alphabet characters with at most two padding characters at the very end (unused trailing bits are ignored), and reads nothing outside its input.",
 ["inputs"],"all byte sequences and all texts, in all paths that carry bytes",
 "Tests encode and decode short fixed vectors; the 64-bit fast path, the tail handling and invalid characters at every position need all lengths and positions.",
 [I+"base64.hpp",I+"parse_bytes.hpp",I+"deserialize_bytes.hpp",I+"write_bytes.hpp",I+"serialize_bytes.hpp"],
 [("encode sextet/triplet split",I+"base64.hpp"),("decode table with invalid marker",I+"base64.hpp")],
 ["base64_encode","base64_decode","byte vectors through all four paths"])
p("C12","Dates and timestamps are exact ISO 8601 UTC",
 "Every calendar date of years 0000 to 9999 and every whole second the system clock can represent is written as its ISO 8601 form (YYYY-MM-DD, YYYY-MM-DDTHH:MM:SSZ in UTC, whatever the local time zone) and read back as the same date or instant. Reading accepts exactly well-formed strings denoting an existing date and time of day (a space is allowed instead of T), rejects everything else including instants the clock cannot represent, and an invalid year_month_day is never written.",
 ["inputs","configurations"],"all dates, all seconds, all strings, all local time zones",
 "Tests check a few dates; leap years, century rules, pre-1970 instants and range limits need the whole calendar.",
 [I+"datetime.hpp",I+"parse_date.hpp",I+"parse_datetime.hpp",I+"deserialize_date.hpp",I+"deserialize_datetime.hpp",I+"write_date.hpp",I+"write_datetime.hpp",I+"serialize_date.hpp",I+"serialize_datetime.hpp"],
 [("is_valid_date, timegm/gmtime_r conversion, aligned digit writer",I+"datetime.hpp")],
 ["written text and read value for every date"])
p("C13","Enumerations map one-to-one between values and names or integers",
 "An enumeration with string conversion (enum_traits, make_enum_converter or Boost.Describe) is written as exactly the name of its value and read back from exactly that name; every other string or JSON type is rejected, including prefixes, different case, extra or embedded NUL characters, and a value without a name is never written as the name of another. An enumeration without conversion is written and read as its underlying integer with that type's exact range, and both behave the same as root, element, member or dictionary value and in all four operations.",
 ["inputs","programs"],"all enumerators x near-miss names x all underlying types x all positions",
 "Tests cover a few names of small enumerations with int as underlying type.",
 [I+"enum.hpp",I+"enum_utility.hpp",I+"parse_enum.hpp",I+"write_enum.hpp",I+"serialize_enum.hpp",I+"deserialize_enum.hpp"],
 [("enum_traits dispatch",I+"enum.hpp"),("EnumConverter table",I+"enum_utility.hpp")],
 ["written text and read value per enumerator"])
p("C14","No memory error or undefined behaviour on any input",
 "Whatever text, document or value is given, and whether the operation succeeds or fails, no operation of the library reads or writes out of bounds, uses freed or uninitialised-by-contract memory, leaks memory, or has undefined behaviour such as signed overflow, misaligned access or invalid enum or bool loads. This includes hostile and truncated JSON, deep nesting (of any depth where the type is not recursive), huge strings and containers, and failures in the middle of composite values.",
 ["inputs","programs","histories"],"all inputs x all types x all operations, in builds with address, leak and undefined-behaviour sanitizers",
 "Tests run without sanitizers on friendly input.",
 [I+"base64.hpp",I+"detail/polymorphic_stack.hpp",I+"detail/perfect_hash.hpp",I+"parse_*.hpp",I+"deserialize_*.hpp",I+"datetime.hpp"],
 [("bounds in polymorphic stack, hash lookup, Base64 and date parsing",I+"detail, base64.hpp, datetime.hpp")],
 ["sanitizer reports over the hostile workload"])
p("C15","Failures at any point release everything and corrupt nothing",
 "If memory allocation (operator new) fails at any point of any operation, or the input is rejected at any point, the operation ends by std::bad_alloc or an ordinary failure, every object and allocation made on the way is released exactly once, source objects are unchanged, and the target can still be destroyed, assigned or used for another operation that then succeeds. Over any run, objects constructed equal objects destroyed plus objects held by live results.",
 ["fault_sequences","inputs","histories"],"every allocation index of every operation x types x inputs",
 "No test injects a fault or counts object lifetimes.",
 [I+"detail/polymorphic_stack.hpp",I+"parse_*.hpp",I+"deserialize_*.hpp",I+"detail/references.hpp"],
 [("RAII contexts and handler stack destructor",I+"detail/polymorphic_stack.hpp")],
 ["allocation balance and lifetime counters after each injected failure"])
p("C16","Concurrent use on distinct objects is race-free and gives sequential results",
 "Threads may call any operations concurrently on distinct target objects and documents, also while sharing the same const source object or text, without data races, and each call returns what it would return alone. This includes the very first use of a type in several threads at once and timestamp conversion.",
 ["schedules"],"all interleavings of operations on distinct targets",
 "The tests are single-threaded.",
 [I+"parse_object.hpp",I+"datetime.hpp",I+"enum_utility.hpp",I+"write_object.hpp"],
 [("static lookup tables are immutable after initialisation",I+"parse_object.hpp"),("re-entrant calendar conversion",I+"datetime.hpp")],
 ["ThreadSanitizer reports","per-call result compared with the sequential result"],
 [{"name":"names, hash_map","meaning":"per-class static member name tables","where":I+"parse_object.hpp"}])
p("C17","Generated JSON schema admits every value the library writes",
 "For every type for which a schema can be generated, the schema is well-formed JSON whose references all resolve, the JSON written for every value of the type (without back-references) validates against it, and a document that violates the type's constraints expressible in the schema (wrong JSON type, integer out of range, missing required or unknown object member, wrong array length) does not. Schema generation terminates for every type, recursive ones included, and always gives the same text.",
 ["inputs","programs"],"all types with a schema x all their values and single-fault mutations of them",
 "Tests compare a few schemas with literals and never validate a document against one.",
 [I+"schema.hpp",I+"schema_utility.hpp"],
 [("JsonSchema<T> specialisations and definitions table",I+"schema.hpp")],
 ["schema_to_string, schema_document_to_string, validated by an independent validator"])
p("C18","Every class member is dispatched by its exact name",
 "For every class, whatever the number, names, kinds and order of its members and bases, each JSON key equal to a declared member name sets exactly that member, whatever order the keys come in, and every other key (prefixes, extensions, permutations, hash collisions) is rejected by parse and ignored by deserialize. All members are written exactly once in declaration order, bases first as declared, and building the lookup terminates for every set of distinct names.",
 ["programs","inputs"],"all class shapes (1 to 100+ members, arbitrary distinct names) x all key orders x near-miss keys",
 "Tests have a dozen hand-written classes with friendly names, and one fixed list for the perfect hash.",
 [I+"object.hpp",I+"object_members.hpp",I+"object_reflection.hpp",I+"parse_object.hpp",I+"detail/perfect_hash.hpp",I+"detail/bitset.hpp",I+"deserialize_object.hpp",I+"write_object.hpp",I+"serialize_object.hpp"],
 [("perfect hash over member names with verification of the name found",I+"parse_object.hpp, detail/perfect_hash.hpp"),("FindMember per member",I+"deserialize_object.hpp")],
 ["value of every member after reading, keys written"])
p("C19","Variants take the first alternative that matches",
 "A variant is written exactly as its active alternative would be. Deserializing a variant yields the first alternative in declaration order that the document matches completely on its own, with the value that alternative would have, and fails if none matches; a failed attempt at an earlier alternative leaves no trace in the result.",
 ["inputs","programs"],"all variant types x all documents, at any nesting",
 "Tests use a few variants with documents matching one alternative.",
 [I+"write_variant.hpp",I+"serialize_variant.hpp",I+"deserialize_variant.hpp"],
 [("fold over alternatives, each into a fresh object",I+"deserialize_variant.hpp")],
 ["index and value of the variant after deserialization"])
p("C20","When parsing, nested values return control to exactly the enclosing construct",
 "After any value nested at any depth and position ends, parsing continues in exactly the enclosing construct: values of all siblings are unaffected by what was nested before them, and documents of every nesting the library supports are read correctly. Nesting beyond what the library supports is reported as an ordinary parse failure, never as a crash, a foreign exception or a wrong result, and the same document can be parsed again afterwards.",
 ["inputs","programs","histories"],"all nesting shapes and depths of recursive and composed types",
 "Tests nest two or three levels.",
 [I+"detail/polymorphic_stack.hpp",I+"parse_base.hpp",I+"parse_*.hpp",I+"parse.hpp"],
 [("handler stack: emplace, replace, pop",I+"parse_base.hpp, detail/polymorphic_stack.hpp")],
 ["parsed value, success or failure per depth","live handler objects"],
 [{"name":"stack of handlers","meaning":"open JSON constructs","where":I+"parse_base.hpp"}])
p("C21","Operations are pure: inputs unchanged, results depend only on inputs",
 "No operation changes its source: the C++ object written, the text parsed (other than a moved-from one), and the document deserialized compare equal before and after. Repeating an operation, in any order, after any other operations or failures, and into a string or document that already holds something, gives the same result, and writing a value that was just read gives the text of its first writing (up to the order of unordered dictionaries).",
 ["inputs","histories"],"all sequences of operations, successful or failing, over all types",
 "Tests perform each operation once on fresh data.",
 [I+"write_object.hpp",I+"serialize_object.hpp",I+"deserialize.hpp",I+"parse.hpp",I+"detail/*_context.hpp"],
 [("per-call contexts; const_cast in persist only reads",I+"write_object.hpp, serialize_object.hpp")],
 ["source before/after","result of repeated calls in shuffled histories"])
p("C22","Strings and keys are carried byte for byte",
 "Every valid UTF-8 string of any length, including empty strings, embedded NUL, quotes, backslashes, control characters and characters beyond the BMP, survives every operation unchanged, as a string value, container element, class member and dictionary key, and distinct keys stay distinct. Every JSON escape form (\\uXXXX, surrogate pairs, short escapes) in a text is read as the character it denotes.",
 ["inputs"],"all strings and keys x all positions x all paths x all equivalent escapings",
 "Tests use short ASCII strings.",
 [I+"write_string.hpp",I+"serialize_string.hpp",I+"parse_string.hpp",I+"deserialize_string.hpp",I+"write_map.hpp",I+"serialize_map.hpp",I+"parse_map.hpp",I+"deserialize_map.hpp"],
 [("length-carrying string calls",I+"*_string.hpp, *_map.hpp")],
 ["string content after each path"])
p("C23","User-defined specializations work wherever a built-in type does",
 "A type that the user supports by specializing JsonWriter, JsonParser, JsonSerializer and JsonDeserializer (a new format of its own, or a wrapper that delegates to the specialization of another type) behaves like a built-in type wherever such a type may stand: as root, required, optional or default member, element of vectors, sets, arrays, pairs and tuples, dictionary value, pointee and variant alternative. What the specialization writes stands in the text unchanged, what it reads is what the text has there, its refusal to write or read makes the whole operation fail with the error of its place, and its siblings are unaffected.",
 ["inputs"],"all values and documents x all places a user type may stand in",
 "The tests have no user-defined specialization.",
 [I+"write_base.hpp",I+"parse_base.hpp",I+"serialize_base.hpp",I+"deserialize_base.hpp","README.md (Extensible)"],
 [("containers and classes go through the specializations of their parts only",I+"*_vector.hpp, *_object.hpp, *_map.hpp, *_tuple.hpp, *_pointer.hpp")],
 ["results of all operations on values and documents that contain extension types"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
