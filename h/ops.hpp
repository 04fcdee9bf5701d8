// Type-erased access to every public operation for one type, with the reference model beside it.
#pragma once
#include <functional>
#include "model.hpp"
#include <rapidjson/document.h>

enum Out { OK, NO, EPARSE, EDESER, ESER, EALLOC, EOTHER };
inline const char* out_name(Out o) { static const char* n[] = { "ok", "false", "JsonParseError", "JsonDeserializationError", "JsonSerializationError", "bad_alloc", "other exception" }; return n[o]; }
struct Res {
    Out o = OK;
    std::size_t offset = 0;
    std::string path, what;
};
enum Flag { F_PARSE = 1, F_DESER = 2, F_SCHEMA = 4, F_SHARE = 8, F_VARIANT = 16, F_REC = 32, F_SETPTR = 64 };

struct DecOut { int st; /*0 ok 1 fail 2 unspec*/ bool missing; std::string path, why; std::size_t b, e; };

struct TypeOps {
    std::string name;
    unsigned flags = 0;
    void* (*make)() = nullptr;
    void (*destroy)(void*) = nullptr;
    void (*gen)(Gen&, void*) = nullptr;
    bool (*enc)(Enc&, const void*, Node&) = nullptr;
    DecOut (*dec)(DecMode, const Node&, void*) = nullptr;
    // writing
    Res (*write)(const void*, std::string&) = nullptr;          // bool write_to_string(obj, str)
    Res (*write_v)(const void*, std::string&) = nullptr;        // std::string write_to_string(obj)
    Res (*ser)(const void*, rapidjson::Document&) = nullptr;    // bool serialize_to_document(obj, doc)
    Res (*ser_v)(const void*, rapidjson::Document&) = nullptr;
    // reading; target supplied, the value overloads move their result into it
    Res (*parse)(const std::string&, void*) = nullptr;
    Res (*parse_v)(const std::string&, void*) = nullptr;
    Res (*des_doc)(rapidjson::Document&, void*) = nullptr;
    Res (*des_doc_v)(rapidjson::Document&, void*) = nullptr;
    Res (*des)(const std::string&, void*) = nullptr;
    Res (*des_v)(const std::string&, void*) = nullptr;
    Res (*des_m)(std::string&&, void*) = nullptr;
    Res (*des_mv)(std::string&&, void*) = nullptr;
    int (*admits)(const Node&) = nullptr;                       // schema_model.hpp
    std::string (*schema)() = nullptr;
    std::string (*schema_doc)() = nullptr;

    std::string canon(const void* x) const { Enc e{ CANON }; Node n; enc(e, x, n); return mj::text(n); }
};

struct Val {
    const TypeOps* t; void* p;
    explicit Val(const TypeOps& t) : t(&t), p(t.make()) {}
    Val(Val&& o) noexcept : t(o.t), p(o.p) { o.p = nullptr; }
    Val(const Val&) = delete;
    Val& operator=(Val&& o) noexcept { std::swap(t, o.t); std::swap(p, o.p); return *this; }
    ~Val() { if (p) t->destroy(p); }
    std::string canon() const { return t->canon(p); }
};

std::vector<TypeOps>& registry();

#ifdef OPS_IMPL
#include "types.hpp"
// which operations are compiled in: each check builds only what it exercises
#define OP_WRITE 1
#define OP_SER 2
#define OP_PARSE 4
#define OP_DESER 8
#define OP_SCHEMA 16
#ifndef OPS_MASK
#define OPS_MASK 31
#endif
#if OPS_MASK & OP_SCHEMA
#include "schema_model.hpp"
#endif
template<typename F> Res guard(F&& f) {
    Res r;
    try { r.o = f() ? OK : NO; }
    catch (const persistence::JsonParseError& e) { r.o = EPARSE; r.offset = e.offset; r.what = e.what(); }
    catch (const persistence::JsonDeserializationError& e) { r.o = EDESER; r.path = e.path; r.what = e.what(); }
    catch (const persistence::JsonSerializationError& e) { r.o = ESER; r.what = e.what(); }
    catch (const std::bad_alloc&) { r.o = EALLOC; }
    catch (const std::exception& e) { r.o = EOTHER; r.what = e.what(); }
    catch (...) { r.o = EOTHER; r.what = "unknown exception"; }
    return r;
}
template<typename T, unsigned F> TypeOps make_ops(const char* name) {
    namespace P = persistence;
    TypeOps o;
    o.name = name;
    o.flags = F;
    o.make = [] () -> void* { return new T{}; };
    o.destroy = [] (void* p) { delete static_cast<T*>(p); };
    o.gen = [] (Gen& g, void* p) { Model<T>::gen(g, *static_cast<T*>(p)); };
    o.enc = [] (Enc& e, const void* p, Node& n) { return Model<T>::enc(e, *static_cast<const T*>(p), n); };
    if constexpr (OPS_MASK & OP_WRITE) {
    o.write = [] (const void* p, std::string& s) { return guard([&] { return P::write_to_string(*static_cast<const T*>(p), s); }); };
    o.write_v = [] (const void* p, std::string& s) { return guard([&] { s = P::write_to_string(*static_cast<const T*>(p)); return true; }); };
    }
    if constexpr (OPS_MASK & OP_SER) {
    o.ser = [] (const void* p, rapidjson::Document& d) { return guard([&] { return P::serialize_to_document(*static_cast<const T*>(p), d); }); };
    o.ser_v = [] (const void* p, rapidjson::Document& d) { return guard([&] { d = P::serialize_to_document(*static_cast<const T*>(p)); return true; }); };
    }
    if constexpr ((F & F_DESER) || (F & F_PARSE)) {
        o.dec = [] (DecMode m, const Node& n, void* p) {
            Dec d{ m };
            d.root = &n;
            bool good = Model<T>::dec(d, n, *static_cast<T*>(p));
            return DecOut{ d.unspec ? 2 : good ? 0 : 1, d.missing, d.fail_path, d.why, d.fail_beg, d.fail_end };
        };
    }
    if constexpr ((F & F_PARSE) && (OPS_MASK & OP_PARSE)) {
        o.parse = [] (const std::string& s, void* p) { return guard([&] { return P::parse(s, *static_cast<T*>(p)); }); };
        o.parse_v = [] (const std::string& s, void* p) { return guard([&] { *static_cast<T*>(p) = P::parse<T>(s); return true; }); };
    }
    if constexpr ((F & F_DESER) && (OPS_MASK & OP_DESER)) {
        o.des_doc = [] (rapidjson::Document& d, void* p) { return guard([&] { return P::deserialize(d, *static_cast<T*>(p)); }); };
        o.des_doc_v = [] (rapidjson::Document& d, void* p) { return guard([&] { *static_cast<T*>(p) = P::deserialize<T>(d); return true; }); };
        o.des = [] (const std::string& s, void* p) { return guard([&] { return P::deserialize(s, *static_cast<T*>(p)); }); };
        o.des_v = [] (const std::string& s, void* p) { return guard([&] { *static_cast<T*>(p) = P::deserialize<T>(s); return true; }); };
        o.des_m = [] (std::string&& s, void* p) { return guard([&] { return P::deserialize(std::move(s), *static_cast<T*>(p)); }); };
        o.des_mv = [] (std::string&& s, void* p) { return guard([&] { *static_cast<T*>(p) = P::deserialize<T>(std::move(s)); return true; }); };
    }
#if OPS_MASK & OP_SCHEMA
    if constexpr (F & F_SCHEMA) {
        o.admits = [] (const Node& n) { return SM<T>::ok(n); };
        o.schema = [] { return P::schema_to_string<T>(); };
        o.schema_doc = [] { return P::schema_document_to_string<T>(); };
    }
#endif
    return o;
}
#define STR_(...) #__VA_ARGS__
#define REG_F(F, ...) registry().push_back(make_ops<__VA_ARGS__, (F)>(STR_(__VA_ARGS__)));
#define REG(...) REG_F(F_PARSE | F_DESER | F_SCHEMA, __VA_ARGS__)
#define REG_NS(...) REG_F(F_PARSE | F_DESER, __VA_ARGS__)
#endif
