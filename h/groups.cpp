// One translation unit per GROUP; each registers a family of types.
#define OPS_IMPL
#include "ops.hpp"
#ifndef GROUP
#error "GROUP"
#endif
#if GROUP == 13
#include "ext.hpp"
struct XEven { Even e; std::optional<Even> oe; Even d{ 4 }; std::vector<Even> v; FIELDS((R, e), (R, oe), (D, d), (R, v)) };
struct XText { Text<int> a; std::optional<Text<std::vector<int>>> b; std::vector<Text<bool>> c; std::map<std::string, std::vector<int>> d; FIELDS((R, a), (R, b), (R, c), (R, d)) };
struct XOne { Hex only; FIELDS((R, only)) };
struct XAll { Hex h; std::optional<Hex> oe; Box<int> b; std::vector<Hex> vh; std::optional<Box<std::string>> ob; Hex d{ 4 }; std::map<std::string, Box<C1>> m; FIELDS((R, h), (R, oe), (R, b), (R, vh), (R, ob), (D, d), (R, m)) };
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
using namespace std;
void CAT(register_group_, GROUP)() {
#if GROUP == 0   // scalars
    REG(nullptr_t) REG(bool) REG(char) REG(signed char) REG(unsigned char) REG(short) REG(unsigned short) REG(int) REG(unsigned) REG(long) REG(unsigned long) REG(long long) REG(unsigned long long)
    REG(float) REG(double) REG(string) REG(bytes) REG(ymd_t) REG(stamp_t)
    REG(EInt) REG(EU8) REG(ES8) REG(EI16) REG(EU16) REG(EU32) REG(EI64) REG(EU64) REG(EOld) REG(EStr) REG(EConv) REG(EOne) REG(ELL) REG(EULL) REG(EChar)
#ifdef PERSISTENCE_BOOST_DESCRIBE
    REG(EBoost)
#endif
#elif GROUP == 1   // vectors of scalars
    REG(vector<nullptr_t>) REG(vector<bool>) REG(vector<signed char>) REG(vector<unsigned char>) REG(vector<short>) REG(vector<unsigned short>) REG(vector<int>) REG(vector<unsigned>) REG(vector<long>) REG(vector<unsigned long>)
    REG(vector<long long>) REG(vector<unsigned long long>) REG(vector<char>) REG(vector<float>) REG(vector<double>) REG(vector<string>) REG(vector<bytes>) REG(vector<ymd_t>) REG(vector<stamp_t>) REG(vector<EInt>) REG(vector<EStr>) REG(vector<EConv>) REG(vector<EU8>) REG(CVecs)
#ifdef PERSISTENCE_BOOST_DESCRIBE
    REG(vector<EBoost>)
#endif
#elif GROUP == 2   // sets
    REG(set<bool>) REG(set<signed char>) REG(set<unsigned char>) REG(set<short>) REG(set<unsigned short>) REG(set<int>) REG(set<unsigned>) REG(set<long>) REG(set<unsigned long>) REG(set<long long>) REG(set<unsigned long long>) REG(set<char>) REG(set<float>) REG(set<double>) REG(set<string>) REG(set<bytes>) REG(set<ymd_t>) REG(set<stamp_t>) REG(set<EInt>) REG(set<EStr>)
    REG(set<vector<int>>) REG(set<pair<int, string>>) REG(set<C2>) REG(set<set<int>>) REG(set<C1>) REG(CSets)
#elif GROUP == 3   // arrays, pairs, tuples
    REG(array<int, 1>) REG(array<double, 2>) REG(array<string, 3>) REG(array<bool, 4>) REG(array<vector<int>, 2>) REG(array<array<short, 2>, 3>) REG(array<C2, 2>) REG(array<EStr, 2>) REG(array<ymd_t, 1>) REG(array<bytes, 2>) REG(array<long long, 2>) REG(array<unsigned char, 3>) REG(array<int, 20>) REG(array<string, 33>) REG(array<C1, 12>) REG(tuple<int, string, bool, int, string, bool, int, string, bool, int, vector<int>, C1s>)
    REG(pair<int, int>) REG(pair<string, vector<int>>) REG(pair<C1, C2>) REG(pair<double, bool>) REG(tuple<>) REG(tuple<int>) REG(tuple<string>) REG(tuple<int, string>) REG(tuple<bool, string, vector<int>>) REG(tuple<C1, tuple<int, string>, array<int, 2>>)
    REG(tuple<signed char, unsigned char, short, int, long, float, double, string>) REG(tuple<stamp_t, EStr, bytes, ymd_t, nullptr_t>) REG(tuple<unique_ptr<int>, map<string, int>>)
#elif GROUP == 4   // nested containers
    REG(vector<vector<int>>) REG(vector<vector<vector<string>>>) REG(vector<pair<int, string>>) REG(vector<tuple<bool, int, string>>) REG(vector<array<int, 2>>) REG(vector<set<int>>) REG(vector<map<string, int>>) REG(vector<unordered_map<string, string>>)
    REG(vector<unique_ptr<string>>) REG(vector<unique_ptr<double>>) REG(vector<unique_ptr<vector<int>>>) REG(vector<vector<bool>>) REG(vector<unique_ptr<bool>>) REG_NS(unique_ptr<int>) REG_NS(unique_ptr<string>) REG(unique_ptr<vector<string>>) REG_NS(unique_ptr<unique_ptr<int>>) REG(unique_ptr<C3>) REG(unique_ptr<map<string, C1>>) REG(array<set<string>, 2>)
#elif GROUP == 5   // dictionaries
    REG(map<string, int>) REG(map<string, long long>) REG(map<string, unsigned long long>) REG(map<string, string>) REG(map<string, bool>) REG(map<string, double>) REG(map<string, nullptr_t>) REG(map<string, bytes>) REG(map<string, EStr>) REG(map<string, EInt>) REG(map<string, ymd_t>) REG(map<string, stamp_t>) REG(map<string, vector<int>>) REG(map<string, set<string>>) REG(map<string, C3>) REG(map<string, map<string, int>>) REG(map<string, pair<int, string>>) REG(map<string, array<int, 2>>) REG(map<string, unique_ptr<string>>)
    REG(unordered_map<string, int>) REG(unordered_map<string, string>) REG(unordered_map<string, double>) REG(unordered_map<string, vector<string>>) REG(unordered_map<string, unordered_map<string, C1>>) REG(unordered_map<string, C2>)
#elif GROUP == 6   // small classes
    REG(C1) REG(C1s) REG(C1o) REG_NS(C1d) REG(C1v) REG(C2) REG(C2o) REG_NS(C2d) REG(C2m) REG(C3) REG_NS(C3x) REG(C3o) REG_NS(CD) REG(EPerm) REG(EDown) REG(C4) REG_NS(CNamed) REG(CEmptyKey) REG(CFund) REG(CDerived) REG(CDerived2) REG_NS(CDerived3) REG(CDerivedOne) REG(CPrivate) REG(CMove)
#elif GROUP == 7   // large classes
    REG_NS(COpt) REG_NS(COpt1) REG(CSame) REG(CBases) REG(CSpecial) REG(CCont) REG(CNest) REG_NS(CDefs) REG(CPrefix) REG_NS(CWide)
#elif GROUP == 8   // containers of classes, recursive classes
    REG_NS(vector<CD>) REG_NS(set<CD>) REG_NS(array<CD, 2>) REG_NS(pair<CD, CD>) REG_NS(tuple<CD, int, CD>) REG_NS(map<string, CD>) REG_NS(unordered_map<string, CD>) REG_NS(unique_ptr<CD>) REG_NS(vector<vector<CD>>) REG_NS(vector<unique_ptr<CD>>)
    REG(vector<C1>) REG(vector<C3>) REG(vector<C2o>) REG(vector<CDerived2>) REG(vector<unique_ptr<C2>>) REG(vector<CMove>) REG(map<string, CDerived>)
    REG_F(F_PARSE | F_DESER | F_SCHEMA | F_REC, CTree) REG_F(F_PARSE | F_DESER | F_SCHEMA | F_REC, CList) REG_F(F_PARSE | F_DESER | F_SCHEMA | F_REC, CDict) REG_F(F_PARSE | F_DESER | F_SCHEMA | F_REC, CMulti)
#elif GROUP == 9   // sharing
#define REG_S(...) REG_F(F_PARSE | F_DESER | F_SCHEMA | F_SHARE, __VA_ARGS__)
    REG_F(F_PARSE | F_DESER | F_SHARE, shared_ptr<int>) REG_F(F_PARSE | F_DESER | F_SHARE, shared_ptr<string>) REG_S(shared_ptr<C1>) REG_S(vector<shared_ptr<string>>) REG_S(vector<shared_ptr<double>>) REG_S(vector<shared_ptr<C1>>) REG_S(map<string, shared_ptr<C1>>) REG_S(array<shared_ptr<int>, 4>) REG_S(tuple<shared_ptr<string>, shared_ptr<string>, shared_ptr<int>, shared_ptr<int>>) REG_S(pair<shared_ptr<int>, shared_ptr<int>>)
    REG_S(SPair) REG_S(SItem) REG_S(SDeep) REG_S(SBase) REG_S(SDerived) REG_S(SFirst) REG_F(F_PARSE | F_DESER | F_SHARE, vector<shared_ptr<CD>>) REG_S(tuple<vector<shared_ptr<C1>>, vector<shared_ptr<int>>, shared_ptr<C1>>) REG_S(vector<vector<shared_ptr<int>>>) REG_S(unordered_map<string, vector<shared_ptr<string>>>) REG_S(shared_ptr<vector<shared_ptr<bool>>>) REG_S(vector<shared_ptr<map<string, shared_ptr<int>>>>) REG_S(unique_ptr<vector<shared_ptr<int>>>)
#elif GROUP == 10   // sharing in large classes
#define REG_S(...) REG_F(F_PARSE | F_DESER | F_SCHEMA | F_SHARE, __VA_ARGS__)
    REG_S(SGraph) REG_S(SNamed) REG_S(vector<SItem>) REG_S(vector<SNamed>) REG_S(SNode) REG_S(shared_ptr<SNode>) REG_S(map<string, vector<shared_ptr<SNode>>>)
    // write-only types
    REG_F(0, string_view) REG_F(0, vector<string_view>) REG_F(0, map<string_view, int>) REG_F(0, unordered_map<string_view, string>) REG_F(0, vector<pair<string, int>>) REG_F(0, vector<pair<string_view, C1>>) REG_F(0, int*) REG_F(0, vector<string*>) REG_F(0, C2*) REG_F(0, map<string, C1*>)
#elif GROUP == 11   // variants
#define REG_V(...) REG_F(F_DESER | F_SCHEMA | F_VARIANT, __VA_ARGS__)
    REG_V(variant<int>) REG_V(VScalar) REG_V(variant<nullptr_t, bool, int, string>) REG_V(variant<VA, VB>) REG_V(variant<vector<int>, vector<string>>) REG_V(variant<signed char, int, double>) REG_V(variant<EStr, string>) REG_V(variant<ymd_t, stamp_t, bytes, string>) REG_V(variant<VC, VA, map<string, int>>) REG_V(variant<pair<int, int>, tuple<int, string>, vector<int>>)
    REG_V(variant<bool, signed char, short, int, long, string, vector<bool>, vector<short>, vector<string>, VA, VB, VC>) REG_V(vector<VScalar>) REG_V(map<string, variant<int, VA, vector<VB>>>) REG_V(CVar) REG_V(variant<variant<bool, int>, variant<string, vector<bool>>>) REG_V(array<variant<int, string>, 2>) REG_V(tuple<VScalar, int>) REG_V(set<variant<int, string>>) REG_V(unique_ptr<VScalar>) REG_V(variant<unique_ptr<int>, string>)
#elif GROUP == 12
    REG_F(F_DESER | F_SCHEMA | F_VARIANT | F_SHARE, CVarS) REG_F(F_DESER | F_SCHEMA | F_VARIANT | F_SHARE, vector<variant<shared_ptr<int>, shared_ptr<string>>>)
    REG_F(F_DESER | F_SCHEMA | F_VARIANT | F_SHARE, variant<vector<shared_ptr<VA>>, vector<shared_ptr<VB>>>)
    REG_F(F_DESER | F_VARIANT, variant<CD, string>) REG_F(F_DESER | F_VARIANT, variant<vector<CD>, CD, int>) REG_F(F_DESER | F_VARIANT, map<string, variant<int, CD>>) REG_F(F_DESER | F_VARIANT, variant<unique_ptr<CD>, string>) REG_F(F_DESER | F_VARIANT, pair<variant<CD, C3x>, int>) REG_F(F_DESER | F_VARIANT, variant<C3x, CD>)
#elif GROUP == 13   // user extensions
#define REG_E(...) REG_F(F_PARSE | F_DESER, __VA_ARGS__)
    REG_E(Hex) REG_F(F_DESER, Even) REG_E(Box<int>) REG_E(Box<string>) REG_E(Box<vector<int>>) REG_E(Box<C3>) REG_E(Box<Box<map<string, Hex>>>) REG_E(vector<Hex>) REG_F(F_DESER, vector<Even>) REG_E(set<Hex>) REG_E(map<string, Hex>) REG_E(unordered_map<string, Box<C2>>) REG_E(array<Hex, 3>) REG_F(F_DESER, array<Even, 2>) REG_F(F_DESER, pair<Hex, Even>) REG_F(F_DESER, tuple<Even, Box<string>, Hex>) REG_E(vector<Box<bool>>) REG_E(vector<Box<vector<Hex>>>) REG_E(unique_ptr<Hex>) REG_F(F_DESER, vector<unique_ptr<Even>>) REG_E(Text<vector<int>>) REG_E(Text<Text<int>>) REG_E(vector<Text<int>>) REG_E(map<string, Text<vector<bool>>>) REG_E(set<Text<int>>) REG_E(pair<Text<pair<int, bool>>, string>) REG_E(vector<Text<vector<Text<int>>>>) REG_E(unique_ptr<Text<int>>) REG_E(XText) REG_E(XAll) REG_E(XOne) REG_F(F_DESER, XEven) REG_E(array<Hex, 2>) REG_E(pair<Hex, Box<int>>) REG_E(tuple<Box<string>, Hex, Box<bool>>) REG_E(vector<unique_ptr<Hex>>) REG_E(vector<XAll>)
    REG_F(F_PARSE | F_DESER | F_SHARE, vector<shared_ptr<Hex>>) REG_F(F_PARSE | F_DESER | F_SHARE, vector<shared_ptr<Box<C1>>>) REG_F(F_PARSE | F_DESER | F_SHARE, vector<Box<shared_ptr<int>>>)
    REG_F(F_DESER | F_VARIANT, variant<Hex, string>) REG_F(F_DESER | F_VARIANT, variant<Even, int, Box<string>>) REG_F(F_DESER | F_VARIANT, vector<variant<Box<C1>, Box<vector<Even>>, Hex>>)
#endif
}
