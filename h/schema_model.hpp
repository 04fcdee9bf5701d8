// Which documents a type's schema has to admit or refuse, decided from the C++ type alone. 0: refuse, 1: admit, 2: no verdict.
#pragma once
#include "model.hpp"

template<typename T, typename = void> struct SM;
inline int s_and(int a, int b) { return a == 0 || b == 0 ? 0 : a == 2 || b == 2 ? 2 : 1; }
inline int s_kind(const Node& n, mj::Kind k) { return n.k == k; }

template<> struct SM<std::nullptr_t> { static int ok(const Node& n) { return s_kind(n, mj::Null); } };
template<> struct SM<bool> { static int ok(const Node& n) { return s_kind(n, mj::Bool); } };
template<typename T> struct SM<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static int ok(const Node& n) {
        if (n.k != mj::Num) return 0;
        if (!mj::is_int_lit(n.s)) { double d = c_strtod(n.s.c_str()); return d == std::floor(d) ? 2 : 0; } // 1.0 is an integer to a schema
        i128 v;
        return lit_to_i128(n.s, v) && v >= i128(std::numeric_limits<T>::min()) && v <= i128(std::numeric_limits<T>::max());
    }
};
template<typename T> struct SM<T, std::enable_if_t<std::is_floating_point_v<T>>> { static int ok(const Node& n) { return s_kind(n, mj::Num); } };
template<> struct SM<std::string> { static int ok(const Node& n) { return s_kind(n, mj::Str); } };
// the format of these is not asserted by a schema: any string is either admitted or not
template<> struct SM<bytes> { static int ok(const Node& n) { return n.k != mj::Str ? 0 : 2; } };
template<> struct SM<ymd_t> { static int ok(const Node& n) { return n.k != mj::Str ? 0 : 2; } };
template<> struct SM<stamp_t> { static int ok(const Node& n) { return n.k != mj::Str ? 0 : 2; } };
template<typename E> struct SM<E, std::enable_if_t<std::is_enum_v<E>>> {
    static int ok(const Node& n) {
        if (EnumNames<E>::named) return n.k != mj::Str ? 0 : 2;
        if (n.k != mj::Num) return 0;
        if (!mj::is_int_lit(n.s)) { double d = c_strtod(n.s.c_str()); return d == std::floor(d) ? 2 : 0; }
        i128 v;
        using U = std::underlying_type_t<E>;
        return lit_to_i128(n.s, v) && v >= i128(std::numeric_limits<U>::min()) && v <= i128(std::numeric_limits<U>::max()) ? 1 : 2;
    }
};
template<typename T> int s_items(const Node& n) { int r = 1; for (auto& c : n.a) r = s_and(r, SM<T>::ok(c)); return r; }
template<typename T> struct SM<std::vector<T>, std::enable_if_t<!std::is_same_v<T, std::byte>>> { static int ok(const Node& n) { return n.k != mj::Arr ? 0 : s_items<T>(n); } };
template<typename T> struct SM<std::set<T>> {
    static int ok(const Node& n) {
        if (n.k != mj::Arr) return 0;
        std::set<std::string> seen;
        int r = s_items<T>(n);
        for (auto& c : n.a) if (std::string t = mj::text(c); !seen.insert(t).second || t.find("-0") != std::string::npos) r = s_and(r, 2);
        if (std::is_floating_point_v<T> && n.a.size() > 1) r = s_and(r, 2); // equal numbers in other notation
        return r;
    }
};
template<typename T, std::size_t N> struct SM<std::array<T, N>> { static int ok(const Node& n) { return n.k != mj::Arr || n.a.size() != N ? 0 : s_items<T>(n); } };
template<typename C> struct STuple {
    static int ok(const Node& n) { return n.k != mj::Arr || n.a.size() != std::tuple_size_v<C> ? 0 : all(n, std::make_index_sequence<std::tuple_size_v<C>>()); }
    template<std::size_t... I> static int all(const Node& n, std::index_sequence<I...>) { (void)n; int r = 1; ((r = s_and(r, SM<std::tuple_element_t<I, C>>::ok(n.a[I]))), ...); return r; }
};
template<typename A, typename B> struct SM<std::pair<A, B>> : STuple<std::pair<A, B>> {};
template<typename... Ts> struct SM<std::tuple<Ts...>> : STuple<std::tuple<Ts...>> {};
template<typename V> struct SM<std::map<std::string, V>> { static int ok(const Node& n) { return n.k != mj::Obj ? 0 : s_items<V>(n); } };
template<typename V> struct SM<std::unordered_map<std::string, V>> : SM<std::map<std::string, V>> {};
template<typename T> struct SM<std::unique_ptr<T>> : SM<T> {};
template<typename T> struct SM<std::shared_ptr<T>> : SM<T> {};
template<typename... Ts> struct SM<std::variant<Ts...>> {
    static int ok(const Node& n) {
        int admit = 0, maybe = 0;
        ((SM<Ts>::ok(n) == 1 ? ++admit : SM<Ts>::ok(n) == 2 ? ++maybe : 0), ...);
        if (admit + maybe == 0) return 0;
        return admit == 1 && maybe == 0 ? 1 : 2;   // K4: alternatives that overlap
    }
};
struct SVisitor {
    const Node& n; int r = 1; std::size_t known = 0;
    template<typename M> void field(const char* name, M&, bool) {
        const Node* v = n.find(name);
        if constexpr (is_opt<M>::value) { if (v) { ++known; r = s_and(r, SM<typename M::value_type>::ok(*v)); } }
        else { if (v) { ++known; r = s_and(r, SM<M>::ok(*v)); } else r = 0; }
    }
};
template<typename T> struct SM<T, std::enable_if_t<Visitable<T>>> {
    static int ok(const Node& n) {
        if (n.k != mj::Obj) return 0;
        SVisitor v{ n };
        static T dummy{};
        dummy.visit(v);
        return v.known != n.a.size() ? 0 : v.r;   // duplicate keys are filtered by the caller
    }
};
