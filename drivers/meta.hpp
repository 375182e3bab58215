// What the compiler makes of the library's types and constants: included by generated programs.
#ifndef VERIF_META_HPP_
#define VERIF_META_HPP_
#include "common.hpp"
#include <map>
#include <type_traits>
using namespace vf;

template<int k> struct S {};

template<typename T> struct Code { static constexpr int v = -1; };
template<int k> struct Code<S<k>> { static constexpr int v = k; };
template<int k> struct Code<const S<k>> { static constexpr int v = 100 + k; };
template<typename T> struct Code<T*> { static constexpr int v = 1000 + Code<T>::v; };
template<typename T> struct Code<T&> { static constexpr int v = 10000 + Code<T>::v; };
template<typename T> struct Code<T&&> { static constexpr int v = 20000 + Code<T>::v; };
template<typename T> constexpr int code() { return Code<T>::v; }

typedef std::vector<long long> Res;
template<typename T> struct Codes { static void add(Res& r) { r.push_back(-2); } };
template<typename... Ts> struct Codes<efp::Tuple<Ts...>> { static void add(Res& r) { r.insert(r.end(), {(long long)code<Ts>()...}); } };
template<typename... Ts> struct Codes<efp::TypeList<Ts...>> { static void add(Res& r) { r.insert(r.end(), {(long long)code<Ts>()...}); } };
template<typename R, typename... Ts> struct Codes<R (*)(Ts...)> { static void add(Res& r) { r.insert(r.end(), {(long long)code<R>(), (long long)code<Ts>()...}); } };
template<int... ns> struct Codes<efp::IndexSequence<ns...>> { static void add(Res& r) { r.insert(r.end(), {(long long)ns...}); } };

template<typename A> constexpr A step(const A& a, const A& b) { return static_cast<A>(3 * a + b); }

// a double that has to be whole, and a number of units
inline long long whole(double x) { return x == (long long)x ? (long long)x : -999999; }
inline long long units(size_t x, int bits) { return (x >> bits << bits) == x ? (long long)(x >> bits) : -999999; }

// the ends of a type by rank
template<typename A> constexpr A end_value(int k) {
    typedef std::numeric_limits<A> L;
    return k == 1 ? L::lowest() : k == 2 ? static_cast<A>(L::is_integer ? L::lowest() + 1 : L::lowest() / 2)
         : k == 3 ? static_cast<A>(-1) : k == 4 ? static_cast<A>(0) : k == 5 ? static_cast<A>(1)
         : k == 6 ? static_cast<A>(L::is_integer ? L::max() - 1 : L::max() / 2) : L::max();
}
template<typename A> int end_rank(A x) {
    for (int k = std::numeric_limits<A>::is_signed ? 1 : 4; k <= 7; ++k) if (x == end_value<A>(k)) return k;
    return -999999;
}

struct Expr {
    const char* script;
    void (*eval)(Res&);
    const char* how;
    const char* f;
    std::vector<int> a, t;
};

inline int run(const Expr* exprs, size_t n) {
    std::map<std::string, const Expr*> all;
    for (size_t i = 0; i < n; ++i) all[exprs[i].script] = exprs + i;
    std::string line;
    for (int k = 0; std::getline(std::cin, line); ++k) {
        if (line.empty()) continue;
        auto it = all.find(line);
        if (it == all.end()) { fprintf(stderr, "unknown expression %s\n", line.c_str()); return 3; }
        const Expr& e = *it->second;
        Ev("case").num("k", k);
        Case one;
        Res r;
        e.eval(r);
        last_allocs() = 0;
        Ev("expr").str("how", e.how).str("f", e.f).seq("a", e.a).seq("t", e.t).seq("r", r);
    }
    return 0;
}
#endif
