// Replays scripts on Tuple.  Header: mix arity.
// ops: make s v1..vn | maket s v1..vn | set s i v form | copy/cassign/move/massign s t | swap s t | eq/ne s t | match s
#include "common.hpp"
#include <type_traits>
using namespace vf;
namespace vf { inline int val(char c) { return (unsigned char)c; } inline int val(long c) { return (int)c; } }

// component types: mix 0 all int, 1 all heap-owning, 2 mixed, 3 mixed otherwise
template<int mix, int i> struct Comp { using Type = int; };
#ifdef TRACK
template<int i> struct Comp<1, i> { using Type = track::T4; };
template<int i> struct Comp<2, i> { using Type = typename std::conditional<i % 2 == 0, track::T16, track::T4>::type; };
#else
template<int i> struct Comp<1, i> { using Type = Box; };
template<int i> struct Comp<2, i> {
    using Type = typename std::conditional<i % 4 == 0, int, typename std::conditional<i % 4 == 1, Box,
                 typename std::conditional<i % 4 == 2, Wide, double>::type>::type>::type;
};
#endif
template<int i> struct Comp<3, i> {
    using Type = typename std::conditional<i % 3 == 0, char, typename std::conditional<i % 3 == 1, long, Wide>::type>::type;
};

// a number that is zero in two ways
struct Zero {
    float f;
    Zero(int v) : f(v ? (float)v : next()) {}
    static float next() { static bool neg = false; neg = !neg; return neg ? -0.0f : 0.0f; }
};
inline bool operator==(const Zero& a, const Zero& b) { return a.f == b.f; }
inline bool operator!=(const Zero& a, const Zero& b) { return a.f != b.f; }
namespace vf { inline int val(const Zero& z) { return (int)z.f; } inline int val(short s) { return s; } }
template<int i> struct Comp<4, i> {
    using Type = typename std::conditional<i % 3 == 0, int, typename std::conditional<i % 3 == 1, char, short>::type>::type;
};
template<int i> struct Comp<5, i> { using Type = typename std::conditional<i % 3 == 2, char, Zero>::type; };

template<int... i> struct Ix {};
template<int n, int... i> struct MakeIx : MakeIx<n - 1, n - 1, i...> {};
template<int... i> struct MakeIx<0, i...> { using Type = Ix<i...>; };

static std::vector<int>* seen;
struct Branch {
    template<typename... X> int operator()(const X&... x) const {
        int u[] = {0, (seen->push_back(val(x)), 0)...};
        (void)u;
        return (int)sizeof...(X) * 100 + (*seen)[0];
    }
};

template<int mix, int n, typename I> struct Run;
template<int mix, int n, int... i> struct Run<mix, n, Ix<i...>> {
    using T = efp::Tuple<typename Comp<mix, i>::Type...>;
    static std::vector<int> by_index(T& t) { const T& c = t; return {val(efp::get<i>(c))...}; }
    static std::vector<int> by_member(T& t) { return {val(t.template get<i>())...}; }
    static std::vector<int> by_p(T& t) { const T& c = t; return {val(efp::p<i>(c))...}; }
    static std::vector<int> by_pm(T& t) { return {val(efp::p<i>(t))...}; }
    // fst and snd, where there are two, else the first twice
    template<typename U> static auto second(U& t, int) -> decltype(val(efp::snd(t))) { return val(efp::snd(t)); }
    static std::vector<int> by_name(T& t, std::true_type) { const T& c = t; return {val(efp::fst(c)), val(efp::snd(c)), val(efp::fst(t)), val(efp::snd(t))}; }
    static std::vector<int> by_name(T& t, std::false_type) { const T& c = t; return {val(efp::fst(c)), val(efp::fst(t))}; }

    template<int k> static void put(T& t, int v, int form) {
        using C = typename Comp<mix, k>::Type;
        if (form == 0) efp::get<k>(t) = C(v);
        else if (form == 1) efp::p<k>(t) = C(v);
        else t.template get<k>() = C(v);
    }
    static void put_name(T& t, int k, int v, std::true_type) {
        if (k == 0) efp::fst(t) = typename Comp<mix, 0>::Type(v); else efp::snd(t) = typename Comp<mix, 1>::Type(v);
    }
    static void put_name(T& t, int, int v, std::false_type) { efp::fst(t) = typename Comp<mix, 0>::Type(v); }

    static void run(int k, const Script& s) {
        Ev("case").num("k", k).num("n", n);
        Case one;
        Own<T> c[2];
        std::vector<int> log;
        log.reserve(64);
        seen = &log;
        const std::integral_constant<bool, (n > 1)> two;
        for (auto& p : c) p.reset(fresh<T>(typename Comp<mix, i>::Type(0)...));
        auto obs = [&](Ev& e) {
            std::vector<std::string> v;
            for (auto& p : c)
                v.push_back(json_list({json_arr(by_index(*p)), json_arr(by_member(*p)), json_arr(by_p(*p)), json_arr(by_pm(*p)), json_arr(by_name(*p, two))}));
            e.raw("t", json_list(v));
        };
        { Ev e("start"); obs(e); }
        for (const Op& o : s.ops) {
            const int a = o.at(0), b = o.at(1);
            int r = 0;
            bool ref = true;
            log.clear();
            std::string st = guarded([&] {
                T& t = *c[a];
                if (o.name == "make") c[a].reset(fresh<T>(typename Comp<mix, i>::Type(o.at(1 + i))...));
                else if (o.name == "maket") t = efp::tuple(typename Comp<mix, i>::Type(o.at(1 + i))...);
                else if (o.name == "set") {
                    if (o.at(3) == 3) put_name(t, b, o.at(2), two);
                    else { int u[] = {0, (b == i ? (put<i>(t, o.at(2), o.at(3)), 0) : 0)...}; (void)u; }
                }
                else if (o.name == "copy") c[a].reset(fresh<T>(static_cast<const T&>(*c[b])));
                else if (o.name == "move") c[a].reset(fresh<T>(efp::move(*c[b])));
                else if (o.name == "cassign") ref = &(t = static_cast<const T&>(*c[b])) == &t;
                else if (o.name == "massign") ref = &(t = efp::move(*c[b])) == &t;
                else if (o.name == "swap") efp::swap(t, *c[b]);
                else if (o.name == "eq") r = static_cast<const T&>(t) == static_cast<const T&>(*c[b]);
                else if (o.name == "ne") r = static_cast<const T&>(t) != static_cast<const T&>(*c[b]);
                else if (o.name == "match") r = static_cast<const T&>(t).match(Branch());
                else { fprintf(stderr, "bad op %s\n", o.name.c_str()); exit(3); }
            });
            Ev e(o.name.c_str());
            std::vector<int> rest(o.a.begin() + 1, o.a.end());
            e.num("s", a + 1).seq("a", rest).str("st", st).num("r", r).boo("ref", ref).seq("seen", log);
            obs(e);
        }
    }
};
template<int mix, int n> void run(int k, const Script& s) { Run<mix, n, typename MakeIx<n>::Type>::run(k, s); }

template<int mix> void arity(int n, int k, const Script& s) {
    switch (n) {
        case 1: return run<mix, 1>(k, s);
        case 2: return run<mix, 2>(k, s);
        case 3: return run<mix, 3>(k, s);
        case 4: return run<mix, 4>(k, s);
        case 5: return run<mix, 5>(k, s);
        case 9: return run<mix, 9>(k, s);
        default: exit(3);
    }
}

int main() {
    for_each_script([](int k, const Script& s) {
        const int n = atoi(s.head[1].c_str());
        switch (atoi(s.head[0].c_str())) {
            case 0: return arity<0>(n, k, s);
            case 1: return arity<1>(n, k, s);
            case 2: return arity<2>(n, k, s);
            case 3: return arity<3>(n, k, s);
            case 4: return arity<4>(n, k, s);
            case 5: return arity<5>(n, k, s);
            default: exit(3);
        }
    });
}
