// map, for_each, folds and the cartesian loops, one call per script.
#define VERIF_ZERO
#include "seqs.hpp"
using namespace vf;

using A = ELEM;
// the result type of the mapped function
template<typename T> struct Out { using Type = T; };
template<> struct Out<char> { using Type = int; };
using R = Out<A>::Type;

inline int weigh(int) { return 0; }
template<typename X, typename... Xs> int weigh(int w, const X& x, const Xs&... xs) { return w * val(x) + weigh(w * 7, xs...); }

struct F {
    template<typename... X> R operator()(const X&... x) const { log_call(x...); return R(1 + weigh(1, x...)); }
};
struct Fi {
    template<typename... X> R operator()(size_t i, const X&... x) const { log_call(i, x...); return R(1 + 1000 * (int)i + weigh(1, x...)); }
};
struct V {
    template<typename... X> void operator()(const X&... x) const { log_call(x...); }
};
inline void bump(int) {}
template<typename X, typename... Xs> void bump(int k, X& x, Xs&... xs) { x = X(val(x) + k); bump(k + 1, xs...); }
struct Mu {
    template<typename... X> void operator()(X&... x) const { log_call(x...); bump(1, x...); }
};
struct Mui {
    template<typename... X> void operator()(size_t i, X&... x) const { log_call(i, x...); bump(1, x...); }
};

// can its elements be written through the sequence trait
template<typename S> struct Writable { static const bool value = std::is_same<decltype(efp::nth(0, std::declval<S&>())), efp::Element<S>&>::value && !std::is_const<efp::Element<S>>::value; };
template<typename... S> struct AllW;
template<> struct AllW<> { static const bool value = true; };
template<typename S, typename... T> struct AllW<S, T...> { static const bool value = Writable<S>::value && AllW<T...>::value; };

template<typename... S>
void call(const Call& c, Result& res, S&... s) {
    const std::string& fn = c.fn;
    if (fn == "map") { LIB(res, r, efp::map(F(), static_cast<const S&>(s)...)); res.take(r); }
    else if (fn == "mapi") { LIB(res, r, efp::map_with_index(Fi(), static_cast<const S&>(s)...)); res.take(r); }
    else if (fn == "fe") LIBV(res, efp::for_each(V(), static_cast<const S&>(s)...));
    else if (fn == "fei") LIBV(res, efp::for_each_with_index(V(), static_cast<const S&>(s)...));
    else if (fn == "cfe") LIBV(res, efp::cartesian_for_each(V(), static_cast<const S&>(s)...));
    else if (fn == "fem" || fn == "feim" || fn == "cfem") {
        if constexpr (AllW<S...>::value) {
            if (fn == "fem") LIBV(res, efp::for_each_mut(Mu(), s...));
            else if (fn == "feim") LIBV(res, efp::for_each_with_index_mut(Mui(), s...));
            else LIBV(res, efp::cartesian_for_each_mut(Mu(), s...));
        } else bad("kind for a mutating function");
    } else if (fn == "foldl" || fn == "foldr") {
        if constexpr (sizeof...(S) == 1) {
            if (fn == "foldl") {
                LIB(res, r, efp::foldl([](const Wide& acc, const A& x) { log_call(acc.val(), x); return Wide((acc.val() * 3 + val(x)) % 100003); }, Wide(c.at(0)), static_cast<const S&>(s)...));
                res.one(r.val());
            } else {
                LIB(res, r, efp::foldr([](const A& x, const Wide& acc) { log_call(x, acc.val()); return Wide((acc.val() * 3 + val(x)) % 100003); }, Wide(c.at(0)), static_cast<const S&>(s)...));
                res.one(r.val());
            }
        }
    } else bad("function");
}

void plain(const Call& c, Result& res) {
    if (c.fn == "fori") LIBV(res, efp::for_index(V(), c.at(0)));
    else if (c.fn == "cfi1") LIBV(res, efp::cartesian_for_index(V(), c.at(0)));
    else if (c.fn == "cfi2") LIBV(res, efp::cartesian_for_index([](size_t a, size_t b) { log_call(a, b); }, (size_t)c.at(0), (size_t)c.at(1)));
    else if (c.fn == "cfi3") LIBV(res, efp::cartesian_for_index([](size_t a, size_t b, size_t d) { log_call(a, b, d); }, (size_t)c.at(0), (size_t)c.at(1), (size_t)c.at(2)));
    else if (c.fn.substr(0, 4) == "comp") {
        const auto f = [](int x) { log_call(1, x); return x + 1; };
        const auto g = [](int x) { log_call(2, x); return x * 3; };
        const auto h = [](int x) { log_call(3, x); return x - 7; };
        const auto b = [](int x, int y) { log_call(4, x, y); return x * 10 + y; };
        const int n = c.fn[4] - '0';
        if (n == 1) { LIB(res, r, efp::compose(f)(c.at(0))); res.one(r); }
        else if (n == 2) { LIB(res, r, efp::compose(f, g)(c.at(0))); res.one(r); }
        else if (n == 3) { LIB(res, r, efp::compose(f, g, h)(c.at(0))); res.one(r); }
        else if (n == 4) { LIB(res, r, efp::compose(g, h, f, f)(c.at(0))); res.one(r); }
        else { LIB(res, r, efp::compose(f, g, b)(c.at(0), c.at(1))); res.one(r); }
    } else bad("function");
}

int main() {
    for_each_script([](int k, const Script& s) {
        Call c(s);
        Ev("case").num("k", k);
        Case one;
        {
            clog().clear();
            Result res;
            std::string st = "ok", after = "[]";
            auto go = [&](auto&... q) {
                st = guarded([&] { call(c, res, q...); });
                after = json_list({contents(q)...});
            };
            if (c.q.empty()) st = guarded([&] { plain(c, res); });
            else with_seqs<A>(c.q, go);
            Ev e("call");
            e.str("fn", c.fn).seq("a", c.a).raw("xs", c.xs()).raw("kd", c.kinds()).raw("nb", c.bounds()).str("st", st)
                .raw("after", after).raw("calls", clog().json()).raw("r", res.r).str("rk", res.rk).num("rc", res.rc).num("lal", res.al);
        }
    });
}
