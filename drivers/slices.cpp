// take, drop, slice, tail, init, take_while, drop_while and their unsafe forms, head and last: chains of views over one
// source.  Script: `kind n rot values...|op;op;...`; an op is `fn a b mode mut` or `write i v`.
// mode: 0 run-time size_t, 1 compile-time, 2 compile-time start and run-time end, 3 the reverse, 4 run-time int
#include "seqs.hpp"
#include <functional>
using namespace vf;

using A = ELEM;
// groups of sources; in the last two a view can be sliced again
#if GROUP >= 4
const int kLevels = 2;
#else
const int kLevels = 1;
#endif

struct Pred {
    int b;
    template<typename X> bool operator()(const X& x) const { return val(x) < b; }
};

struct Watch {
    const A* base;
    std::vector<std::function<std::string()>> views;
    std::function<void(int, int)> write;
};

// every way of reading a view agrees, or the difference shows as an impossible value
template<typename S> std::string reading(const S& s, S& m) {
    std::vector<int> r, q, t, u;
    size_t n = efp::length(s);
    if (n > 1000) return "[-778]";
    for (size_t i = 0; i < n; ++i) r.push_back(val(efp::nth(i, s)));
    for (const auto& x : s) { q.push_back(val(x)); if (q.size() > 1000) break; }
    for (size_t i = 0; i < (size_t)s.size(); ++i) t.push_back(val(s[i]));
    for (size_t i = 0; i < n; ++i) u.push_back(val(efp::data(m)[i]));
    if (r != q || r != t || r != u) return "[-777]";
    return json_arr(r);
}

template<int level, typename S>
void step(const std::vector<Op>& ops, size_t k, Watch& w, S& s);

inline Ev& common(Ev& e, const Op& o, Watch& w) {
    std::vector<std::string> v;
    for (auto& f : w.views) v.push_back(f());
    return e.num("x", o.at(0)).num("y", o.at(1)).num("mode", o.at(2)).num("mut", o.at(3)).raw("views", json_list(v));
}

template<int level, typename V>
void view(const std::vector<Op>& ops, size_t k, Watch& w, V v) {
    w.views.push_back([&v] { return reading(static_cast<const V&>(v), v); });
    {
        Ev e(ops[k].name.c_str());
        common(e, ops[k], w);
        const size_t n = efp::length(v);
        e.str("st", "ok").num("off", n ? (long)(efp::data(v) - w.base) : 0).num("len", n > 100000 ? -1 : (long)n);
        const size_t c = efp::CtCapacity<V>::value;
        e.str("rk", KindOf<V>::name()).num("rc", c == efp::dyn ? -1 : (long)c);
    }
    if constexpr (level < kLevels) step<level + 1>(ops, k + 1, w, v);
    else step<9>(ops, k + 1, w, v);
    w.views.pop_back();
}

inline void failed(const std::vector<Op>& ops, size_t k, Watch& w, const std::string& st) {
    Ev e(ops[k].name.c_str());
    common(e, ops[k], w).str("st", st).num("off", 0).num("len", 0).str("rk", "none").num("rc", -1);
}

// the library call alone is guarded: what follows runs outside of it
template<int level, typename F>
void make(const std::vector<Op>& ops, size_t k, Watch& w, const F& f) {
    using V = decltype(f());
    Own<V> p;
    const std::string st = guarded([&] { p.reset(fresh<V>(f())); });
    if (st == "ok") view<level, V>(ops, k, w, *p);
    else { failed(ops, k, w, st); if constexpr (level < 9) step<9>(ops, k + 1, w, w); }
}

template<typename F> void elem_of(const std::vector<Op>& ops, size_t k, Watch& w, const F& f) {
    const A* p = nullptr;
    const std::string st = guarded([&] { p = &f(); });
    if (st != "ok") failed(ops, k, w, st);
    else {
        Ev e(ops[k].name.c_str());
        common(e, ops[k], w).str("st", st).num("off", (long)(p - w.base)).num("len", 1).str("rk", "none").num("rc", val(*p));
    }
}

// a run-time count; from a thousand million on, the largest ones
inline size_t cnt(int x) { return x >= 1000000000 ? (size_t)-1 - (size_t)(x - 1000000000) : (size_t)x; }

template<int n> using Z = efp::Size<n>;
template<typename T> constexpr size_t ValueOf() { return std::remove_reference<T>::type::value; }
template<typename G> void size1(int n, const G& g) {
    switch (n) { case 0: g(Z<0>()); break; case 1: g(Z<1>()); break; case 2: g(Z<2>()); break; case 3: g(Z<3>()); break;
                 case 4: g(Z<4>()); break; case 6: g(Z<6>()); break; default: bad("compile-time count"); }
}
template<typename G> void size2(int n, const G& g) {
    switch (n) { case 0: g(Z<0>()); break; case 1: g(Z<1>()); break; case 3: g(Z<3>()); break; case 6: g(Z<6>()); break; default: bad("compile-time bound"); }
}

// sources whose compile-time size or capacity is zero have no tail or init
template<typename S> struct NonNull { static const bool value = efp::CtSize<S>::value != 0 && efp::CtCapacity<S>::value != 0; };

template<int level, typename S>
void counts(const std::vector<Op>& ops, size_t k, Watch& w, S& s) {
    const Op& o = ops[k];
    const std::string& fn = o.name;
    const int mode = o.at(2);
    auto go = [&](auto x) {
        if (fn == "take") make<level>(ops, k, w, [&] { return efp::take(x, s); });
        else make<level>(ops, k, w, [&] { return efp::drop(x, s); });
    };
    if (mode == 0) go(cnt(o.at(0)));
    else if (mode == 4) go((int)o.at(0));
    else if constexpr (level <= 1) size1(o.at(0), go);
    else size2(o.at(0), go);
}
template<int level, typename S>
void ucounts(const std::vector<Op>& ops, size_t k, Watch& w, S& s) {
    const Op& o = ops[k];
    auto go = [&](auto x) {
        if (o.name == "utake") make<level>(ops, k, w, [&] { return efp::take_unsafe(x, s); });
        else make<level>(ops, k, w, [&] { return efp::drop_unsafe(x, s); });
    };
    if (o.at(2) == 0) go((size_t)o.at(0));
    else if constexpr (level <= 1)
        size1(o.at(0), [&](auto z) {
            if constexpr (ValueOf<decltype(z)>() <= efp::CtCapacity<S>::value) go(z);
            else bad("unsafe count");
        });
    else bad("unsafe mode");
}
template<int level, typename S>
void slices(const std::vector<Op>& ops, size_t k, Watch& w, S& s) {
    const Op& o = ops[k];
    const int mode = o.at(2);
    auto go = [&](auto x, auto y) { make<level>(ops, k, w, [&] { return efp::slice(x, y, s); }); };
    if (mode == 0) go(cnt(o.at(0)), cnt(o.at(1)));
    else if (mode == 4) go((int)o.at(0), (int)o.at(1));
    else if constexpr (level <= 1) {
        if (mode == 1) size2(o.at(0), [&](auto x) { size2(o.at(1), [&](auto y) { go(x, y); }); });
        else if (mode == 2) size2(o.at(0), [&](auto x) { go(x, cnt(o.at(1))); });
        else size2(o.at(1), [&](auto y) { go(cnt(o.at(0)), y); });
    } else bad("slice mode");
}
template<int level, typename S>
void uslices(const std::vector<Op>& ops, size_t k, Watch& w, S& s) {
    const Op& o = ops[k];
    auto go = [&](auto x, auto y) { make<level>(ops, k, w, [&] { return efp::slice_unsafe(x, y, s); }); };
    if (o.at(2) == 0) go((size_t)o.at(0), (size_t)o.at(1));
    else if constexpr (level <= 1)
        size2(o.at(0), [&](auto x) {
            size2(o.at(1), [&](auto y) {
                if constexpr (ValueOf<decltype(x)>() <= ValueOf<decltype(y)>() && ValueOf<decltype(y)>() <= efp::CtCapacity<S>::value) go(x, y);
                else bad("unsafe range");
            });
        });
    else bad("unsafe mode");
}

template<int level, typename S>
void apply(const std::vector<Op>& ops, size_t k, Watch& w, S& s) {
    const std::string& fn = ops[k].name;
    const Op& o = ops[k];
    if (fn == "take" || fn == "drop") counts<level>(ops, k, w, s);
    else if (fn == "utake" || fn == "udrop") ucounts<level>(ops, k, w, s);
    else if (fn == "slice") slices<level>(ops, k, w, s);
    else if (fn == "uslice") uslices<level>(ops, k, w, s);
    else if (fn == "takew") make<level>(ops, k, w, [&] { return efp::take_while(Pred {o.at(0)}, s); });
    else if (fn == "dropw") make<level>(ops, k, w, [&] { return efp::drop_while(Pred {o.at(0)}, s); });
    else if (fn == "tail" || fn == "init") {
        if constexpr (NonNull<S>::value) {
            if (fn == "tail") make<level>(ops, k, w, [&] { return efp::tail(s); });
            else make<level>(ops, k, w, [&] { return efp::init(s); });
        } else { failed(ops, k, w, "absent"); step<9>(ops, k + 1, w, w); }
    } else if (fn == "head") { elem_of(ops, k, w, [&]() -> const A& { return efp::head(s); }); step<9>(ops, k + 1, w, w); }
    else if (fn == "last") { elem_of(ops, k, w, [&]() -> const A& { return efp::last(s); }); step<9>(ops, k + 1, w, w); }
    else bad("function");
}

template<int level, typename S>
void step(const std::vector<Op>& ops, size_t k, Watch& w, S& s) {
    if (k >= ops.size()) return;
    if (ops[k].name == "write") {
        w.write(ops[k].at(0), ops[k].at(1));
        { Ev e("write"); common(e, ops[k], w).str("st", "ok").num("off", 0).num("len", 0).str("rk", "none").num("rc", -1); }
        step<level>(ops, k + 1, w, s);
        return;
    }
    if constexpr (level < 9) {
        // a view of a view is taken from a constant one, or with MUT2 from a mutable one
#ifdef MUT2
        const bool both = false, mut = level > 1;
#else
        const bool both = level == 1, mut = false;
#endif
        if constexpr (both) {
            if (ops[k].at(3)) apply<level>(ops, k, w, s);
            else apply<level>(ops, k, w, static_cast<const S&>(s));
        } else if constexpr (mut) apply<level>(ops, k, w, s);
        else apply<level>(ops, k, w, static_cast<const S&>(s));
    } else bad("chain too long");
}

template<typename S>
void whole(const std::vector<Op>& ops, S& s) {
    Watch w;
    w.base = efp::data(s);
    w.write = [&](int i, int v) { const_cast<A&>(efp::nth(i, s)) = A(v); };
    w.views.push_back([&] { return contents(s); });
    step<1>(ops, 0, w, s);
}

int main() {
    for_each_script([](int k, const Script& s) {
        Op h(std::string("seq ") + [&] { std::string t; for (auto& x : s.head) t += x + " "; return t; }());
        SeqSpec q(h);
        Ev("case").num("k", k).num("kd", q.kind).num("nb", q.n).seq("xs", q.v);
        Case one;
        auto go = [&](auto& src) { whole(s.ops, src); };
        switch (q.kind * 100 + q.n) {
#if GROUP == 0
            case 0: mk_array<A, 0>(q, go); break;
            case 100: mk_stdarray<A, 0>(q, go); break;
            case 1: mk_array<A, 1>(q, go); break;
            case 2: mk_array<A, 2>(q, go); break;
            case 3: mk_array<A, 3>(q, go); break;
            case 4: mk_array<A, 4>(q, go); break;
            case 101: mk_stdarray<A, 1>(q, go); break;
            case 103: mk_stdarray<A, 3>(q, go); break;
#elif GROUP == 1
            case 200: mk_arrayview<A, 0>(q, go); break;
            case 400: mk_arrvec<A, 0>(q, go); break;
            case 500: mk_arrvecview<A, 0>(q, go); break;
            case 201: mk_arrayview<A, 1>(q, go); break;
            case 203: mk_arrayview<A, 3>(q, go); break;
            case 401: mk_arrvec<A, 1>(q, go); break;
            case 402: mk_arrvec<A, 2>(q, go); break;
            case 404: mk_arrvec<A, 4>(q, go); break;
            case 501: mk_arrvecview<A, 1>(q, go); break;
            case 504: mk_arrvecview<A, 4>(q, go); break;
#elif GROUP == 2
            case 301: mk_vcb<A, 1>(q, go); break;
            case 303: mk_vcb<A, 3>(q, go); break;
            case 601: mk_vcq<A, 1>(q, go); break;
            case 603: mk_vcq<A, 3>(q, go); break;
#elif GROUP == 3
            case 700: mk_vector<A>(q, go); break;
            case 800: mk_view<A>(q, go); break;
            case 900: mk_stdvector<A>(q, go); break;
            case 1003: mk_arrayview<const A, 3>(q, go); break;
            case 1104: mk_arrvecview<const A, 4>(q, go); break;
            case 1200: mk_view<const A>(q, go); break;
#elif GROUP == 4
            case 4: mk_array<A, 4>(q, go); break;
            case 404: mk_arrvec<A, 4>(q, go); break;
#else
            case 603: mk_vcq<A, 3>(q, go); break;
            case 700: mk_vector<A>(q, go); break;
            case 900: mk_stdvector<A>(q, go); break;
#endif
            default: bad("source");
        }
    });
}
