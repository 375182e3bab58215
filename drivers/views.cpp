// View objects over one source.  Header: the set of slots ("int" or "str").
#include "common.hpp"
using namespace vf;

template<typename A> int code(const A& x) { return val(x); }
inline int code(char x) { return (unsigned char)x; }
inline int code(wchar_t x) { return (int)x; }
inline int code(char16_t x) { return (int)x; }
inline int code(char32_t x) { return (int)x; }

template<typename It>
std::string walk(It b, It e) {
    std::vector<int> r;
    if (e < b || e - b > 1000) return "[-777]";
    for (It i = b; i != e; ++i) r.push_back(code(*i));
    return json_arr(r);
}

template<typename V> struct IsString : std::false_type {};
template<typename Ch> struct IsString<efp::BasicStringView<Ch>> : std::bool_constant<efp::detail::IsCharType<Ch>::value> {};

// everything a view shows
template<typename V, typename A>
std::string show(V& v, const A* src, size_t total) {
    const V& k = v;
    const A* d = k.data();
    const size_t n = k.size();
    std::vector<std::string> r;
    if (d != nullptr && n <= total && d >= src && d + n <= src + total) {
        std::vector<int> a, b, c, e;
        for (size_t i = 0; i < n; ++i) { a.push_back(code(v[i])); b.push_back(code(k[i])); e.push_back(code(efp::data(k)[i])); }
        for (size_t i = 0; i < (size_t)efp::length(k); ++i) c.push_back(code(efp::nth(i, k)));
        r = {json_arr(a), json_arr(b), json_arr(c), json_arr(e), walk(v.begin(), v.end()), walk(k.begin(), k.end())};
        std::vector<int> f;
        efp::for_each([&](const A& x) { f.push_back(code(x)); }, k);
        r.push_back(json_arr(f));
        if constexpr (IsString<V>::value) {
            r.push_back(walk(k.c_str(), k.c_str() + n));
            if constexpr (std::is_same<A, char>::value) { const std::string t = k; r.push_back(walk(t.data(), t.data() + t.size())); }
        }
    }
    const long off = d == nullptr ? -1 : d >= src && d <= src + total ? (long)(d - src) : -9;
    return "{\"sz\":" + std::to_string(n > 100000 ? 100000 : n) + ",\"em\":" + (k.empty() ? "true" : "false") + ",\"off\":" + std::to_string(off)
        + ",\"cap\":" + std::to_string(k.capacity() > 100000 ? 100000 : k.capacity()) + ",\"v\":" + json_list(r) + "}";
}

template<typename A>
struct Ints {
    using T2 = efp::ArrayView<A, 2>; using T3 = efp::ArrayView<A, 3>; using T0 = efp::ArrayView<A, 0>;
    using B = efp::ArrVecView<A, 4>; using V = efp::VectorView<A>;
    std::tuple<Own<T2>, Own<T2>, Own<T3>, Own<T0>, Own<B>, Own<B>, Own<V>, Own<V>> t;
    static std::vector<int> source() { return {11, 12, 13, 14, 15, 16}; }
};
template<typename A>
struct Strs {
    using V = efp::BasicStringView<A>;
    std::tuple<Own<V>, Own<V>, Own<V>> t;
    static std::vector<int> source() { return {97, 98, 0, 97, 98, 99, 120, 0}; }
};

template<typename Tup, typename F, size_t i = 0>
void at(Tup& t, int s, const F& f) {
    if constexpr (i < std::tuple_size<Tup>::value) {
        if (s == (int)i + 1) f(std::get<i>(t));
        else at<Tup, F, i + 1>(t, s, f);
    } else { fprintf(stderr, "bad slot %d\n", s); exit(3); }
}
template<typename V> struct IsArr : std::false_type {};
template<typename A, size_t n> struct IsArr<efp::ArrayView<A, n>> : std::true_type {};

template<typename A, typename Set>
void run(int k, const Script& s) {
    const bool str = s.head[0] == "str";
    std::vector<int> all = Set::source();
    const size_t n = (size_t)atoi(s.head[1].c_str());
    if (str) all.erase(all.begin(), all.end() - n); else all.resize(n);
    A* src = (A*)malloc(sizeof(A) * n);       // exactly n, so that a reading beyond it is seen
    for (size_t i = 0; i < n; ++i) new (src + i) A((A)all[i]);
    Ev("case").num("k", k).str("set", s.head[0]).raw("src", json_arr(all));
    Case one;
    Set set;
    auto& t = set.t;
    std::apply([](auto&... p) { (p.reset(fresh<typename std::decay_t<decltype(p)>::element_type>()), ...); }, t);
    const auto big = [](int x) { return x < 0 ? (size_t)0 - (size_t)(-x) : (size_t)x; };
    for (const Op& o : s.ops) {
        int r = 0;
        const std::string st = guarded([&] {
            const int x = o.at(1), y = o.at(2);
            if (o.name == "wr") { src[o.at(0)] = A((A)x); return; }
            at(t, o.at(0), [&](auto& p) {
                using V = typename std::decay_t<decltype(p)>::element_type;
                if (o.name == "new") p.reset(fresh<V>());
                else if (o.name == "mk") p.reset(fresh<V>(x < 0 ? (const A*)nullptr : src + x, (size_t)y));
                else if (o.name == "rs") { if constexpr (IsArr<V>::value) p->resize(big(x)); }
                else if (o.name == "rv") { if constexpr (IsArr<V>::value) p->reserve(big(x)); }
                else if (o.name == "mkc") { if constexpr (IsString<V>::value) p.reset(fresh<V>((const A*)(src + x))); }
                else if (o.name == "eqc") {
                    if constexpr (IsString<V>::value) {
                        std::vector<A> c;
                        for (size_t i = 1; i < o.a.size(); ++i) c.push_back((A)o.a[i]);
                        c.push_back(A(0));
                        c.shrink_to_fit();
                        r = *p == (const A*)c.data() ? 1 : 0;
                    }
                }
                else at(t, x, [&](auto& q) {
                    using W = typename std::decay_t<decltype(q)>::element_type;
                    if constexpr (std::is_constructible<V, const W&>::value) {
                        if (o.name == "cp") p.reset(fresh<V>(static_cast<const W&>(*q)));
                        else if (o.name == "as") *p = *q;
                        else if (o.name == "mv") { W tmp(*q); p.reset(fresh<V>(std::move(tmp))); }
                    }
                    if constexpr (std::is_same<V, W>::value) { if (o.name == "eq") r = static_cast<const V&>(*p) == static_cast<const W&>(*q) ? 1 : 0; }
                });
            });
        });
        std::vector<std::string> seen;
        std::apply([&](auto&... p) { (seen.push_back(show(*p, (const A*)src, n)), ...); }, t);
        std::vector<std::string> eqs;           // every comparison of two views of one type
        constexpr int slots = (int)std::tuple_size<std::decay_t<decltype(t)>>::value;
        for (int i = 1; i <= slots; ++i) for (int j = 1; j <= slots; ++j)
            at(t, i, [&](auto& p) { at(t, j, [&](auto& q) {
                if constexpr (std::is_same<decltype(p), decltype(q)>::value)
                    eqs.push_back("[" + std::to_string(i) + "," + std::to_string(j) + "," + (*p == *q ? "1" : "0") + "]");
            }); });
        Ev(o.name.c_str()).raw("a", json_arr(o.a)).num("r", r).str("st", st).raw("o", json_list(seen)).raw("q", json_list(eqs));
    }
    for (size_t i = 0; i < n; ++i) src[i].~A();
    free(src);
}

int main() {
    for_each_script([](int k, const Script& s) { run<ELEM, SET<ELEM>>(k, s); });
}
