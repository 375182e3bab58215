// Builds argument sequences of every kind from a script, and describes result sequences.
#ifndef VERIF_SEQS_HPP_
#define VERIF_SEQS_HPP_

#include "common.hpp"
#include <array>
#include <type_traits>

// how the number x of a script becomes an element
#ifndef VERIF_MAKE
#define VERIF_MAKE(A, x) A(x)
#endif

namespace vf {

inline int val(char c) { return (unsigned char)c; }
inline int val(size_t x) { return (int)x; }
inline int val(bool x) { return x ? 1 : 0; }
inline int val(float x) { return (int)x; }

// kinds: 0 Array, 1 std::array, 2 ArrayView, 3 Vcb, 4 ArrVec, 5 ArrVecView, 6 Vcq, 7 Vector, 8 VectorView,
// 9 std::vector, 10 ArrayView<const>, 11 ArrVecView<const>, 12 VectorView<const>
struct SeqSpec {
    int kind, n, rot;
    std::vector<int> v;
    explicit SeqSpec(const Op& o) : kind(o.at(0)), n(o.at(1)), rot(o.at(2)) {
        if (o.a.size() > 3) v.assign(o.a.begin() + 3, o.a.end());
    }
    explicit SeqSpec(int k, int n_, const std::vector<int>& v_) : kind(k), n(n_), rot(0), v(v_) {}
};

template<typename A>
std::vector<A> backing(const SeqSpec& q) {
    std::vector<A> b;
    b.reserve(q.v.size() + 1);
    for (int x : q.v) b.push_back(VERIF_MAKE(A, x));
    return b;
}

[[noreturn]] inline void bad(const char* what) { fprintf(stderr, "bad %s\n", what); exit(3); }

template<typename A, size_t n, typename F> void mk_array(const SeqSpec& q, const F& f) {
    efp::Array<A, n> s;
    for (size_t i = 0; i < n; ++i) s[i] = VERIF_MAKE(A, q.v[i]);
    f(s);
}
template<typename A, size_t n, typename F> void mk_stdarray(const SeqSpec& q, const F& f) {
    std::array<A, n> s;
    for (size_t i = 0; i < n; ++i) s[i] = VERIF_MAKE(A, q.v[i]);
    f(s);
}
template<typename A, size_t n, typename F> void mk_arrayview(const SeqSpec& q, const F& f) {
    using B = typename std::remove_const<A>::type;
    std::vector<B> b = backing<B>(q);
    efp::ArrayView<A, n> s(b.data());
    f(s);
}
template<typename A, size_t n, typename F> void mk_vcb(const SeqSpec& q, const F& f) {
    efp::Vcb<A, n> s;
    for (int i = 0; i < q.rot; ++i) s.push_back(VERIF_MAKE(A, 77));
    for (size_t i = 0; i < n; ++i) s.push_back(VERIF_MAKE(A, q.v[i]));
    f(s);
}
template<typename A, size_t n, typename F> void mk_arrvec(const SeqSpec& q, const F& f) {
    efp::ArrVec<A, n> s;
    for (int x : q.v) s.push_back(VERIF_MAKE(A, x));
    f(s);
}
template<typename A, size_t n, typename F> void mk_arrvecview(const SeqSpec& q, const F& f) {
    using B = typename std::remove_const<A>::type;
    std::vector<B> b = backing<B>(q);
    efp::ArrVecView<A, n> s(b.data(), b.size());
    f(s);
}
template<typename A, size_t n, typename F> void mk_vcq(const SeqSpec& q, const F& f) {
    efp::Vcq<A, n> s;
    for (int i = 0; i < q.rot; ++i) { s.push_back(VERIF_MAKE(A, 77)); s.pop_front(); }
    for (int x : q.v) s.push_back(VERIF_MAKE(A, x));
    f(s);
}
template<typename A, typename F> void mk_vector(const SeqSpec& q, const F& f) {
    efp::Vector<A> s;
    for (int x : q.v) s.push_back(VERIF_MAKE(A, x));
    f(s);
}
template<typename A, typename F> void mk_view(const SeqSpec& q, const F& f) {
    using B = typename std::remove_const<A>::type;
    std::vector<B> b = backing<B>(q);
    efp::VectorView<A> s(b.data(), b.size());
    f(s);
}
template<typename A, typename F> void mk_stdvector(const SeqSpec& q, const F& f) {
    std::vector<A> s = backing<A>(q);
    f(s);
}

// every kind
template<typename A, typename F> void with1(const SeqSpec& q, const F& f) {
    switch (q.kind * 100 + q.n) {
        case 1: return mk_array<A, 1>(q, f);
        case 2: return mk_array<A, 2>(q, f);
        case 3: return mk_array<A, 3>(q, f);
        case 4: return mk_array<A, 4>(q, f);
        case 101: return mk_stdarray<A, 1>(q, f);
        case 103: return mk_stdarray<A, 3>(q, f);
        case 201: return mk_arrayview<A, 1>(q, f);
        case 203: return mk_arrayview<A, 3>(q, f);
        case 301: return mk_vcb<A, 1>(q, f);
        case 303: return mk_vcb<A, 3>(q, f);
        case 401: return mk_arrvec<A, 1>(q, f);
        case 402: return mk_arrvec<A, 2>(q, f);
        case 404: return mk_arrvec<A, 4>(q, f);
        case 501: return mk_arrvecview<A, 1>(q, f);
        case 504: return mk_arrvecview<A, 4>(q, f);
        case 601: return mk_vcq<A, 1>(q, f);
        case 603: return mk_vcq<A, 3>(q, f);
        case 700: return mk_vector<A>(q, f);
        case 800: return mk_view<A>(q, f);
        case 900: return mk_stdvector<A>(q, f);
        case 1003: return mk_arrayview<const A, 3>(q, f);
        case 1104: return mk_arrvecview<const A, 4>(q, f);
        case 1200: return mk_view<const A>(q, f);
#ifdef VERIF_ZERO // kinds that can hold nothing
        case 0: return mk_array<A, 0>(q, f);
        case 100: return mk_stdarray<A, 0>(q, f);
        case 200: return mk_arrayview<A, 0>(q, f);
        case 400: return mk_arrvec<A, 0>(q, f);
        case 500: return mk_arrvecview<A, 0>(q, f);
#endif
        default: bad("sequence");
    }
}
// kinds for several arguments
template<typename A, typename F> void with2(const SeqSpec& q, const F& f) {
    switch (q.kind * 100 + q.n) {
        case 2: return mk_array<A, 2>(q, f);
        case 3: return mk_array<A, 3>(q, f);
        case 402: return mk_arrvec<A, 2>(q, f);
        case 404: return mk_arrvec<A, 4>(q, f);
        case 603: return mk_vcq<A, 3>(q, f);
        case 700: return mk_vector<A>(q, f);
        case 800: return mk_view<A>(q, f);
        case 900: return mk_stdvector<A>(q, f);
#ifdef VERIF_ZERO
        case 0: return mk_array<A, 0>(q, f);
        case 400: return mk_arrvec<A, 0>(q, f);
#endif
        default: bad("sequence");
    }
}
template<typename A, typename F> void with3(const SeqSpec& q, const F& f) {
    switch (q.kind * 100 + q.n) {
        case 2: return mk_array<A, 2>(q, f);
        case 403: return mk_arrvec<A, 3>(q, f);
        case 700: return mk_vector<A>(q, f);
        default: bad("sequence");
    }
}

template<typename A, typename F> void with_seqs(const std::vector<SeqSpec>& q, const F& f) {
    if (q.size() == 1) with1<A>(q[0], [&](auto& a) { f(a); });
    else if (q.size() == 2) with2<A>(q[0], [&](auto& a) { with2<A>(q[1], [&](auto& b) { f(a, b); }); });
    else if (q.size() == 3)
        with3<A>(q[0], [&](auto& a) { with3<A>(q[1], [&](auto& b) { with3<A>(q[2], [&](auto& c) { f(a, b, c); }); }); });
    else bad("arity");
}

// ---- results ---------------------------------------------------------------------
template<typename S> struct KindOf { static const char* name() { return "other"; } };
template<typename A, size_t n> struct KindOf<efp::Array<A, n>> { static const char* name() { return "array"; } };
template<typename A, size_t n> struct KindOf<efp::ArrVec<A, n>> { static const char* name() { return "arrvec"; } };
template<typename A, typename L, typename T, typename V> struct KindOf<efp::Vector<A, L, T, V>> { static const char* name() { return "vector"; } };
template<typename A, size_t n> struct KindOf<efp::ArrayView<A, n>> { static const char* name() { return "arrayview"; } };
template<typename A, size_t n> struct KindOf<efp::ArrVecView<A, n>> { static const char* name() { return "arrvecview"; } };
template<typename A, typename T, typename V> struct KindOf<efp::VectorView<A, T, V>> { static const char* name() { return "vectorview"; } };

template<typename S> std::string contents(const S& s) {
    std::vector<int> r;
    size_t n = efp::length(s);
    if (n > 100000) return "[-778]";
    for (size_t i = 0; i < n; ++i) r.push_back(val(efp::nth(i, s)));
    return json_arr(r);
}

struct Result {
    std::string r = "[]", rk = "none";
    long rc = -1, al = 0;
    // ct bound of a sequence type: size or capacity, -1 if none
    template<typename S> void take(const S& s) {
        Pause pause;
        r = contents(s);
        rk = KindOf<S>::name();
        size_t c = efp::CtCapacity<S>::value;
        rc = c == efp::dyn ? -1 : (long)c;
    }
    void one(int v) { Pause pause; r = json_arr(std::vector<int> {v}); }
};

// calls of the supplied function: one list per call; never allocates while recording
struct CallLog {
    std::vector<int> flat;
    std::vector<int> ends;
    CallLog() { flat.reserve(1 << 14); ends.reserve(1 << 13); }
    void clear() { flat.clear(); ends.clear(); }
    void put(int v) { if (flat.size() < flat.capacity()) flat.push_back(v); }
    void end() { if (ends.size() < ends.capacity()) ends.push_back((int)flat.size()); }
    std::string json() const {
        std::string s = "[";
        int b = 0;
        for (size_t i = 0; i < ends.size(); ++i) {
            if (i) s += ",";
            s += json_arr(std::vector<int>(flat.begin() + b, flat.begin() + ends[i]));
            b = ends[i];
        }
        return s + "]";
    }
};
inline CallLog& clog() { static CallLog c; return c; }

template<typename... X> void log_call(const X&... x) {
    int u[] = {0, (clog().put(val(x)), 0)...};
    (void)u;
    clog().end();
}

#define LIB(res, name, expr) const long al0_##name = allocs(); auto name = expr; (res).al = allocs() - al0_##name
#define LIBV(res, stmt) do { const long al0 = allocs(); stmt; (res).al = allocs() - al0; } while (0)

// Reads `fn a b|seq ...;seq ...` scripts, one call each
struct Call {
    std::string fn;
    std::vector<int> a;
    std::vector<SeqSpec> q;
    explicit Call(const Script& s) : fn(s.head[0]) {
        for (size_t i = 1; i < s.head.size(); ++i) a.push_back(atoi(s.head[i].c_str()));
        for (const Op& o : s.ops) if (o.name == "seq") q.emplace_back(o);
    }
    int at(size_t i) const { return i < a.size() ? a[i] : 0; }
    std::string kinds() const {
        std::vector<int> k;
        for (auto& s : q) k.push_back(s.kind);
        return json_arr(k);
    }
    std::string bounds() const {
        std::vector<int> k;
        for (auto& s : q) k.push_back(s.n);
        return json_arr(k);
    }
    std::string xs() const {
        std::vector<std::string> v;
        for (auto& s : q) v.push_back(json_arr(s.v));
        return json_list(v);
    }
};

}  // namespace vf
#endif
