// append, concat, intercalate, cartesian_map and from_function, one call per script.
// concat: head is `concat outer n`; intercalate: `intercalate outer n`; first sequence is the separator there.
#define VERIF_ZERO
#include "seqs.hpp"
using namespace vf;

using A = ELEM;
template<typename T> struct Out { using Type = T; };
template<> struct Out<char> { using Type = int; };
using R = Out<A>::Type;

inline int weigh(int) { return 0; }
template<typename X, typename... Xs> int weigh(int w, const X& x, const Xs&... xs) { return w * val(x) + weigh(w * 7, xs...); }
struct F {
    template<typename... X> R operator()(const X&... x) const { log_call(x...); return R(1 + weigh(1, x...)); }
};
struct Gen {
    R operator()(size_t i) const { log_call(i); return R(5 * (int)i + 2); }
};

template<typename... S>
void flat(const Call& c, Result& res, S&... s) {
    if (c.fn == "append") { LIB(res, r, efp::append(static_cast<const S&>(s)...)); res.take(r); }
    else if (c.fn == "cmap") { LIB(res, r, efp::cartesian_map(F(), static_cast<const S&>(s)...)); res.take(r); }
    else bad("function");
}

// ---- sequences of sequences --------------------------------------------------------
template<typename In> void put(In& in, const std::vector<int>& v);
template<typename T, size_t n> void fill(efp::Array<T, n>& in, const std::vector<int>& v) { for (size_t i = 0; i < n; ++i) in[i] = T(v[i]); }
template<typename In> void fill(In& in, const std::vector<int>& v) { for (int x : v) in.push_back(efp::Element<In>(x)); }

template<typename In, typename Outer>
void load(Outer& o, const std::vector<SeqSpec>& q, size_t from, std::true_type) {
    for (size_t i = from; i < q.size(); ++i) { In in {}; fill(in, q[i].v); o[i - from] = in; }
}
template<typename In, typename Outer>
void load(Outer& o, const std::vector<SeqSpec>& q, size_t from, std::false_type) {
    for (size_t i = from; i < q.size(); ++i) { In in {}; fill(in, q[i].v); o.push_back(in); }
}

template<typename Outer> std::string nested(const Outer& o) {
    std::vector<std::string> v;
    for (size_t i = 0; i < (size_t)efp::length(o); ++i) v.push_back(contents(efp::nth(i, o)));
    return json_list(v);
}
inline std::string join(const std::string& first, const std::string& rest) {
    return rest == "[]" ? "[" + first + "]" : "[" + first + "," + rest.substr(1);
}

template<typename Outer>
void over(const Call& c, Result& res, const Outer& o, std::string& st, std::string& after) {
    if (c.fn == "concat") {
        st = guarded([&] { LIB(res, r, efp::concat(o)); res.take(r); });
        after = nested(o);
    } else {
        auto go = [&](auto& sep) {
            st = guarded([&] { LIB(res, r, efp::intercalate(sep, o)); res.take(r); });
            after = join(contents(sep), nested(o));
        };
        const SeqSpec& q = c.q[0];
        switch (q.kind * 100 + q.n) {
            case 2: mk_array<A, 2>(q, go); break;
            case 0: mk_array<A, 0>(q, go); break;
            case 1: mk_array<A, 1>(q, go); break;
            case 402: mk_arrvec<A, 2>(q, go); break;
            case 700: mk_vector<A>(q, go); break;
            default: bad("separator");
        }
    }
}

template<typename In> void heaped(const Call&, Result&, std::string&, std::string&, std::true_type) { bad("outer"); }
template<typename In> void heaped(const Call& c, Result& res, std::string& st, std::string& after, std::false_type) {
    const size_t from = c.fn == "concat" ? 0 : 1;
    if (c.at(0) == 7) {
        efp::Vector<In> o {};
        load<In>(o, c.q, from, std::false_type());
        over(c, res, o, st, after);
    } else {
        std::vector<In> o {};
        load<In>(o, c.q, from, std::false_type());
        over(c, res, o, st, after);
    }
}

template<typename In>
void outer(const Call& c, Result& res, std::string& st, std::string& after) {
    const size_t from = c.fn == "concat" ? 0 : 1;
    switch (c.at(0) * 100 + c.at(1)) {
        case 0: { efp::Array<In, 0> o {}; over(c, res, o, st, after); break; }
        case 400: { efp::ArrVec<In, 0> o {}; over(c, res, o, st, after); break; }
        case 1: { efp::Array<In, 1> o {}; load<In>(o, c.q, from, std::true_type()); over(c, res, o, st, after); break; }
        case 3: { efp::Array<In, 3> o {}; load<In>(o, c.q, from, std::true_type()); over(c, res, o, st, after); break; }
        case 403: { efp::ArrVec<In, 3> o {}; load<In>(o, c.q, from, std::false_type()); over(c, res, o, st, after); break; }
        case 700: case 900: heaped<In>(c, res, st, after, std::integral_constant<bool, sizeof(In) == 0>()); break;
        default: bad("outer");
    }
}

// kinds and bounds as the specification reads them: outer, inner, separator; c.a = outer kind, outer n, inner kind, inner n
void inner(const Call& c, Result& res, std::string& st, std::string& after) {
    switch (c.at(2) * 100 + c.at(3)) {
        case 2: return outer<efp::Array<A, 2>>(c, res, st, after);
        case 0: return outer<efp::Array<A, 0>>(c, res, st, after);
        case 400: return outer<efp::ArrVec<A, 0>>(c, res, st, after);
        case 403: return outer<efp::ArrVec<A, 3>>(c, res, st, after);
        case 700: return outer<efp::Vector<A>>(c, res, st, after);
        case 900: return outer<std::vector<A>>(c, res, st, after);
        default: bad("inner");
    }
}

int main() {
    for_each_script([](int k, const Script& s) {
        Call c(s);
        Ev("case").num("k", k);
        Case one;
        {
            clog().clear();
            Result res;
            std::string st = "ok", after = "[]", kd = c.kinds(), nb = c.bounds();
            if (c.fn == "concat" || c.fn == "intercalate") {
                std::vector<int> a {c.at(0), c.at(2)}, b {c.at(1), c.at(3)};
                if (c.fn == "intercalate") { a.push_back(c.q[0].kind); b.push_back(c.q[0].n); }
                kd = json_arr(a); nb = json_arr(b);
                inner(c, res, st, after);
            } else if (c.fn == "fromfn") {
                st = guarded([&] { LIB(res, r, efp::from_function((size_t)c.at(0), Gen())); res.take(r); });
            } else if (c.fn == "fromfnct") {
                st = guarded([&] {
                    switch (c.at(0)) {
                        case 0: { LIB(res, r, efp::from_function(efp::Size<0> {}, Gen())); res.take(r); break; }
                        case 1: { LIB(res, r, efp::from_function(efp::Size<1> {}, Gen())); res.take(r); break; }
                        case 2: { LIB(res, r, efp::from_function(efp::Size<2> {}, Gen())); res.take(r); break; }
                        case 5: { LIB(res, r, efp::from_function(efp::Size<5> {}, Gen())); res.take(r); break; }
                        default: { LIB(res, r, efp::from_function(efp::Size<9> {}, Gen())); res.take(r); break; }
                    }
                });
            } else {
                with_seqs<A>(c.q, [&](auto&... q) {
                    st = guarded([&] { flat(c, res, q...); });
                    after = json_list({contents(q)...});
                });
            }
            Ev e("call");
            e.str("fn", c.fn).seq("a", c.a).raw("xs", c.xs()).raw("kd", kd).raw("nb", nb).str("st", st)
                .raw("after", after).raw("calls", clog().json()).raw("r", res.r).str("rk", res.rk).num("rc", res.rc).num("lal", res.al);
        }
    });
}
