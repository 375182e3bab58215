// filter, find and elem families, one call per script; a = predicate number, operand.
#define VERIF_ZERO
#include "seqs.hpp"
using namespace vf;

using A = ELEM;

struct P {
    int p, b;
    template<typename X> bool operator()(const X& x) const {
        log_call(x);
        const int v = val(x);
        return p == 0 ? false : p == 1 ? true : p == 2 ? v % 2 == 0 : p == 3 ? v == b : v > b;
    }
};

inline void show(Result& res, const efp::Maybe<size_t>& m) {
    Pause pause;
    std::vector<int> r;
    if (m.has_value()) r.push_back((int)m.value());
    res.r = json_arr(r);
}

template<typename S>
void call(const Call& c, Result& res, S& m) {
    const S& s = m;
    const P p {c.at(0), c.at(1)};
    const A b(c.at(1));
    const std::string& fn = c.fn;
    if (fn == "filter") { LIB(res, r, efp::filter(p, s)); res.take(r); }
    else if (fn == "find") { LIB(res, r, efp::find(p, s)); res.one(r); }
    else if (fn == "findi") { LIB(res, r, efp::find_index(p, s)); show(res, r); }
    else if (fn == "findis") { LIB(res, r, efp::find_indices(p, s)); res.take(r); }
    else if (fn == "elem") { LIB(res, r, efp::elem(b, s)); res.one(r); }
    else if (fn == "elemi") { LIB(res, r, efp::elem_index(b, s)); show(res, r); }
    else if (fn == "elemis") { LIB(res, r, efp::elem_indices(b, s)); res.take(r); }
    else if (fn == "isnull") { LIB(res, r, efp::is_null(s)); res.one(r); }
    else bad("function");
}

int main() {
    for_each_script([](int k, const Script& s) {
        Call c(s);
        Ev("case").num("k", k);
        Case one;
        {
            clog().clear();
            Result res;
            std::string st = "ok", after = "[]";
            with1<A>(c.q[0], [&](auto& q) {
                st = guarded([&] { call(c, res, q); });
                after = json_list({contents(q)});
            });
            Ev e("call");
            e.str("fn", c.fn).seq("a", c.a).raw("xs", c.xs()).raw("kd", c.kinds()).raw("nb", c.bounds()).str("st", st)
                .raw("after", after).raw("calls", clog().json()).raw("r", res.r).str("rk", res.rk).num("rc", res.rc).num("lal", res.al);
        }
    });
}
