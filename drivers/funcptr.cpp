// Replays histories of func_ptr.
#include "common.hpp"
using namespace vf;

struct Acc { int tot = 0; int operator()(int x) { tot += x; return tot; } };
struct Out { int w; mutable int tot; Out(int x) : w(x), tot(0) {} void operator()(int& x, const int& y) const { x += w * y; ++tot; } };
struct Ctr { int tot = 0; int operator()() { return ++tot; } };
struct Ref { int tot = 0; int& operator()(const int x) { tot += 2 * x; return tot; } };
int fun_tot[3];
int fun0(int x) { return fun_tot[0] += x; }
int fun1(int x) { return fun_tot[1] += 11 * x; }
int fun2(int x) { return fun_tot[2] += 21 * x; }
struct Val {
    int tot = 0;
    int operator()(std::vector<int> v, const std::vector<int>& w) { tot += (int)v.size(); return (int)(v.size() * 100 + w.size()); }
};

struct World {
    Acc acc[3];
    Out out[3] = {{1}, {2}, {3}};
    Ctr ctr[3];
    Ref ref[3];
    int (*fun[3])(int) = {fun0, fun1, fun2};
    Val val[3];
    decltype(efp::func_ptr(acc[0])) pacc[2] = {};
    decltype(efp::func_ptr(out[0])) pout[2] = {};
    decltype(efp::func_ptr(ctr[0])) pctr[2] = {};
    decltype(efp::func_ptr(ref[0])) pref[2] = {};
    decltype(efp::func_ptr(fun[0])) pfun[2] = {};
    decltype(efp::func_ptr(val[0])) pval[2] = {};
};

template<typename F> int call(int k, F& f, int x);
template<typename F> int call0(F& f, int x) { return f(x); }
template<typename F> int call1(F& f, int x) { const int y = 3; f(x, y); return x; }
template<typename F> int call2(F& f, int) { return f(); }
template<typename F> int call3(F& f, int x) { int& r = f(x); r += 1; return r; }
template<typename F> int call5(F& f, int x) { std::vector<int> v(x, 7), w(2, 1); int r = f(v, w); return (int)v.size() == x && w.size() == 2 ? r : -1; }

int main() {
    for_each_script([](int k, const Script& s) {
        Ev("case").num("k", k);
        Case one;
        std::unique_ptr<World> p(new World);
        World& w = *p;
        for (int& t : fun_tot) t = 0;
        for (const Op& o : s.ops) {
            const int c = o.at(0), i = o.at(1), x = o.at(2);
            int r = 0;
            if (o.name == "bind") {
                if (c == 0) w.pacc[i] = efp::func_ptr(w.acc[x]);
                if (c == 1) w.pout[i] = efp::func_ptr(w.out[x]);
                if (c == 2) w.pctr[i] = efp::func_ptr(w.ctr[x]);
                if (c == 3) w.pref[i] = efp::func_ptr(w.ref[x]);
                if (c == 4) w.pfun[i] = efp::func_ptr(w.fun[x]);
                if (c == 5) w.pval[i] = efp::func_ptr(w.val[x]);
            } else if (o.name == "via") {
                r = c == 0 ? call0(w.pacc[i], x) : c == 1 ? call1(w.pout[i], x) : c == 2 ? call2(w.pctr[i], x)
                  : c == 3 ? call3(w.pref[i], x) : c == 4 ? call0(w.pfun[i], x) : call5(w.pval[i], x);
            } else if (o.name == "direct") {
                r = c == 0 ? call0(w.acc[i], x) : c == 1 ? call1(w.out[i], x) : c == 2 ? call2(w.ctr[i], x)
                  : c == 3 ? call3(w.ref[i], x) : c == 4 ? call0(w.fun[i], x) : call5(w.val[i], x);
            } else if (o.name == "copyptr") {
                if (c == 0) w.pacc[i] = w.pacc[1 - i];
                if (c == 1) w.pout[i] = w.pout[1 - i];
                if (c == 2) w.pctr[i] = w.pctr[1 - i];
                if (c == 3) w.pref[i] = w.pref[1 - i];
                if (c == 4) w.pfun[i] = w.pfun[1 - i];
                if (c == 5) w.pval[i] = w.pval[1 - i];
            } else if (o.name == "copyobj") {
                if (c == 0) w.acc[i] = w.acc[x];
                if (c == 1) w.out[i].tot = w.out[x].tot;
                if (c == 2) w.ctr[i] = w.ctr[x];
                if (c == 3) w.ref[i] = w.ref[x];
                if (c == 5) w.val[i] = w.val[x];
            } else exit(3);
            std::vector<std::string> t;
            auto all = [&](int a, int b, int d) { t.push_back(json_arr(std::vector<int> {a, b, d})); };
            all(w.acc[0].tot, w.acc[1].tot, w.acc[2].tot);
            all(w.out[0].tot, w.out[1].tot, w.out[2].tot);
            all(w.ctr[0].tot, w.ctr[1].tot, w.ctr[2].tot);
            all(w.ref[0].tot, w.ref[1].tot, w.ref[2].tot);
            all(fun_tot[0], fun_tot[1], fun_tot[2]);
            all(w.val[0].tot, w.val[1].tot, w.val[2].tot);
            Ev(o.name.c_str()).seq("a", o.a).num("r", r).raw("tot", json_list(t));
        }
    });
}
