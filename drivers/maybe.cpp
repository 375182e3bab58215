// Replays scripts on Maybe.  Header: elem.
#include "common.hpp"
using namespace vf;

using A = ELEM;
using M = efp::Maybe<A>;

static std::vector<int>* calls;

// total functions, to another type too
struct F0 { A operator()(const A& a) const { calls->push_back(val(a)); return A(val(a) + 1); } };
struct F1 { double operator()(const A& a) const { calls->push_back(val(a)); return 2.0 * val(a); } };
struct F2 { Wide operator()(A a) const { calls->push_back(val(a)); return Wide(7); } };
A f3(const A& a) { calls->push_back(val(a)); return A(-val(a)); }
// partial functions
struct K0 { efp::Maybe<A> operator()(const A& a) const { calls->push_back(val(a)); if (val(a) % 2 == 0) return A(val(a) / 2); return efp::nothing; } };
struct K1 { efp::Maybe<double> operator()(const A& a) const { calls->push_back(val(a)); return efp::nothing; } };
struct K2 { efp::Maybe<A> operator()(A a) const { calls->push_back(val(a)); return A(val(a) - 3); } };
efp::Maybe<A> k3(const A& a) { calls->push_back(val(a)); if (val(a) > 4) return efp::nothing; return A(val(a) * 3); }

template<typename X>
std::string shown(const efp::Maybe<X>& m) {
    Pause pause;
    std::vector<int> r;
    if (m.has_value()) r.push_back(val(m.value()));
    return json_arr(r);
}

// the function number is dispatched to a type
template<typename G> void with_f(int f, const G& g) {
    switch (f) { case 0: g(F0()); break; case 1: g(F1()); break; case 2: g(F2()); break; default: g(f3); }
}
template<typename G> void with_k(int f, const G& g) {
    switch (f) { case 0: g(K0()); break; case 1: g(K1()); break; case 2: g(K2()); break; default: g(k3); }
}

template<typename F>
efp::Maybe<F> maybe_f(int has, const F& f) { if (has) return f; return efp::nothing; }

struct Fmap {
    const M& m; int form; std::string& r;
    template<typename F> void operator()(const F& f) const {
        if (form == 0) r = shown(m.fmap(f));
        else r = shown(efp::fmap(f, m));
    }
};
struct Ap {
    const M& m; int has, form; std::string& r;
    template<typename F> void operator()(const F& f) const { go(f); }
    void operator()(A (&f)(const A&)) const { using P = A (*)(const A&); go<P>(f); }
    template<typename F> void go(const F& f) const {
        const efp::Maybe<F> mf = maybe_f(has, f);
        if (form == 0) r = shown(m.ap(mf));
        else r = shown(efp::ap(mf, m));
    }
};
struct Bind {
    const M& m; int form; std::string& r;
    template<typename F> void operator()(const F& f) const {
        if (form == 0) r = shown(m.bind(f));
        else if (form == 1) r = shown(m >>= f);
        else r = shown(efp::bind(m, f));
    }
};

int main() {
    for_each_script([](int k, const Script& s) {
        Ev("case").num("k", k).str("el", s.head[0]);
        Case one;
        std::vector<int> log;
        calls = &log;
        log.reserve(64);
        Own<M> c[2];
        for (auto& p : c) p.reset(fresh<M>());
        auto obs = [&](Ev& e) {
            std::vector<std::string> v;
            for (auto& p : c) {
                const M& m = *p;
                std::vector<std::string> o;
                std::vector<int> q, g, h;
                q.push_back(m.is_nothing() ? 0 : 1);
                q.push_back(m.has_value() ? 1 : 0);
                q.push_back(m ? 1 : 0);
                q.push_back(m.index());
                q.push_back(m.match([](const efp::Nothing&) { return 0; }, [](const A&) { return 1; }));
                guarded([&] { g.push_back(val(m.value())); });
                guarded([&] { h.push_back(val(m.template get<A>())); });
                o.push_back(json_arr(q)); o.push_back(json_arr(g)); o.push_back(json_arr(h));
                v.push_back(json_list(o));
            }
            e.raw("m", json_list(v));
        };
        { Ev e("start"); obs(e); }
        for (const Op& o : s.ops) {
            const int i = o.at(0), x = o.at(1), y = o.at(2), z = o.at(3);
            std::string r = "[]";
            bool ref = true;
            log.clear();
            std::string st = guarded([&] {
                M& m = *c[i];
                if (o.name == "just") { A a(x); c[i].reset(fresh<M>(static_cast<const A&>(a))); }
                else if (o.name == "justmv") c[i].reset(fresh<M>(A(x)));
                else if (o.name == "none") c[i].reset(fresh<M>(efp::nothing));
                else if (o.name == "setjust") m = A(x);
                else if (o.name == "setnone") m = efp::nothing;
                else if (o.name == "copy") c[i].reset(fresh<M>(static_cast<const M&>(*c[x])));
                else if (o.name == "move") c[i].reset(fresh<M>(efp::move(*c[x])));
                else if (o.name == "cassign") ref = &(m = static_cast<const M&>(*c[x])) == &m;
                else if (o.name == "massign") ref = &(m = efp::move(*c[x])) == &m;
                else if (o.name == "value") { const int v = val(m.value()); Pause pause; r = json_arr(std::vector<int> {v}); }
                else if (o.name == "take") { A a(m.move()); Pause pause; r = json_arr(std::vector<int> {val(a)}); }
                else if (o.name == "pure") { const M p = efp::pure<M>(A(x)); r = shown(p); m = p; }
                else if (o.name == "fmap") with_f(x, Fmap {m, y, r});
                else if (o.name == "ap") with_f(x, Ap {m, y, z, r});
                else if (o.name == "bind") with_k(x, Bind {m, y, r});
                // both sides of the laws, on the code's own operations
                else if (o.name == "assocl") r = shown((m >>= K0()) >>= K2());
                else if (o.name == "assocr") r = shown(m >>= [](const A& a) { return K0()(a) >>= K2(); });
                else if (o.name == "compl") r = shown(m.fmap(F0()).fmap(f3));
                else if (o.name == "compr") r = shown(m.fmap([](const A& a) { return f3(F0()(a)); }));
                else if (o.name == "ident") r = shown(m.fmap([](const A& a) { calls->push_back(val(a)); return a; }));
                else if (o.name == "leftid") r = shown(efp::pure<M>(A(x)) >>= k3);
                else if (o.name == "rightid") r = shown(m >>= [](const A& a) { calls->push_back(val(a)); return efp::pure<M>(a); });
                else { fprintf(stderr, "bad op %s\n", o.name.c_str()); exit(3); }
            });
            Ev e(o.name.c_str());
            e.num("s", i + 1).num("x", x).num("y", y).num("z", z).str("st", st).boo("ref", ref).seq("calls", log).raw("r", r);
            obs(e);
        }
    });
}
