// Replays scripts on Array, ArrVec and Vector.  Header: kind n elem.
#include "common.hpp"
using namespace vf;

template<typename It>
std::string walk(It b, It e) {
    std::vector<int> r;
    if (e < b || e - b > 100000) { r.push_back(-777); return json_arr(r); }
    for (It i = b; i != e; ++i) r.push_back(val(*i));
    return json_arr(r);
}

template<typename C>
std::string views(C& c) {
    std::vector<std::string> v;
    const C& k = c;
    size_t n = c.size();
    if (n > 100000) return "[[-778]]";
    std::vector<int> a, b, d, e, f, g;
    for (size_t i = 0; i < n; ++i) a.push_back(val(c[i]));
    for (size_t i = 0; i < (size_t)efp::length(k); ++i) d.push_back(val(efp::nth(i, k)));
    v.push_back(json_arr(a)); v.push_back(json_arr(d));
    v.push_back(walk(c.begin(), c.end()));
    if (n <= 24) {
        for (size_t i = 0; i < n; ++i) b.push_back(val(k[i]));
        for (size_t i = 0; i < n; ++i) e.push_back(val(efp::data(c)[i]));
        for (size_t i = 0; i < n; ++i) f.push_back(val(efp::data(k)[i]));
        for (size_t i = 0; i < (size_t)efp::length(c); ++i) g.push_back(val(efp::nth(i, c)));
        v.push_back(json_arr(b)); v.push_back(json_arr(e)); v.push_back(json_arr(f)); v.push_back(json_arr(g));
        v.push_back(walk(k.begin(), k.end()));
    }
    return json_list(v);
}

template<typename C> struct Kind;
template<typename A, size_t m> struct Kind<efp::Array<A, m>> { static const int k = 0; static const size_t n = m; };
template<typename A, size_t m> struct Kind<efp::ArrVec<A, m>> { static const int k = 1; static const size_t n = m; };
template<typename A> struct Kind<efp::Vector<A>> { static const int k = 2; static const size_t n = 0; };

template<typename A>
struct IlMaker {
    // calls f with an initializer list of the given values
    template<typename F>
    static void call(const std::vector<int>& x, const F& f) {
        switch (x.size()) {
            case 0: f(std::initializer_list<A> {}); break;
            case 1: f(std::initializer_list<A> {A(x[0])}); break;
            case 2: f(std::initializer_list<A> {A(x[0]), A(x[1])}); break;
            case 3: f(std::initializer_list<A> {A(x[0]), A(x[1]), A(x[2])}); break;
            case 4: f(std::initializer_list<A> {A(x[0]), A(x[1]), A(x[2]), A(x[3])}); break;
            case 5: f(std::initializer_list<A> {A(x[0]), A(x[1]), A(x[2]), A(x[3]), A(x[4])}); break;
            case 6: f(std::initializer_list<A> {A(x[0]), A(x[1]), A(x[2]), A(x[3]), A(x[4]), A(x[5])}); break;
            default: f(std::initializer_list<A> {A(x[0]), A(x[1]), A(x[2]), A(x[3]), A(x[4]), A(x[5]), A(x[6])}); break;
        }
    }
};

template<typename C, typename A, size_t m>
void conv_array(Own<C>& p, const std::vector<int>& x) {
    efp::Array<A, m> src;
    for (size_t i = 0; i < m; ++i) src[i] = A(x[i]);
    p.reset(fresh<C>(static_cast<const efp::Array<A, m>&>(src)));
}

template<typename C, typename A>
void conv(Own<C>& p, const std::vector<int>& x, int w) {
    if constexpr (Kind<C>::k == 2) {
        if (w == 1) {
            efp::ArrVec<A, 8> src;
            for (int v : x) src.push_back(A(v));
            p.reset(fresh<C>(static_cast<const efp::ArrVec<A, 8>&>(src)));
        } else {
            switch (x.size()) {
                case 0: p.reset(fresh<C>()); break;
                case 1: conv_array<C, A, 1>(p, x); break;
                case 2: conv_array<C, A, 2>(p, x); break;
                case 3: conv_array<C, A, 3>(p, x); break;
                case 4: conv_array<C, A, 4>(p, x); break;
                case 5: conv_array<C, A, 5>(p, x); break;
                case 6: conv_array<C, A, 6>(p, x); break;
                default: conv_array<C, A, 7>(p, x); break;
            }
        }
    } else if constexpr (Kind<C>::k == 1) {
        // from an ArrVec of smaller capacity where the contents allow it
        constexpr size_t n = Kind<C>::n;
        constexpr size_t m = n > 1 ? n - 1 : n;
        if (x.size() <= m && m < n) {
            efp::ArrVec<A, m> src;
            for (int v : x) src.push_back(A(v));
            p.reset(fresh<C>(static_cast<const efp::ArrVec<A, m>&>(src)));
        } else {
            efp::ArrVec<A, n> src;
            for (int v : x) src.push_back(A(v));
            p.reset(fresh<C>(static_cast<const efp::ArrVec<A, n>&>(src)));
        }
    }
}

template<typename C, typename A>
void apply(Own<C>* c, const Op& o, int& r, bool& ref) {
    const int i = o.at(0), x = o.at(1), y = o.at(2), z = o.at(3);
    constexpr int K = Kind<C>::k;
    C& me = *c[i];
    const std::string& nm = o.name;
    if (nm == "new") { c[i].reset(fresh<C>()); return; }
    if (nm == "init" || nm == "initl") {
        std::vector<int> v;
        { Pause pause;
        if (nm == "init") for (int k = 0; k < x; ++k) v.push_back(y + k);
        else v.assign(o.a.begin() + 1, o.a.end()); }
        IlMaker<A>::call(v, [&](std::initializer_list<A> il) { c[i].reset(fresh<C>(il)); });
        return;
    }
    if (nm == "conv") {
        std::vector<int> v;
        { Pause pause; for (int k = 0; k < x; ++k) v.push_back(y + k); }
        conv<C, A>(c[i], v, z);
        return;
    }
    if (nm == "copy") { c[i].reset(fresh<C>(static_cast<const C&>(*c[x]))); return; }
    if (nm == "move") { c[i].reset(fresh<C>(efp::move(*c[x]))); return; }
    if (nm == "cassign") { ref = &(me = static_cast<const C&>(*c[x])) == &me; return; }
    if (nm == "massign") { ref = &(me = efp::move(*c[x])) == &me; return; }
    if (nm == "swap") { efp::swap(*c[i], *c[x]); return; }
    if (nm == "eq") { r = static_cast<const C&>(*c[i]) == static_cast<const C&>(*c[x]) ? 1 : 0; return; }
    if (nm == "resize") { me.resize(x); return; }
    if (nm == "reserve") { me.reserve(x); return; }
    if (nm == "set") {
        A v(y);
        if (z == 0) me[x] = v;
        else if (z == 1) efp::nth(x, me) = v;
        else if (z == 2) me.data()[x] = v;
        else *(me.begin() + x) = v;
        return;
    }
    if constexpr (K != 0) {
        if (nm == "push") { A v(x); me.push_back(static_cast<const A&>(v)); return; }
        if (nm == "pushrv") { me.push_back(A(x)); return; }
        if (nm == "pushself") { me.push_back(static_cast<const A&>(me[x])); return; }
        if (nm == "pushselfmv") { me.push_back(efp::move(me[x])); return; }
        if (nm == "insert") { A v(y); me.insert(x, static_cast<const A&>(v)); return; }
        if (nm == "insertself") { me.insert(x, static_cast<const A&>(me[y])); return; }
        if (nm == "erase") { me.erase(x); return; }
        if (nm == "pop") { me.pop_back(); return; }
        if (nm == "clear") { me.clear(); return; }
        if (nm == "pushmany") { for (int k = 0; k < x; ++k) me.push_back(A(y + k)); return; }
    }
    if constexpr (K == 2) {
        if (nm == "emplace") { me.emplace_back(x); return; }
        if (nm == "emplself") { me.emplace_back(me[x]); return; }
        if (nm == "shrink") { me.shrink_to_fit(); return; }
    }
    fprintf(stderr, "bad op %s\n", nm.c_str());
    exit(3);
}

template<typename C, typename A>
void run(int k, const Script& s) {
    const int slots = 2;
    Ev("case").num("k", k).str("kind", s.head[0]).num("n", atoi(s.head[1].c_str())).str("el", s.head[2]);
    Case one;
    {
        Own<C> c[slots];
        for (auto& p : c) p.reset(fresh<C>());
        auto obs = [&](Ev& e) {
            std::vector<std::string> v, sz, em, cp;
            for (auto& p : c) {
                v.push_back(views(*p));
                sz.push_back(std::to_string((long)p->size()));
                em.push_back(p->empty() ? "true" : "false");
                cp.push_back(std::to_string((long)p->capacity()));
            }
            e.raw("v", json_list(v)).raw("sz", json_list(sz)).raw("em", json_list(em)).raw("cap", json_list(cp));
        };
        { Ev e("start"); e.num("s", 1).seq("a", std::vector<int>()).num("r", 0).str("st", "ok").boo("ref", true); obs(e); }
        for (const Op& o : s.ops) {
            int r = 0;
            bool ref = true;
            std::string st = guarded([&] { apply<C, A>(c, o, r, ref); });
            Ev e(o.name.c_str());
            e.num("s", o.at(0) + 1).seq("a", std::vector<int>(o.a.begin() + 1, o.a.end()))
                .num("r", r).str("st", st).boo("ref", ref);
            obs(e);
        }
    }
}

template<typename A>
void pick(int k, const Script& s) {
    const int n = atoi(s.head[1].c_str());
    if (s.head[0] == "vector") return run<efp::Vector<A>, A>(k, s);
    if (s.head[0] == "array") {
        if (n == 1) return run<efp::Array<A, 1>, A>(k, s);
        if (n == 2) return run<efp::Array<A, 2>, A>(k, s);
        if (n == 3) return run<efp::Array<A, 3>, A>(k, s);
        if (n == 5) return run<efp::Array<A, 5>, A>(k, s);
        if (n == 12) return run<efp::Array<A, 12>, A>(k, s);
        if (n == 33) return run<efp::Array<A, 33>, A>(k, s);
    } else {
        if (n == 1) return run<efp::ArrVec<A, 1>, A>(k, s);
        if (n == 2) return run<efp::ArrVec<A, 2>, A>(k, s);
        if (n == 3) return run<efp::ArrVec<A, 3>, A>(k, s);
        if (n == 5) return run<efp::ArrVec<A, 5>, A>(k, s);
        if (n == 12) return run<efp::ArrVec<A, 12>, A>(k, s);
        if (n == 33) return run<efp::ArrVec<A, 33>, A>(k, s);
    }
    exit(3);
}

int main() {
    for_each_script([](int k, const Script& s) { pick<ELEM>(k, s); });
}
