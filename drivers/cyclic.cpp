// Replays scripts on Vcb / Vcq.  Header: kind n elem.
#include "common.hpp"
using namespace vf;

template<typename C, typename It>
std::string walk(It b, It e) {
    std::vector<int> r;
    if (e < b || e - b > 100) { r.push_back(-777); return json_arr(r); }
    for (It i = b; i != e; ++i) r.push_back(val(*i));
    return json_arr(r);
}

template<typename C>
std::string views(C& c) {
    std::vector<std::string> v;
    const C& k = c;
    size_t n = c.size();
    if (n > 100) return "[[-778]]";
    std::vector<int> a, b, d, e, f;
    for (size_t i = 0; i < n; ++i) a.push_back(val(c[i]));
    for (size_t i = 0; i < n; ++i) b.push_back(val(k[i]));
    for (size_t i = 0; i < (size_t)efp::length(k); ++i) d.push_back(val(efp::nth(i, k)));
    for (size_t i = 0; i < n; ++i) e.push_back(val(efp::data(c)[i]));
    for (size_t i = 0; i < n; ++i) f.push_back(val(k.data()[i]));
    v.push_back(json_arr(a)); v.push_back(json_arr(b)); v.push_back(json_arr(d));
    v.push_back(json_arr(e)); v.push_back(json_arr(f));
    v.push_back(walk<C>(c.begin(), c.end()));
    v.push_back(walk<C>(k.begin(), k.end()));
    return json_list(v);
}

template<typename A, size_t n> int do_pop(efp::Vcq<A, n>& c) { return val(c.pop_front()); }
template<typename A, size_t n> int do_pop(efp::Vcb<A, n>&) { return 0; }

template<typename C, typename A>
void run(int k, const Script& s) {
    const int slots = 2;
    Ev("case").num("k", k).str("kind", s.head[0]).num("n", atoi(s.head[1].c_str())).str("el", s.head[2]);
    Case one;
    {
        Own<C> c[slots];
        for (auto& p : c) p.reset(fresh<C>());
        auto obs = [&](Ev& e) {
            std::vector<std::string> v, sz, em;
            for (auto& p : c) {
                v.push_back(views(*p));
                sz.push_back(std::to_string((long)p->size()));
                em.push_back(p->empty() ? "true" : "false");
            }
            e.raw("v", json_list(v)).raw("sz", json_list(sz)).raw("em", json_list(em));
        };
        { Ev e("start"); obs(e); }
        for (const Op& o : s.ops) {
            const int i = o.at(0), j = o.at(1);
            int r = 0;
            bool ref = true;
            std::string st = guarded([&] {
                if (o.name == "push") { A x(j); c[i]->push_back(x); }
                else if (o.name == "pushself") { c[i]->push_back((*c[i])[j]); }
                else if (o.name == "pop") { r = do_pop(*c[i]); }
                else if (o.name == "copy") { c[i].reset(fresh<C>(static_cast<const C&>(*c[j]))); }
                else if (o.name == "move") { c[i].reset(fresh<C>(efp::move(*c[j]))); }
                else if (o.name == "cassign") { ref = &(*c[i] = static_cast<const C&>(*c[j])) == c[i].get(); }
                else if (o.name == "massign") { ref = &(*c[i] = efp::move(*c[j])) == c[i].get(); }
                else if (o.name == "fresh") { c[i].reset(fresh<C>()); }
                else { fprintf(stderr, "bad op %s\n", o.name.c_str()); exit(3); }
            });
            Ev e(o.name.c_str());
            e.num("s", i + 1).num("x", j).num("r", r).str("st", st).boo("ref", ref);
            obs(e);
        }
    }
}

template<typename A, size_t n>
void pick_kind(int k, const Script& s) {
    if (s.head[0] == "vcq") run<efp::Vcq<A, n>, A>(k, s);
    else run<efp::Vcb<A, n>, A>(k, s);
}

template<typename A>
void pick_n(int k, const Script& s) {
    switch (atoi(s.head[1].c_str())) {
        case 1: return pick_kind<A, 1>(k, s);
        case 2: return pick_kind<A, 2>(k, s);
        case 3: return pick_kind<A, 3>(k, s);
        case 4: return pick_kind<A, 4>(k, s);
        case 5: return pick_kind<A, 5>(k, s);
        case 7: return pick_kind<A, 7>(k, s);
        case 8: return pick_kind<A, 8>(k, s);
        case 16: return pick_kind<A, 16>(k, s);
        case 33: return pick_kind<A, 33>(k, s);
        default: exit(3);
    }
}

int main() {
    for_each_script([](int k, const Script& s) {
        pick_n<ELEM>(k, s);
    });
}
