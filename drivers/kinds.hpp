// The types the compiler gives to calls that are not made: included by generated programs.
#ifndef VERIF_KINDS_HPP_
#define VERIF_KINDS_HPP_
#include "seqs.hpp"
#include <map>
using namespace vf;

struct F { template<typename... X> int operator()(const X&...) const; };
struct P { template<typename X> bool operator()(const X&) const; };
template<int n> using Z = efp::Size<n>;
template<typename A> using DA = efp::Vector<A>;
template<typename A> using DV = efp::VectorView<A>;
template<typename S> const S& c();
inline size_t rt();

struct Ask {
    const char *script, *fn;
    std::vector<int> a, kd, nb;
    const char* rk;
    size_t rc;
};
#define TYPE(...) \
    KindOf<typename std::decay<decltype(__VA_ARGS__)>::type>::name(), \
    efp::CtCapacity<typename std::decay<decltype(__VA_ARGS__)>::type>::value

inline int run(const Ask* asks, size_t n) {
    std::map<std::string, const Ask*> all;
    for (size_t i = 0; i < n; ++i) all[asks[i].script] = asks + i;
    std::string line;
    for (int k = 0; std::getline(std::cin, line); ++k) {
        if (line.empty()) continue;
        auto it = all.find(line);
        if (it == all.end()) { fprintf(stderr, "unknown call %s\n", line.c_str()); return 3; }
        const Ask& e = *it->second;
        Ev("case").num("k", k);
        Case one;
        long rc = e.rc == efp::dyn ? -1 : e.rc > 2147483647 ? -2 : (long)e.rc;
        Ev("type").str("fn", e.fn).seq("a", e.a).seq("kd", e.kd).seq("nb", e.nb).str("rk", e.rk).num("rc", rc);
    }
    return 0;
}
#endif
