// Replays scripts on Enum with NALT alternatives.  Header: nalt elem.
#include "common.hpp"
using namespace vf;

#ifndef NALT
#define NALT 3
#endif
const int N = NALT;

// Alternatives of different size, alignment and ownership; payload ELEM.
template<int i> struct Pad { char c[(i * 7) % 13 + 1]; };
template<int i>
struct Alt {
    Pad<i> pad;
    ELEM v;
    Alt() : pad(), v(0) { pad.c[(i * 7) % 13] = (char)next_mark(); }
    Alt(int x) : pad(), v(x) { pad.c[(i * 7) % 13] = (char)next_mark(); }
    bool operator==(const Alt& o) const { return v == o.v; }
    int val() const { return vf::val(v); }
};

// Compile-time index lists (the driver is C++11)
template<int... I> struct Ix {};
template<int n, int... I> struct MkIx : MkIx<n - 1, n - 1, I...> {};
template<int... I> struct MkIx<0, I...> { using Type = Ix<I...>; };
template<typename> struct MkEnum;
template<int... I> struct MkEnum<Ix<I...>> { using Type = efp::Enum<Alt<I>...>; };
using All = MkIx<N>::Type;
using E = MkEnum<All>::Type;
// the alternatives that are constructed and accessed; all of them unless POS lists some
#ifdef POS
using Sel = Ix<POS>;
#else
using Sel = All;
#endif

struct Calls { std::vector<int> who, arg; };
static Calls* calls;

// branch number i of a match: result 1000 * i + value; the wildcard has number 900
template<int i>
struct Br {
    int operator()(const Alt<i>& a) const { calls->who.push_back(i); calls->arg.push_back(a.val()); return 1000 * i + a.val(); }
};
template<int i>
struct BrVal {
    int operator()(Alt<i> a) const { calls->who.push_back(i); calls->arg.push_back(a.val()); return 1000 * i + a.val(); }
};
struct Wild {
    int operator()() const { calls->who.push_back(900); calls->arg.push_back(0); return 900000; }
};

template<typename> struct Matcher;
template<int... I> struct Matcher<Ix<I...>> {
    static int full(const E& e) { return e.match(Br<I>()...); }
    static int byval(const E& e) { return e.match(BrVal<I>()...); }
    static int wild(const E& e) { return e.match(Br<I>()..., Wild()); }
};
// keep the indices in order / reversed
template<typename L, int i> struct AppendIx;
template<int... I, int i> struct AppendIx<Ix<I...>, i> { using Type = Ix<I..., i>; };
template<int n> struct EvenIx { using P = typename EvenIx<n - 1>::Type; using Type = typename std::conditional<(n - 1) % 2 == 0, typename AppendIx<P, n - 1>::Type, P>::type; };
template<> struct EvenIx<0> { using Type = Ix<>; };
template<int n> struct RevIx { };
template<typename L> struct Reverse;
template<> struct Reverse<Ix<>> { using Type = Ix<>; };
template<int i, int... I> struct Reverse<Ix<i, I...>> { using Type = typename AppendIx<typename Reverse<Ix<I...>>::Type, i>::Type; };

// void branches
template<int i>
struct BrVoid { void operator()(const Alt<i>& a) const { calls->who.push_back(i); calls->arg.push_back(a.val()); } };
template<typename> struct VMatcher;
template<int... I> struct VMatcher<Ix<I...>> { static int full(const E& e) { e.match(BrVoid<I>()...); return 0; } };

// run-time index -> alternative
template<int i> void make_c(Own<E>& p, int v) { Alt<i> a(v); p.reset(fresh<E>(static_cast<const Alt<i>&>(a))); }
template<int i> void make_m(Own<E>& p, int v) { p.reset(fresh<E>(Alt<i>(v))); }
template<int i> void assign_a(Own<E>& p, int v) { *p = E(Alt<i>(v)); }
template<int i> void write_t(Own<E>& p, int v) { p->template get<Alt<i>>() = Alt<i>(v); }
template<int i> void write_i(Own<E>& p, int v) { p->template get<(uint8_t)i>() = Alt<i>(v); }
template<int i> void take_t(Own<E>& p, int) { Alt<i> x(p->template move<Alt<i>>()); calls->arg.push_back(x.val()); }
template<int i> void take_i(Own<E>& p, int) { Alt<i> x(p->template move<(uint8_t)i>()); calls->arg.push_back(x.val()); }
template<int i> int read_t(const E& e) { return e.get<Alt<i>>().val(); }
template<int i> int read_i(const E& e) { return e.get<(uint8_t)i>().val(); }
template<int i> int move_t(const E& e) { const Alt<i>&& x = e.move<Alt<i>>(); return x.val(); }
template<int i> int move_i(const E& e) { const Alt<i>&& x = e.move<(uint8_t)i>(); return x.val(); }

using Fn = void (*)(Own<E>&, int);
using Rd = int (*)(const E&);
template<typename> struct Tables;
template<int... I> struct Tables<Ix<I...>> {
    static Fn fn(const std::string& nm, int k) {
        static const Fn c[] = {make_c<I>...}, m[] = {make_m<I>...}, a[] = {assign_a<I>...}, wt[] = {write_t<I>...},
                        wi[] = {write_i<I>...}, tt[] = {take_t<I>...}, ti[] = {take_i<I>...};
        if (nm == "make") return c[k];
        if (nm == "makemv") return m[k];
        if (nm == "set") return a[k];
        if (nm == "writet") return wt[k];
        if (nm == "writei") return wi[k];
        if (nm == "taket") return tt[k];
        if (nm == "takei") return ti[k];
        return nullptr;
    }
    static Rd rd(int w, int k) {
        static const Rd t[] = {read_t<I>...}, i[] = {read_i<I>...}, mt[] = {move_t<I>...}, mi[] = {move_i<I>...};
        return w == 0 ? t[k] : w == 1 ? i[k] : w == 2 ? mt[k] : mi[k];
    }
};
using T = Tables<Sel>;
template<int... I> std::vector<int> as_vec(Ix<I...>) { return {I...}; }
const std::vector<int> sel = as_vec(Sel());
int slot_of(int k) { for (size_t i = 0; i < sel.size(); ++i) if (sel[i] == k) return (int)i; return -1; }

// [position, value] of every access that succeeded
std::string probes(const E& e, int w) {
    std::string s = "[";
    bool first = true;
    for (size_t j = 0; j < sel.size(); ++j) {
        const int k = sel[j];
        int v = 0;
        bool lib = true, ok = false;
        try { v = T::rd(w, j)(e); ok = true; }
        catch (const efp::RuntimeError&) {}
        catch (...) { lib = false; }
        if (ok || !lib) {
            if (!first) s += ",";
            first = false;
            s += "[" + std::to_string(lib ? k : -1) + "," + std::to_string(v) + "]";
        }
    }
    return s + "]";
}

void run(int k, const Script& s) {
    Ev("case").num("k", k).num("n", N).str("el", s.head[1]);
    Case one;
    {
        Calls log;
        calls = &log;
        log.who.reserve(64); log.arg.reserve(64);
        Own<E> c[2];
        for (auto& p : c) p.reset(fresh<E>());
        auto obs = [&](Ev& e) {
            std::vector<std::string> ix, t, i, mt, mi;
            for (auto& p : c) {
                ix.push_back(std::to_string((int)p->index()));
                t.push_back(probes(*p, 0));
                i.push_back(probes(*p, 1));
                mt.push_back(probes(*p, 2));
                mi.push_back(probes(*p, 3));
            }
            e.raw("ix", json_list(ix)).raw("t", json_list(t)).raw("i", json_list(i)).raw("mt", json_list(mt)).raw("mi", json_list(mi));
        };
        { Ev e("start"); obs(e); }
        for (const Op& o : s.ops) {
            const int i = o.at(0), x = o.at(1), y = o.at(2);
            int r = 0;
            bool ref = true;
            log.who.clear(); log.arg.clear();
            std::string st = guarded([&] {
                if (Fn f = slot_of(x) < 0 ? nullptr : T::fn(o.name, slot_of(x))) f(c[i], y);
                else if (o.name == "copy") c[i].reset(fresh<E>(static_cast<const E&>(*c[x])));
                else if (o.name == "move") c[i].reset(fresh<E>(efp::move(*c[x])));
                else if (o.name == "cassign") ref = &(*c[i] = static_cast<const E&>(*c[x])) == c[i].get();
                else if (o.name == "massign") ref = &(*c[i] = efp::move(*c[x])) == c[i].get();
                else if (o.name == "eq") r = (*c[i] == *c[x]) ? 1 : 0;
                else if (o.name == "ne") r = (*c[i] != *c[x]) ? 1 : 0;
                else if (o.name == "swap") efp::swap(*c[i], *c[x]);
#ifndef POS
                else if (o.name == "mfull") r = Matcher<All>::full(*c[i]);
                else if (o.name == "meven") r = Matcher<EvenIx<N>::Type>::wild(*c[i]);
#else
                else if (o.name == "mfull" || o.name == "meven") exit(3);
#endif
#ifndef LEAN
                else if (o.name == "mrev") r = Matcher<Reverse<All>::Type>::full(*c[i]);
                else if (o.name == "mval") r = Matcher<All>::byval(*c[i]);
                else if (o.name == "mvoid") r = VMatcher<All>::full(*c[i]);
                else if (o.name == "mfirst") r = Matcher<Ix<0>>::wild(*c[i]);
                else if (o.name == "mnone") r = Matcher<Ix<>>::wild(*c[i]);
#else
                else if (o.name == "mrev" || o.name == "mval" || o.name == "mvoid" || o.name == "mfirst" || o.name == "mnone") exit(3);
#endif
                else if (o.name == "mlast") r = Matcher<Ix<N - 1>>::wild(*c[i]);
                else { fprintf(stderr, "bad op %s\n", o.name.c_str()); exit(3); }
            });
            Ev e(o.name.c_str());
            e.num("s", i + 1).num("x", x).num("y", y).num("r", r).str("st", st).boo("ref", ref)
                .seq("who", log.who).seq("arg", log.arg);
            obs(e);
        }
    }
}

int main() {
    for_each_script(run);
}
