// Replays scripts on String, WString, U16String, U32String (and U8String).  Header: the character type.
#include "common.hpp"
using namespace vf;

// the largest counts and positions, which a script cannot spell out
static size_t far_(int x) { return x >= 1000000000 ? static_cast<size_t>(-1) - (x - 1000000000) : static_cast<size_t>(x); }

template<typename Ch>
int code(Ch x) { return (int)(typename std::make_unsigned<typename std::conditional<std::is_same<Ch, char>::value, char, uint32_t>::type>::type)x; }

template<typename Ch>
std::vector<Ch> buf(const std::vector<int>& a, size_t from) {
    std::vector<Ch> r;
    for (size_t i = from; i < a.size(); ++i) r.push_back((Ch)a[i]);
    return r;
}

// a C string in a block of exactly its size
template<typename Ch>
struct Lit {
    Ch* p;
    size_t n;
    Lit(const std::vector<int>& a, size_t from, bool term = true) {
        std::vector<Ch> v = buf<Ch>(a, from);
        n = v.size();
        p = (Ch*)malloc((n + (term ? 1 : 0)) * sizeof(Ch) + (term ? 0 : 1));
        for (size_t i = 0; i < n; ++i) p[i] = v[i];
        if (term) p[n] = 0;
    }
    ~Lit() { free(p); }
};

template<typename It>
std::string walk(It b, It e) {
    std::vector<int> r;
    if (e < b || e - b > 100000) { r.push_back(-777); return json_arr(r); }
    for (It i = b; i != e; ++i) r.push_back(code(*i));
    return json_arr(r);
}

int sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

template<typename Ch>
struct Run {
    using S = efp::BasicString<Ch>;
    using V = efp::BasicStringView<Ch>;
    Own<S> c[2];

#ifdef FREESTANDING
    static void std_views(const S&, std::vector<std::string>&, std::true_type) {}
#else
    static void std_views(const S& k, std::vector<std::string>& v, std::true_type) {
        std::string s = k;
        std::vector<int> a;
        for (char x : s) a.push_back(code(x));
        v.push_back(json_arr(a));
        V w(k);
        std::string t = w;
        a.clear();
        for (char x : t) a.push_back(code(x));
        v.push_back(json_arr(a));
    }
#endif
    static void std_views(const S&, std::vector<std::string>&, std::false_type) {}

    static std::string views(S& s) {
        const S& k = s;
        const size_t n = k.size();
        if (n > 100000) return "[[-778]]";
        std::vector<std::string> v;
        std::vector<int> a, b, d, e, f, g, h;
        for (size_t i = 0; i < n; ++i) {
            a.push_back(code(s[i])); b.push_back(code(k[i])); e.push_back(code(efp::data(k)[i]));
        }
        for (size_t i = 0; i < (size_t)efp::length(k); ++i) d.push_back(code(efp::nth(i, k)));
        const Ch* p = k.c_str();
        for (size_t i = 0; i < n; ++i) f.push_back(code(p[i]));
        v.push_back(json_arr(a)); v.push_back(json_arr(b)); v.push_back(json_arr(d)); v.push_back(json_arr(e)); v.push_back(json_arr(f));
        v.push_back(walk(s.begin(), s.end()));
        v.push_back(walk(k.begin(), k.end()));
        for (size_t i = 0; i < n; ++i) g.push_back(code(k.at(i)));
        v.push_back(json_arr(g));
        V w(k);
        if (w.size() != n || w.empty() != (n == 0)) h.push_back(-779);
        else for (size_t i = 0; i < n; ++i) h.push_back(code(w[i]));
        v.push_back(json_arr(h));
        std_views(k, v, std::is_same<Ch, char>());
        return json_list(v);
    }

    void apply(const Op& o, int& r, bool& ref, std::vector<int>& out) {
        const int i = o.at(0), x = o.at(1), y = o.at(2), z = o.at(3);
        const std::string& nm = o.name;
        S& me = *c[i];
        const S& k = me;
        if (nm == "new") { c[i].reset(fresh<S>()); return; }
        if (nm == "lit") { Lit<Ch> l(o.a, 1); c[i].reset(fresh<S>(static_cast<const Ch*>(l.p))); return; }
        if (nm == "litn") { Lit<Ch> l(o.a, 1, false); c[i].reset(fresh<S>(static_cast<const Ch*>(l.p), l.n)); return; }
        if (nm == "rng") {
            Lit<Ch> l(o.a, 1, false);
            c[i].reset(fresh<S>(static_cast<const Ch*>(l.p), static_cast<const Ch*>(l.p) + l.n));
            return;
        }
        if (nm == "il") {
            std::vector<Ch> v = buf<Ch>(o.a, 1);
            switch (v.size()) {
                case 0: c[i].reset(fresh<S>(std::initializer_list<Ch> {})); break;
                case 1: c[i].reset(fresh<S>(std::initializer_list<Ch> {v[0]})); break;
                case 2: c[i].reset(fresh<S>(std::initializer_list<Ch> {v[0], v[1]})); break;
                case 3: c[i].reset(fresh<S>(std::initializer_list<Ch> {v[0], v[1], v[2]})); break;
                case 4: c[i].reset(fresh<S>(std::initializer_list<Ch> {v[0], v[1], v[2], v[3]})); break;
                case 5: c[i].reset(fresh<S>(std::initializer_list<Ch> {v[0], v[1], v[2], v[3], v[4]})); break;
                default: c[i].reset(fresh<S>(std::initializer_list<Ch> {v[0], v[1], v[2], v[3], v[4], v[5]})); break;
            }
            return;
        }
        if (nm == "av") {
            efp::ArrVec<Ch, 6> v;
            for (size_t j = 1; j < o.a.size(); ++j) v.push_back((Ch)o.a[j]);
            c[i].reset(fresh<S>(static_cast<const efp::ArrVec<Ch, 6>&>(v)));
            return;
        }
        if (nm == "arr") {
            efp::Array<Ch, 2> v;
            v[0] = (Ch)x;
            v[1] = (Ch)y;
            c[i].reset(fresh<S>(static_cast<const efp::Array<Ch, 2>&>(v)));
            return;
        }
        if (nm == "fill") { c[i].reset(fresh<S>((size_t)x, (Ch)y)); return; }
        if (nm == "copy") { c[i].reset(fresh<S>(static_cast<const S&>(*c[x]))); return; }
        if (nm == "move") { c[i].reset(fresh<S>(efp::move(*c[x]))); return; }
        if (nm == "cassign") { ref = &(me = static_cast<const S&>(*c[x])) == &me; return; }
        if (nm == "massign") { ref = &(me = efp::move(*c[x])) == &me; return; }
        if (nm == "app") { Lit<Ch> l(o.a, 1); ref = &me.append(static_cast<const Ch*>(l.p)) == &me; return; }
        if (nm == "appn") { ref = &me.append((size_t)x, (Ch)y) == &me; return; }
        if (nm == "appown") { ref = &me.append(me.c_str() + x) == &me; return; }
        if (nm == "plus") { ref = &(me += static_cast<const S&>(*c[x])) == &me; return; }
        if (nm == "asg") { Lit<Ch> l(o.a, 1); ref = &me.assign(static_cast<const Ch*>(l.p)) == &me; return; }
        if (nm == "asgn") { ref = &me.assign((size_t)x, (Ch)y) == &me; return; }
        if (nm == "asgown") { ref = &me.assign(me.c_str() + x) == &me; return; }
        if (nm == "ins") { Lit<Ch> l(o.a, 2); ref = &me.insert(far_(x), static_cast<const Ch*>(l.p)) == &me; return; }
        if (nm == "insn") { Lit<Ch> l(o.a, 2, false); ref = &me.insert(far_(x), static_cast<const Ch*>(l.p), l.n) == &me; return; }
        if (nm == "insown") { ref = &me.insert(far_(x), me.c_str() + y) == &me; return; }
        if (nm == "insownn") { ref = &me.insert(far_(x), me.c_str() + y, (size_t)z) == &me; return; }
        if (nm == "push") { me.push_back((Ch)x); return; }
        if (nm == "pop") { me.pop_back(); return; }
        if (nm == "erase") { me.erase(far_(x)); return; }
        if (nm == "clear") { me.clear(); return; }
        if (nm == "resize") { me.resize(x); return; }
        if (nm == "reserve") { me.reserve(x); return; }
        if (nm == "shrink") { me.shrink_to_fit(); return; }
        if (nm == "set") { me[x] = (Ch)y; return; }
        if (nm == "sub") {
            S t = k.substr(far_(x), far_(y));
            for (size_t j = 0; j < t.size(); ++j) out.push_back(code(t[j]));
            if (t.c_str()[t.size()] != 0) out.push_back(-1);
            if (x == 0 && (size_t)y >= k.size() && !(k.substr() == k)) out.push_back(-2);
            if ((size_t)x + (size_t)y >= k.size() && !(k.substr(far_(x)) == t)) out.push_back(-3);
            return;
        }
        if (nm == "subto") { c[i].reset(fresh<S>(static_cast<const S&>(*c[x]).substr(far_(y), far_(z)))); return; }
        if (nm == "cpy") {
            const size_t room = std::min((size_t)y, k.size() > (size_t)x ? k.size() - x : 0);
            Ch* p = (Ch*)malloc(room * sizeof(Ch) + (room ? 0 : 1));
            struct F { Ch* p; ~F() { free(p); } } guard {p};
            r = (int)(x == 0 ? k.copy(p, far_(y)) : k.copy(p, far_(y), far_(x)));
            for (size_t j = 0; j < room; ++j) out.push_back(code(p[j]));
            return;
        }
        if (nm == "at") { r = code(k.at(far_(x))); return; }
        if (nm == "cmp") { r = sign(k.compare(far_(x), far_(y), *c[z])); return; }
        if (nm == "eql") {
            Lit<Ch> l(o.a, 1);
            r = k == static_cast<const Ch*>(l.p) ? 1 : 0;
            V v(static_cast<const Ch*>(l.p));
            if (v.size() != l.n || !(v == static_cast<const Ch*>(l.p)) || v.c_str() != l.p) r = -1;
            if ((V(k) == static_cast<const Ch*>(l.p) ? 1 : 0) != r) r = -2;
            return;
        }
        fprintf(stderr, "bad op %s\n", nm.c_str());
        exit(3);
    }

    void run(int k, const Script& s) {
        Ev("case").num("k", k).str("ch", s.head[0]);
        Case one;
        for (auto& p : c) p.reset(fresh<S>());
        auto obs = [&](Ev& e) {
            std::vector<std::string> v, sz, em, t, fb;
            for (auto& p : c) {
                const S& q = *p;
                v.push_back(views(*p));
                sz.push_back(std::to_string((long)q.size()));
                em.push_back(q.empty() ? "true" : "false");
                t.push_back(std::to_string(code(q.c_str()[q.size()])));
                std::vector<int> x;
                if (q.size()) { x.push_back(code(q.front())); x.push_back(code(q.back())); }
                fb.push_back(json_arr(x));
            }
            const S &a = *c[0], &b = *c[1];
            std::vector<int> eq {a == b, b == a, a == b.c_str(), b == a.c_str(), a == a.c_str()};
            std::vector<int> cs {sign(a.compare(b)), sign(b.compare(a)), sign(a.compare(a))};
            e.raw("v", json_list(v)).raw("sz", json_list(sz)).raw("em", json_list(em)).raw("t", json_list(t)).raw("fb", json_list(fb))
                .seq("eq", eq).seq("cs", cs);
        };
        { Ev e("start"); e.num("s", 1).seq("a", std::vector<int>()).num("r", 0).str("st", "ok").boo("ref", true).seq("out", std::vector<int>()); obs(e); }
        for (const Op& o : s.ops) {
            int r = 0;
            bool ref = true;
            std::vector<int> out;
            std::string st = guarded([&] { apply(o, r, ref, out); });
            if (st != "ok") { r = 0; out.clear(); }
            Ev e(o.name.c_str());
            e.num("s", o.at(0) + 1).seq("a", std::vector<int>(o.a.begin() + 1, o.a.end())).num("r", r).str("st", st).boo("ref", ref).seq("out", out);
            obs(e);
        }
    }
};

int main() {
    for_each_script([](int k, const Script& s) {
        const std::string& h = s.head[0];
        if (h == "c") Run<char>().run(k, s);
        else if (h == "w") Run<wchar_t>().run(k, s);
        else if (h == "u16") Run<char16_t>().run(k, s);
        else if (h == "u32") Run<char32_t>().run(k, s);
#if __cplusplus >= 202002L
        else if (h == "u8") Run<char8_t>().run(k, s);
#endif
        else exit(3);
    });
}
