// Calls on long sequences; streams are recorded as arithmetic progressions.  GROUP selects what is compiled.
#include "common.hpp"

using namespace vf;

struct Stream {
    std::vector<long> runs;   // first, step, count, ...
    long lost = 0;
    void add(long v) {
        const size_t k = runs.size();
        if (k) {
            long &first = runs[k - 3], &step = runs[k - 2], &count = runs[k - 1];
            if (count == 1) { step = v - first; count = 2; return; }
            if (v == first + step * count) { ++count; return; }
        }
        if (k >= 3 * 64) { ++lost; return; }
        runs.push_back(v); runs.push_back(0); runs.push_back(1);
    }
    std::string json() const {
        std::string s = "[";
        for (size_t i = 0; i < runs.size(); i += 3) {
            if (i) s += ',';
            s += "[" + std::to_string(runs[i]) + "," + std::to_string(runs[i + 1]) + "," + std::to_string(runs[i + 2]) + "]";
        }
        return s + "]";
    }
};

static std::vector<Stream> S;
static void st(size_t k, long v) { while (S.size() < k + 1) S.emplace_back(); S[k].add(v); }
static void need(size_t k) { while (S.size() < k) S.emplace_back(); }
template<typename Q> void all(size_t k, const Q& q) {
    need(k + 1);
    for (size_t i = 0; i < (size_t)efp::length(q); ++i) st(k, (long)efp::nth(i, q));
}
template<typename A> using CVR = typename std::decay<A>::type;
constexpr int far_ = 1000000;
constexpr size_t big = 70010;

template<typename A> constexpr bool is_view = std::is_same<A, efp::VectorView<int>>::value;

// f on a sequence base, base + 1, ... of length n of the given kind
template<typename F>
void with(int kind, size_t n, int base, const F& f) {
    if (kind == 0) { efp::Vector<int> v; v.resize(n); for (size_t i = 0; i < n; ++i) v[i] = base + (int)i; f(v); }
    else if (kind == 1) { std::vector<int> v(n); for (size_t i = 0; i < n; ++i) v[i] = base + (int)i; f(v); }
    else if (kind == 2) {
        Own<efp::ArrVec<int, big>> v(fresh<efp::ArrVec<int, big>>());
        v->resize(n);
        for (size_t i = 0; i < n; ++i) (*v)[i] = base + (int)i;
        f(*v);
    } else {
        std::vector<int> v(n);
        for (size_t i = 0; i < n; ++i) v[i] = base + (int)i;
        efp::VectorView<int> w(v.data(), n);
        f(w);
    }
}

#if GROUP == 1   // mapping, folding, iteration
static void apply(const std::string& fn, size_t n, size_t m, int k) {
    const bool mut = fn == "fem" || fn == "feim" || fn == "fem2";   // views of ints are read only
    const int k2 = mut ? (k + 1) % 3 : (k + 1) % 4;
    if (mut) k = k % 3;
    if (fn == "fori") { need(1); efp::for_index([](size_t i) { st(0, (long)i); }, n); return; }
    if (fn == "cfi") { need(2); efp::cartesian_for_index([](size_t i, size_t j) { st(0, (long)i); st(1, (long)j); }, size_t(2), n); return; }
    if (fn == "cfin") { need(2); efp::cartesian_for_index([](size_t i, size_t j) { st(0, (long)i); st(1, (long)j); }, n, size_t(1)); return; }
    with(k, n, fn == "cfe" ? far_ : 0, [&](auto& a) {
        const auto& ca = a;
        if (fn == "fe1") { need(1); efp::for_each([](const int& x) { st(0, x); }, ca); }
        else if (fn == "map1") { need(1); all(1, efp::map([](const int& x) { st(0, x); return x + 1; }, ca)); }
        else if (fn == "fei") { need(2); efp::for_each_with_index([](size_t i, const int& x) { st(0, (long)i); st(1, x); }, ca); }
        else if (fn == "fem") { need(1); if constexpr (!is_view<CVR<decltype(a)>>) efp::for_each_mut([](int& x) { st(0, x); x += 1; }, a); all(1, ca); }
        else if (fn == "feim") { need(2); if constexpr (!is_view<CVR<decltype(a)>>) efp::for_each_with_index_mut([](size_t i, int& x) { st(0, (long)i); st(1, x); x += 1; }, a); all(2, ca); }
        else if (fn == "foldl") { need(2); st(2, efp::foldl([](const int& acc, const int& x) { st(0, acc); st(1, x); return x; }, -1, ca)); }
        else if (fn == "foldr") { need(2); st(2, efp::foldr([](const int& x, const int& acc) { st(0, x); st(1, acc); return x; }, (int)n, ca)); }
        else if (fn == "cfe") { need(2); efp::Array<int, 2> two {0, 1}; efp::cartesian_for_each([](const int& x, const int& y) { st(0, x); st(1, y); }, two, ca); }
        else if (fn == "cfen") { need(2); efp::Array<int, 1> one {far_}; efp::cartesian_for_each([](const int& x, const int& y) { st(0, x); st(1, y); }, ca, one); }
        else with(k2, m, far_, [&](auto& b) {
            const auto& cb = b;
            if (fn == "fe2") { need(2); efp::for_each([](const int& x, const int& y) { st(0, x); st(1, y); }, ca, cb); }
            else if (fn == "fe3") {
                need(3);
                with(0, n + 1, 0, [&](auto& c) { efp::for_each([](const int& x, const int& y, const int& z) { st(0, x); st(1, y); st(2, z); }, ca, cb, c); });
            }
            else if (fn == "map2") { need(2); all(2, efp::map([](const int& x, const int& y) { st(0, x); st(1, y); return x + y; }, ca, cb)); }
            else if (fn == "mapi") { need(3); all(3, efp::map_with_index([](size_t i, const int& x, const int& y) { st(0, (long)i); st(1, x); st(2, y); return (int)i + x + y; }, ca, cb)); }
            else if (fn == "fem2") { need(2); if constexpr (!is_view<CVR<decltype(a)>> && !is_view<CVR<decltype(b)>>) efp::for_each_mut([](int& x, int& y) { st(0, x); st(1, y); x += 1; y += 2; }, a, b); all(2, ca); all(3, cb); }
            else exit(3);
        });
    });
}
#elif GROUP == 2   // building
static void apply(const std::string& fn, size_t n, size_t m, int k) {
    if (fn == "fromfn") { need(1); all(1, efp::from_function(n, [](size_t i) { st(0, (long)i); return 5 * (int)i + 2; })); return; }
    if (fn == "concatn" || fn == "intern") {
        efp::Vector<efp::Vector<int>> v;
        for (size_t i = 0; i < n; ++i) v.push_back(efp::Vector<int> {(int)i});
        if (fn == "concatn") { all(0, efp::concat(v)); return; }
        need(2);
        const efp::Vector<int> sep {7};
        const auto r = efp::intercalate(sep, v);
        for (size_t i = 0; i < efp::length(r); ++i) st(i % 2, r[i]);
        return;
    }
    with(k, n, 0, [&](auto& a) {
        const auto& ca = a;
        if (fn == "cmap2") { need(2); efp::Array<int, 2> two {0, 1}; 
            efp::Vector<int> v;
            for (size_t i = 0; i < n; ++i) v.push_back(ca[i]);
            all(2, efp::cartesian_map([](const int& x, const int& y) { st(0, x); st(1, y); return far_ * x + y; }, two, v)); }
        else if (fn == "cmapn") {
            efp::Vector<int> v;
            for (size_t i = 0; i < n; ++i) v.push_back(ca[i]);
            efp::Array<int, 2> two {0, 1};
            all(0, efp::cartesian_map([](const int& x, const int& y) { return 2 * x + y; }, v, two));
        }
        else with((k + 1) % 4, m, far_, [&](auto& b) {
            const auto& cb = b;
            if (fn == "append2") all(0, efp::append(ca, cb));
            else if (fn == "append3") { efp::Array<int, 2> two {0, 1}; all(0, efp::append(ca, cb, two)); }
            else {
                efp::Vector<int> x, y;
                for (size_t i = 0; i < n; ++i) x.push_back(ca[i]);
                for (size_t i = 0; i < m; ++i) y.push_back(cb[i]);
                if (fn == "concat2") all(0, efp::concat(efp::Array<efp::Vector<int>, 2> {x, y}));
                else if (fn == "inter2") all(0, efp::intercalate(y, efp::Vector<efp::Vector<int>> {x, x}));
                else exit(3);
            }
        });
    });
}
#elif GROUP == 3   // searching
static void maybe(size_t k, const efp::Maybe<size_t>& r) { need(k + 1); if (r) st(k, (long)r.value()); }
static void apply(const std::string& fn, size_t n, size_t m, int k) {
    const int b = (int)m;
    if (fn == "elemis") {
        with(k % 3, n, 0, [&](auto& a) { if constexpr (!is_view<CVR<decltype(a)>>) { for (size_t i = 0; i < n; ++i) a[i] = 5; } const auto& ca = a; all(0, efp::elem_indices(5, ca)); });
        return;
    }
    with(k, n, 0, [&](auto& a) {
        const auto& ca = a;
        need(1);
        const auto even = [](const int& x) { st(0, x); return x % 2 == 0; };
        const auto eq = [b](const int& x) { st(0, x); return x == b; };
        if (fn == "filter") all(1, efp::filter(even, ca));
        else if (fn == "filterge") all(1, efp::filter([b](const int& x) { st(0, x); return x >= b; }, ca));
        else if (fn == "find") st(1, efp::find(eq, ca));
        else if (fn == "findi") maybe(1, efp::find_index(eq, ca));
        else if (fn == "findis") all(1, efp::find_indices(even, ca));
        else if (fn == "elem") st(0, efp::elem(b, ca));
        else if (fn == "elemi") maybe(0, efp::elem_index(b, ca));
        else if (fn == "elemis1") all(0, efp::elem_indices(b, ca));
        else if (fn == "isnull") st(0, efp::is_null(ca));
        else exit(3);
    });
}
#elif GROUP == 4   // slicing
static void apply(const std::string& fn, size_t n, size_t m, int k) {
    with(k, n, 0, [&](auto& a) {
        const auto& ca = a;
        const auto show = [&](const auto& w) {
            all(0, w);
            st(1, (long)(efp::data(w) - efp::data(ca)));
            st(1, (long)efp::length(w));
        };
        const int b = (int)m;
        const auto below = [b](const int& x) { return x < b; };
        if (fn == "take") { if (k % 2) show(efp::take(m, ca)); else show(efp::take(m, a)); }
        else if (fn == "drop") { if (k % 2) show(efp::drop(m, ca)); else show(efp::drop(m, a)); }
        else if (fn == "slice") { if (k % 2) show(efp::slice(m, m + 10, ca)); else show(efp::slice(m, m + 10, a)); }
        else if (fn == "takew") show(efp::take_while(below, a));
        else if (fn == "dropw") show(efp::drop_while(below, a));
        else if (fn == "tail") { if (k % 2) show(efp::tail(ca)); else show(efp::tail(a)); }
        else if (fn == "init") { if (k % 2) show(efp::init(ca)); else show(efp::init(a)); }
        else if (fn == "ends") { st(0, efp::nth(0, ca)); st(0, efp::last(ca)); }
        else exit(3);
    });
}
#elif GROUP == 5   // containers
template<typename C> void cont(const std::string& fn, size_t n, size_t m) {
    Own<C> p(fresh<C>());
    C& c = *p;
    for (size_t i = 0; i < n; ++i) c.push_back((int)i);
    const size_t at = m < n ? m : n;
    if (fn == "push") ;
    else if (fn == "resize") { if (m > n) { C d(c); (void)d; } c.resize(m); }
    else if (fn == "insert") c.insert(at, 77);
    else if (fn == "erase") c.erase(m);
    else if (fn == "pop") { for (size_t i = 0; i < at; ++i) c.pop_back(); }
    else if (fn == "reserve") c.reserve(big - 5);
    else if (fn == "copy") {
        Own<C> d(fresh<C>(static_cast<const C&>(c)));
        Own<C> e(fresh<C>());
        e->push_back(3);
        *e = static_cast<const C&>(c);
        all(0, *d);
        all(1, *e);
        st(2, *d == c);
        st(2, *e == *d);
        return;
    }
    else if (fn == "move") { Own<C> d(fresh<C>(efp::move(c))); all(0, *d); return; }
    else if (fn == "equal") {
        Own<C> d(fresh<C>(static_cast<const C&>(c)));
        st(0, *d == c);
        (*d)[n - 1] += 1;
        st(0, *d == c);
        (*d)[n - 1] -= 1;
        d->push_back(5);
        st(0, *d == c);
        return;
    }
    else exit(3);
    need(1);
    for (size_t i = 0; i < c.size(); ++i) st(0, c[i]);
    size_t seen = 0;
    for (const int& x : c) { if (x != c[seen]) st(0, -1); ++seen; }
    if (seen != c.size()) st(0, -2);
}
static void apply(const std::string& fn, size_t n, size_t m, int k) {
    if (fn == "convert") {
        Own<efp::ArrVec<int, big>> a(fresh<efp::ArrVec<int, big>>());
        for (size_t i = 0; i < n; ++i) a->push_back((int)i);
        if (k == 0) { efp::Vector<int> v(*a); all(0, v); }
        else { Own<efp::ArrVec<int, big + 7>> v(fresh<efp::ArrVec<int, big + 7>>(static_cast<const efp::ArrVec<int, big>&>(*a))); all(0, *v); }
        return;
    }
    if (fn == "shrink") {
        efp::Vector<int> v;
        for (size_t i = 0; i < n; ++i) v.push_back((int)i);
        v.shrink_to_fit();
        all(0, v);
        return;
    }
    if (k == 0) cont<efp::Vector<int>>(fn, n, m);
    else cont<efp::ArrVec<int, big>>(fn, n, m);
}
#elif GROUP == 6   // cyclic
template<size_t c> void queue(size_t n, size_t m) {
    Own<efp::Vcq<int, c>> q(fresh<efp::Vcq<int, c>>());
    need(2);
    for (size_t i = 0; i < n; ++i) q->push_back((int)i);
    for (size_t i = 0; i < m && q->size() > 0; ++i) st(0, q->pop_front());
    for (size_t i = 0; i < q->size(); ++i) st(1, (*q)[i]);
    size_t seen = 0;
    for (const int& x : *q) { if (x != (*q)[seen] || x != q->data()[seen]) st(1, -1); ++seen; }
    if (seen != q->size()) st(1, -2);
}
template<size_t c> void buffer(size_t n) {
    Own<efp::Vcb<int, c>> q(fresh<efp::Vcb<int, c>>());
    need(1);
    for (size_t i = 0; i < n; ++i) q->push_back((int)i);
    for (size_t i = 0; i < q->size(); ++i) st(0, (*q)[i]);
    size_t seen = 0;
    for (const int& x : *q) { if (x != (*q)[seen] || x != q->data()[seen]) st(0, -1); ++seen; }
    if (seen != q->size()) st(0, -2);
}
static void apply(const std::string& fn, size_t n, size_t m, int) {
    if (fn == "vcq300") queue<300>(n, m);
    else if (fn == "vcq66000") queue<66000>(n, m);
    else if (fn == "vcb300") buffer<300>(n);
    else if (fn == "vcb66000") buffer<66000>(n);
    else if (fn == "vcqcopy") {
        efp::Vcq<int, 301> q, r;
        for (size_t i = 0; i < n; ++i) { if (q.size() == 300) q.pop_front(); q.push_back((int)i); }
        for (size_t i = 0; i < m && q.size() > 0; ++i) q.pop_front();
        r.push_back(4);
        r = q;
        efp::Vcq<int, 301> t(r);
        t.push_back(9);
        all(0, r);
        all(1, t);
    }
    else exit(3);
}
#elif GROUP == 7   // sorting
struct Rec { int key, id; };
static void apply(const std::string& fn, size_t n, size_t, int k) {
    efp::Vector<int> v;
    for (size_t i = 0; i < n; ++i)
        v.push_back(k == 0 ? (int)(n - 1 - i) : k == 1 ? (int)((i + n / 3) % (n ? n : 1)) : i < n / 2 ? (int)(2 * i + 1) : (int)(2 * (i - n / 2)));
    if (fn == "stable") {
        efp::Vector<Rec> r;
        for (size_t i = 0; i < n; ++i) r.push_back(Rec {(int)(i % 2), (int)i});
        efp::sort_by(r, [](const Rec& a, const Rec& b) { return a.key < b.key; });
        need(1);
        for (size_t i = 0; i < n; ++i) st(0, r[i].id);
        return;
    }
    if (fn == "sort") efp::sort(v);
    else if (fn == "unstable") efp::sort_unstable(v);
    else if (fn == "heap") efp::heapsort(v);
    else if (fn == "tim") efp::timsort(v);
    else if (fn == "down") efp::sort_by(v, [](const int& a, const int& b) { return a > b; });
    else exit(3);
    all(0, v);
}
#elif GROUP == 8   // strings
using U = efp::U32String;
static U make(size_t n) { U s; for (size_t i = 0; i < n; ++i) s.push_back((char32_t)(i + 1)); return s; }
static void show(const U& s) {
    need(2);
    for (size_t i = 0; i < s.size(); ++i) st(0, (long)s[i]);
    const char32_t* c = s.c_str();
    size_t n = 0;
    while (n < s.size() && c[n]) ++n;
    st(1, (long)n);
    st(1, (long)c[s.size()]);
}
static void apply(const std::string& fn, size_t n, size_t m, int) {
    if (fn == "sfill") { show(U(n, (char32_t)7)); return; }
    U s = make(n);
    if (fn == "spush") ;
    else if (fn == "sappend") { U t = make(m); s.append(t.c_str()); }
    else if (fn == "splus") { U t = make(m); s += t; }
    else if (fn == "sassign") { U t = make(m); s.assign(t.c_str()); }
    else if (fn == "sinsert") { const char32_t five[] = {5, 5, 0}; s.insert(m < n ? m : n, five); }
    else if (fn == "serase") s.erase(m);
    else if (fn == "ssubstr") { show(s.substr(m, 40000)); return; }
    else if (fn == "scompare") {
        const auto sg = [](int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; };
        U t = make(n), u = make(n + 1), w = make(n);
        w[n - 1] = w[n - 1] - 1;
        st(0, sg(s.compare(t)));
        st(0, sg(u.compare(s)));
        st(0, sg(s.compare(u)));
        st(0, sg(s.compare(w)));
        st(0, s == w || s == u);
        st(0, s == t && s == t.c_str());
        return;
    }
    else exit(3);
    show(s);
}
#elif GROUP == 9   // queues
static void apply(const std::string& fn, size_t n, size_t, int) {
    need(1);
    if (fn == "bq") { efp::BlockingQ<int> q; for (size_t i = 0; i < n; ++i) q.enqueue((int)i); for (size_t i = 0; i < n; ++i) st(0, q.dequeue()); }
    else if (fn == "bq300") { efp::BlockingQ<int, 300> q; for (size_t i = 0; i < n; ++i) q.enqueue((int)i); for (size_t i = 0; i < n && i < 300; ++i) st(0, q.dequeue()); }
    else if (fn == "nbq") { efp::NonBlockingQ<int> q; for (size_t i = 0; i < n; ++i) q.enqueue((int)i); for (auto x = q.dequeue(); x; x = q.dequeue()) st(0, x.value()); if (!q.is_empty()) st(0, -9); }
    else if (fn == "nbq300") { efp::NonBlockingQ<int, 300> q; for (size_t i = 0; i < n; ++i) q.enqueue((int)i); for (auto x = q.dequeue(); x; x = q.dequeue()) st(0, x.value()); if (!q.is_empty()) st(0, -9); }
    else if (fn == "db300") { efp::DoubleBuffer<int, 300> q; for (size_t i = 0; i < n; ++i) q.enqueue((int)i); q.swap_buffer(); while (!q.empty()) st(0, q.dequeue()); }
    else exit(3);
}
#elif GROUP == 10   // files
#include <unistd.h>
static void apply(const std::string& fn, size_t n, size_t, int k) {
    static const std::string name = "long-" + std::to_string((long)getpid()) + ".txt";
    struct Gone { ~Gone() { unlink(name.c_str()); } } gone;
    need(1);
    {
        efp::File f = efp::File::open(name.c_str(), k % 2 ? "wb" : "w").move();
        if (fn == "flines") for (size_t i = 0; i < n; ++i) { const std::string t = std::to_string(i) + "\n"; f.write(t.c_str()); }
        else { std::string t(n, 'x'); t += '\n'; f.write(t.data(), t.size()); }
    }
    efp::File f = efp::File::open(name.c_str(), "r").move();
    if (fn == "flines") {
        const auto v = f.read_lines();
        for (size_t i = 0; i < v.size(); ++i) st(0, atol(v[i].c_str()));
    } else {
        const auto x = f.read_line();
        st(0, x ? (long)x.value().size() : -1);
        st(0, f.read_line() ? 1 : 0);
        st(1, f.tell() - 1);
    }
}
#endif

int main() {
    for_each_script([](int k, const Script& s) {
        Ev("case").num("k", k);
        Case one;
        for (const Op& o : s.ops) {
            S.clear();
            const std::string res = guarded([&] { apply(o.name, (size_t)o.at(0), (size_t)o.at(1), o.at(2)); });
            std::vector<std::string> out;
            std::vector<long> lost;
            for (const auto& x : S) { out.push_back(x.json()); lost.push_back(x.lost); }
            Ev("call").str("fn", o.name).num("n", o.at(0)).num("m", o.at(1)).str("st", res).raw("out", json_list(out)).seq("lost", lost);
        }
    });
}
