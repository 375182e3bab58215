// Every sorting function on one vector per script.  Script: `fn cmp lo hi|v k1 k2 ...;`
// cmp: 0 <, 1 >, 2 coarse (key / 2), 3 all equal, 4 key % 3, 9 the operator itself
#include "common.hpp"
#include <sys/resource.h>
#include <pthread.h>
using namespace vf;

#ifdef TRACK
struct Item {
    track::T4 key;
    int id;
    Item() : key(0), id(0) {}
    Item(int k, int i) : key(k), id(i) {}
    int k() const { return key.val(); }
    bool operator<(const Item& o) const { return k() < o.k(); }
    bool operator==(const Item& o) const { return k() == o.k(); }
};
#elif defined(OWNING)
struct Item {
    Box key;
    int id;
    Item() : key(0), id(0) {}
    Item(int k, int i) : key(k), id(i) {}
    int k() const { return key.val(); }
    bool operator<(const Item& o) const { return k() < o.k(); }
    bool operator==(const Item& o) const { return k() == o.k(); }
};
#else
struct Item {
    int key, id;
    Item() : key(0), id(0) {}
    Item(int k, int i) : key(k), id(i) {}
    int k() const { return key; }
    bool operator<(const Item& o) const { return key < o.key; }
    bool operator==(const Item& o) const { return key == o.key; }
};
#endif

using V = efp::Vector<Item>;

struct Lt { bool operator()(const Item& a, const Item& b) const { return a.k() < b.k(); } };
struct Gt { bool operator()(const Item& a, const Item& b) const { return a.k() > b.k(); } };
struct Coarse { bool operator()(const Item& a, const Item& b) const { return a.k() / 2 < b.k() / 2; } };
struct None { bool operator()(const Item&, const Item&) const { return false; } };
struct Mod { bool operator()(const Item& a, const Item& b) const { return a.k() % 3 < b.k() % 3; } };

template<typename F>
void by(const std::string& fn, V& v, size_t lo, size_t hi, const F& f) {
    if (fn == "sort") efp::sort_by(v, f);
    else if (fn == "unstable") efp::sort_unstable_by(v, f);
    else if (fn == "tim") efp::timsort_by(v, f);
    else if (fn == "intro") efp::size_trosort_by(v, f);
    else if (fn == "heap") efp::heapsort_by(v, f);
    else if (fn == "insertion") efp::insertion_sort_by(v, f);
    else if (fn == "quick") efp::quicksort_by(v, lo, hi, f);
    else if (fn == "merge") efp::merge_sort_by(v, lo, hi, f);
    else if (fn == "insrange") efp::insertion_sort_by_(v, lo, hi, f);
    else { fprintf(stderr, "bad function %s\n", fn.c_str()); exit(3); }
}
void plain(const std::string& fn, V& v) {
    if (fn == "sort") efp::sort(v);
    else if (fn == "unstable") efp::sort_unstable(v);
    else if (fn == "tim") efp::timsort(v);
    else if (fn == "intro") efp::size_trosort(v);
    else if (fn == "heap") efp::heapsort(v);
    else if (fn == "insertion") efp::insertion_sort(v);
    else if (fn == "quick") efp::quicksort(v);
    else { fprintf(stderr, "bad function %s\n", fn.c_str()); exit(3); }
}

static void* all(void*) {
    for_each_script([](int k, const Script& s) {
        const std::string& fn = s.head[0];
        const int cmp = atoi(s.head[1].c_str()), lo = atoi(s.head[2].c_str()), hi = atoi(s.head[3].c_str());
        const std::vector<int>& keys = s.ops[0].a;
        Ev("case").num("k", k);
        Case one;
        std::vector<int> ks, ids;
        Own<V> v(fresh<V>());
        std::string st = guarded([&] {
            for (size_t i = 0; i < keys.size(); ++i) v->push_back(Item(keys[i], (int)i + 1));
            switch (cmp) {
                case 0: by(fn, *v, lo, hi, Lt()); break;
                case 1: by(fn, *v, lo, hi, Gt()); break;
                case 2: by(fn, *v, lo, hi, Coarse()); break;
                case 3: by(fn, *v, lo, hi, None()); break;
                case 4: by(fn, *v, lo, hi, Mod()); break;
                default: plain(fn, *v);
            }
        });
        for (const Item& x : *v) { ks.push_back(x.k()); ids.push_back(x.id); }
        Ev e("call");
        e.str("fn", fn).num("cmp", cmp).num("lo", lo).num("hi", hi).str("st", st).seq("in", keys).seq("ks", ks).seq("ids", ids);
    });
    return nullptr;
}

int main() {
    // with STACK_KB, the sorts run on a stack of that size
    const char* kb = getenv("STACK_KB");
    if (!kb) { all(nullptr); return 0; }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, (size_t)atoi(kb) * 1024);
    pthread_t t;
    if (pthread_create(&t, &at, all, nullptr)) { perror("thread"); return 3; }
    pthread_join(t, nullptr);
}
