// Shared by the drivers: script parsing, ndjson events, element types.
#ifndef VERIF_COMMON_HPP_
#define VERIF_COMMON_HPP_

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <memory>
#include <cstdint>
#include <exception>
#include <new>

#ifdef TRACK
#include "track.hpp"
#endif

#ifdef FREESTANDING
// the library as it is without a hosted standard library: its own allocator, errors and traits (the standard headers
// are complete by now, only the library takes the other branch)
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <iterator>
#include <map>
#include <stdexcept>
#include <thread>
#include <atomic>
#include <type_traits>
#undef __STDC_HOSTED__
#define __STDC_HOSTED__ 0
#include "efp/prelude.hpp"
#include "efp/cyclic.hpp"
#include "efp/enum.hpp"
#include "efp/maybe.hpp"
#include "efp/string.hpp"
#include "efp/sort.hpp"
#include "efp/numeric.hpp"
#include "efp/c_utility.hpp"
#undef __STDC_HOSTED__
#define __STDC_HOSTED__ 1
#else
#include "efp.hpp"
#endif

namespace vf {
// heap allocations (through operator new) seen so far, not counting those of the drivers themselves
inline long& allocs() { static long n = 0; return n; }
inline int& paused() { static int n = 0; return n; }
inline long& last_allocs() { static long n = 0; return n; }
struct Pause {
#ifdef TRACK
    track::NoScope off;
#endif
    Pause() { ++paused(); }
    ~Pause() { --paused(); }
};
inline void* count_new(size_t n) {
    if (!paused()) ++allocs();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
}  // namespace vf

#ifndef TRACK
void* operator new(size_t n) { return vf::count_new(n); }
void* operator new[](size_t n) { return vf::count_new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

namespace vf {

inline FILE*& out() {
    static FILE* f = nullptr;
    if (!f) {
        const char* p = getenv("TRACE_OUT");
        f = p ? fopen(p, "a") : stdout;
        if (!f) {
            perror("TRACE_OUT");
            exit(3);
        }
        setvbuf(f, nullptr, _IOLBF, 1 << 16);
    }
    return f;
}

#ifdef TRACK
// While lifetimes are recorded, events only mark the operations; what they would show is still computed and read.
class Ev {
public:
    explicit Ev(const char* o) : op(o) { if (op == "case") s = "{\"op\":\"case\""; }
    ~Ev() {
        if (op == "case") { s += "}\n"; fwrite(s.data(), 1, s.size(), out()); }
    }
    struct Begin;
    Ev(const Ev&) = delete;
    Ev& key(const char* k) { if (op == "case") { s += ",\""; s += k; s += "\":"; } return *this; }
    Ev& num(const char* k, long long v) { key(k); if (op == "case") s += std::to_string(v); return *this; }
    Ev& boo(const char*, bool) { return *this; }
    Ev& str(const char*, const std::string&) { return *this; }
    template<typename V> Ev& seq(const char*, const V&) { return *this; }
    Ev& raw(const char*, const std::string&) { return *this; }
    std::string op, s;
};
#else
// One ndjson event, written when the object dies.
class Ev {
public:
    explicit Ev(const char* op) : al(last_allocs()) { last_allocs() = 0; s = "{\"op\":\""; s += op; s += "\""; }
    ~Ev() {
        if (dead) return;
        s += ",\"al\":" + std::to_string(al);
        s += "}\n";
        fwrite(s.data(), 1, s.size(), out());
    }
    Ev(const Ev&) = delete;

    Ev& key(const char* k) { s += ",\""; s += k; s += "\":"; return *this; }
    Ev& num(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
    Ev& boo(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    Ev& str(const char* k, const std::string& v) { key(k); quote(v); return *this; }
    template<typename V>
    Ev& seq(const char* k, const V& v) { key(k); arr(v); return *this; }
    Ev& raw(const char* k, const std::string& json) { key(k); s += json; return *this; }

    void quote(const std::string& v) {
        s += '"';
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { s += '\\'; s += (char)c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); s += b; }
            else s += (char)c;
        }
        s += '"';
    }
    template<typename V>
    void arr(const V& v) {
        s += '[';
        bool first = true;
        for (const auto& x : v) { if (!first) s += ','; first = false; s += std::to_string((long long)x); }
        s += ']';
    }
    long al;   // allocations of the call this event reports
    std::string s;
    bool dead = false;
};
#endif

// One case of a trace
struct Case {
#ifdef TRACK
    Case() { track::begin_case(); }
    ~Case() { track::end_case(); fprintf(out(), "{\"op\":\"end\"}\n"); }
#else
    ~Case() { fprintf(out(), "{\"op\":\"end\"}\n"); }
#endif
};

template<typename V>
std::string json_arr(const V& v) {
    std::string s = "[";
    bool first = true;
    for (const auto& x : v) { if (!first) s += ','; first = false; s += std::to_string((long long)x); }
    return s + "]";
}

inline std::string json_list(const std::vector<std::string>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += v[i]; }
    return s + "]";
}

inline std::vector<std::string> split(const std::string& s, char d) {
    std::vector<std::string> r;
    std::string cur;
    for (char c : s) { if (c == d) { r.push_back(cur); cur.clear(); } else cur += c; }
    r.push_back(cur);
    return r;
}

// An operation of a script: a name and integer arguments
struct Op {
    std::string name;
    std::vector<int> a;
    explicit Op(const std::string& t) {
        std::istringstream is(t);
        is >> name;
        int x;
        while (is >> x) a.push_back(x);
    }
    int at(size_t i) const { return i < a.size() ? a[i] : 0; }
};

// Script: header|op a b;op c d
struct Script {
    std::vector<std::string> head;
    std::vector<Op> ops;
    explicit Script(const std::string& line) {
        size_t p = line.find('|');
        std::istringstream is(line.substr(0, p));
        std::string t;
        while (is >> t) head.push_back(t);
        if (p != std::string::npos)
            for (const auto& o : split(line.substr(p + 1), ';'))
                if (!o.empty()) ops.emplace_back(o);
    }
};

template<typename F>
void for_each_script(const F& f) {
    std::string line;
    int k = 0;
    while (std::getline(std::cin, line)) {
        if (!line.empty()) f(k, Script(line));
        ++k;
    }
}

// Result of an operation: ok, error (the library's own), other
template<typename F>
std::string guarded(const F& f) {
#ifdef TRACK
    fprintf(out(), "{\"op\":\"op\"}\n");
    track::Scope scope;
#endif
    const long before = allocs();
    struct Note { long b; ~Note() { last_allocs() = allocs() - b; } } note {before};
    try { f(); return "ok"; }
    catch (const efp::RuntimeError&) { return "error"; }
    catch (...) { return "other"; }
}

#ifdef TRACK
template<typename C, typename... X> C* fresh(X&&... x) { return new C(std::forward<X>(x)...); }
struct Del {
    template<typename C> void operator()(C* p) const { delete p; }
};
#else
// The drivers' own objects live in malloc'ed memory, so that only the library's allocations are counted
template<typename C, typename... X>
C* fresh(X&&... x) {
    void* p = nullptr;
    if (posix_memalign(&p, alignof(C) < 16 ? 16 : alignof(C), sizeof(C))) abort();
    static unsigned char garbage = 0;
    memset(p, garbage += 0x35, sizeof(C)); // what padding holds, and whatever the library leaves as it was
    try { return new (p) C(std::forward<X>(x)...); }
    catch (...) { free(p); throw; }
}
struct Del {
    template<typename C> void operator()(C* p) const { p->~C(); free(p); }
};
#endif
template<typename C> using Own = std::unique_ptr<C, Del>;

// An element that owns heap memory; a moved-from Box reads as -1.
struct Box {
    int* p;
    Box() : p(new int(0)) {}
    Box(int v) : p(new int(v)) {}
    Box(const Box& o) : p(o.p ? new int(*o.p) : nullptr) {}
    Box(Box&& o) noexcept : p(o.p) { o.p = nullptr; }
    Box& operator=(const Box& o) {
        if (this != &o) { int* q = o.p ? new int(*o.p) : nullptr; delete p; p = q; }
        return *this;
    }
    Box& operator=(Box&& o) noexcept {
        if (this != &o) { delete p; p = o.p; o.p = nullptr; }
        return *this;
    }
    ~Box() { delete p; p = (int*)0x10; }
    bool operator==(const Box& o) const { return val() == o.val(); }
    bool operator!=(const Box& o) const { return val() != o.val(); }
    bool operator<(const Box& o) const { return val() < o.val(); }
    int val() const { return p ? *p : -1; }
};

// A plain element that is not a scalar: three words that must stay together, and a mark that differs between elements
// that are equal.
inline short next_mark() { static short m; return m = (short)(m % 9999 + 1); }
struct Wide {
    int a, b, c;
    short mark;
    Wide() : a(0), b(0), c(0), mark(next_mark()) {}
    Wide(int v) : a(v), b(~v), c(v ^ 0x55), mark(next_mark()) {}
    bool operator==(const Wide& o) const { return a == o.a && b == o.b && c == o.c; }
    bool operator!=(const Wide& o) const { return !(*this == o); }
    bool operator<(const Wide& o) const { return a < o.a; }
    int val() const { return (a == 0 && b == 0 && c == 0) ? 0 : (b == ~a && c == (a ^ 0x55)) ? a : -999999; }
};

using Int = int;

inline int val(int x) { return x; }
inline int val(double x) { return (int)x; }
inline int val(const Box& x) { return x.val(); }
inline int val(const Wide& x) { return x.val(); }
#ifdef TRACK
template<size_t al> int val(const track::Tr<al>& x) { return x.val(); }
#endif

}  // namespace vf

#ifdef TRACK
inline FILE* track::trace_file() { return vf::out(); }
#endif

#endif
