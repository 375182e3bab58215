// Lifetime recording: element types that log their creation, use and destruction, and every heap block.
// Included by common.hpp when TRACK is defined.
#ifndef VERIF_TRACK_HPP_
#define VERIF_TRACK_HPP_

#include <cstdio>
#include <cstdlib>
#include <malloc.h>
#include <cstdint>
#include <new>
#include <mutex>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*));
extern "C" char __data_start, _end;

namespace track {

struct Block {
    uintptr_t p;
    size_t n;
    long id;
    const char* form;
    long align;
    bool logged;
};

const int kMax = 4096;
inline Block* table() { static Block t[kMax]; return t; }
inline int& used() { static int n = 0; return n; }
inline long& next_id() { static long n = 1; return n; }
inline bool& active() { static bool b = false; return b; }     // inside a case
inline int& scope() { static int s = 0; return s; }            // inside a call of the library
inline bool& quiet() { static bool b = false; return b; }      // inside this file
inline uintptr_t& stack_base() { static uintptr_t p = 0; return p; }

// the cells used since the last event that changed anything
inline uintptr_t* seen() { static uintptr_t s[256]; return s; }
inline int& nseen() { static int n = 0; return n; }

FILE* trace_file();

inline Block* find(uintptr_t a) {
    for (int i = used() - 1; i >= 0; --i) {
        Block& b = table()[i];
        if (a >= b.p && (a < b.p + b.n || (b.n == 0 && a == b.p))) return &b;
    }
    return nullptr;
}
inline Block* find_start(uintptr_t a) {
    for (int i = used() - 1; i >= 0; --i) if (table()[i].p == a) return &table()[i];
    return nullptr;
}

inline void log_alloc(Block& b) {
    b.logged = true;
    fprintf(trace_file(), "{\"op\":\"alloc\",\"b\":%ld,\"n\":%ld,\"form\":\"%s\",\"al\":%ld}\n", b.id, (long)b.n, b.form, b.align);
}

inline void on_alloc(void* p, size_t n, const char* form, long align) {
    if (!active() || !p) return;
    if (used() >= kMax) { fprintf(stderr, "too many blocks\n"); abort(); }
    Block& b = table()[used()++];
    b.p = (uintptr_t)p; b.n = n; b.id = next_id()++; b.form = form; b.align = align; b.logged = false;
    if (scope() > 0) { nseen() = 0; log_alloc(b); }
}

// sz = -1: unsized
inline void on_free(void* p, const char* form, long align, long sz) {
    if (!p) return;
    Block* b = find_start((uintptr_t)p);
    if (!b) {
        if (active() && scope() > 0) {
            Block* in = find((uintptr_t)p);
            if (in) { // a pointer into the middle of a block
                nseen() = 0;
                fprintf(trace_file(), "{\"op\":\"free\",\"b\":0,\"n\":%ld,\"form\":\"%s\",\"al\":%ld}\n", sz, form, align);
            }
        }
        return;
    }
    if (b->logged) {
        nseen() = 0;
        fprintf(trace_file(), "{\"op\":\"free\",\"b\":%ld,\"n\":%ld,\"form\":\"%s\",\"al\":%ld}\n", b->id, sz, form, align);
    }
    *b = table()[--used()];
}

inline void malloc_hook(const volatile void* p, size_t n) {
    if (quiet() || !active() || scope() <= 0) return;
    on_alloc((void*)p, n, "malloc", 0);
}
inline void free_hook(const volatile void* p) {
    if (quiet() || !active()) return;
    on_free((void*)p, "malloc", 0, -1);
}

// [block, offset]: block 0 is the stack, -1 static storage, -2 memory that belongs to nothing
inline void cell(const volatile void* q, long& b, long& o) {
    uintptr_t a = (uintptr_t)q;
    if (Block* k = find(a)) {
        if (!k->logged) log_alloc(*k);
        b = k->id; o = (long)(a - k->p);
        return;
    }
    long d = (long)(a - stack_base()) + (1L << 24);
    if (d >= 0 && d < (1L << 24) + 65536) { b = 0; o = d; return; }
    if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) { b = -1; o = (long)(a - (uintptr_t)&__data_start); return; }
    b = -2; o = 0;
}

inline void event(const char* op, const volatile void* x, size_t size, size_t align, const volatile void* from) {
    if (!active()) return;
    long b, o, fb = -9, fo = 0;
    uintptr_t a = (uintptr_t)x;
    if (op[0] == 'u') {
        for (int i = 0; i < nseen(); ++i) if (seen()[i] == a) return;
        if (nseen() < 256) seen()[nseen()++] = a;
    } else nseen() = 0;
    cell(x, b, o);
    if (from) cell(from, fb, fo);
    fprintf(trace_file(), "{\"op\":\"%s\",\"x\":[%ld,%ld],\"z\":%ld,\"al\":%s,\"f\":[%ld,%ld]}\n", op, b, o, (long)size,
            a % align == 0 ? "true" : "false", fb, fo);
}

inline void begin_case() {
    static bool once = false;
    if (!once) { once = true; __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook); }
    volatile char here = 0;
    if (!stack_base()) stack_base() = (uintptr_t)&here;
    used() = 0; next_id() = 1; nseen() = 0; scope() = 0;
    active() = true;
}
inline void end_case() { active() = false; }

struct Scope {
    Scope() { ++scope(); }
    ~Scope() { --scope(); }
};
struct NoScope {
    int old;
    NoScope() : old(scope()) { scope() = 0; }
    ~NoScope() { scope() = old; }
};

// An element that logs everything that happens to it; al is its alignment.
template<size_t al>
struct alignas(al) Tr {
    int v;
    Tr() : v(0) { event("make", this, sizeof(Tr), al, nullptr); }
    Tr(int x) : v(x) { event("make", this, sizeof(Tr), al, nullptr); }
    Tr(const Tr& o) : v(o.v) { event("make", this, sizeof(Tr), al, &o); }
    Tr(Tr&& o) noexcept : v(o.v) { event("make", this, sizeof(Tr), al, &o); if (this != &o) o.v = -1; }
    Tr& operator=(const Tr& o) { event("assign", this, sizeof(Tr), al, &o); v = o.v; return *this; }
    Tr& operator=(Tr&& o) noexcept { event("assign", this, sizeof(Tr), al, &o); if (this != &o) { v = o.v; o.v = -1; } return *this; }
    ~Tr() { event("kill", this, sizeof(Tr), al, nullptr); v = -12345; }
    bool operator==(const Tr& o) const { return val() == o.val(); }
    bool operator!=(const Tr& o) const { return val() != o.val(); }
    bool operator<(const Tr& o) const { return val() < o.val(); }
    int val() const { event("use", this, sizeof(Tr), al, nullptr); return v; }
};

using T4 = Tr<4>;
using T16 = Tr<16>;
using T64 = Tr<64>;

}  // namespace track

namespace track {
inline void* get(size_t n, const char* form, long al) {
    bool q = quiet();
    quiet() = true;
    // without an alignment: no more than what operator new promises, so that a missing one shows
    char* p = al ? (char*)aligned_alloc(al, (n + al - 1) / al * al) : (char*)memalign(64, n + 16);
    quiet() = q;
    if (!p) throw std::bad_alloc();
    if (!al) p += 16;
    on_alloc(p, n, form, al);
    return p;
}
inline void put(void* p, const char* form, long al, long sz) {
    if (!p) return;
    on_free(p, form, al, sz);
    bool q = quiet();
    quiet() = true;
    free(al ? p : (char*)p - 16);
    quiet() = q;
}
}  // namespace track

void* operator new(size_t n) { return track::get(n, "one", 0); }
void* operator new[](size_t n) { return track::get(n, "many", 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return track::get(n, "one", 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return track::get(n, "many", 0); }
void operator delete(void* p) noexcept { track::put(p, "one", 0, -1); }
void operator delete[](void* p) noexcept { track::put(p, "many", 0, -1); }
void operator delete(void* p, size_t n) noexcept { track::put(p, "one", 0, (long)n); }
void operator delete[](void* p, size_t n) noexcept { track::put(p, "many", 0, (long)n); }
#if __cplusplus >= 201703L
void* operator new(size_t n, std::align_val_t a) { return track::get(n, "one", (long)a); }
void* operator new[](size_t n, std::align_val_t a) { return track::get(n, "many", (long)a); }
void operator delete(void* p, std::align_val_t a) noexcept { track::put(p, "one", (long)a, -1); }
void operator delete[](void* p, std::align_val_t a) noexcept { track::put(p, "many", (long)a, -1); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { track::put(p, "one", (long)a, (long)n); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { track::put(p, "many", (long)a, (long)n); }
#endif

#endif
