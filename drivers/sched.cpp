// See sched.hpp.  This file is compiled without instrumentation and provides the instrumentation runtime itself.
#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cerrno>
#include <csignal>
#include <new>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <ucontext.h>
#include <unistd.h>
#include <pthread.h>
#include <csetjmp>
#include <time.h>
#include <cxxabi.h>

namespace {

// ---- fibers -----------------------------------------------------------------------
const int kMax = 8;
const size_t kStack = 256 * 1024;

enum Status { kRun, kMutex, kCond, kDone };

struct Fiber {
    ucontext_t ctx;
    char* stack;
    Status st;
    const void* what;      // the mutex or condition variable it waits for
    bool timed, timeout;
    uint64_t eh[2];        // exception state, saved across switches
    int spin;              // atomic operations since it last did anything else
};
Fiber fib[kMax];
ucontext_t main_ctx;
int nthreads = 0;
int cur = -1;              // running fiber, -1 outside
sched::Body the_body;
bool running = false;
int inside = 0;            // inside the runtime
jmp_buf alone_env;
bool alone = false;

struct Inside {
    Inside() { ++inside; }
    ~Inside() { --inside; }
};

struct Mutex { int owner = -1; int depth = 0; int readers = 0; };
std::map<const void*, Mutex> mutexes;
std::map<const void*, std::vector<int>> waiters;

// ---- choices ----------------------------------------------------------------------
struct Choice { int n, at, cost0; };   // cost0: the option that is free (-1: all are)
std::vector<Choice> path;
size_t depth_ = 0;
int budget = 0, spurious_left = 0;
int rescues = 0;    // times the run only went on because a timed wait ran out
bool random_mode = false;
int access_every = 0;      // random mode: preempt at one access in this many
uint64_t rng = 1;
uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
long steps = 0;
const long kMaxSteps = 60000;

int choose(int n, int free_opt) {
    if (n <= 1) return 0;
    if (random_mode) {
        if (free_opt >= 0 && rnd() % 3 != 0) return free_opt;
        return (int)(rnd() % n);
    }
    if (depth_ < path.size()) {
        Choice& c = path[depth_++];
        if (c.n != n) { fprintf(stderr, "the execution is not deterministic\n"); _exit(3); }
        return c.at;
    }
    path.push_back(Choice {n, free_opt >= 0 ? free_opt : 0, free_opt});
    ++depth_;
    return path.back().at;
}

// the next path of the depth-first search with at most `budget` preemptions
bool next_path() {
    while (!path.empty()) {
        Choice& c = path.back();
        int used = 0;
        for (size_t i = 0; i + 1 < path.size(); ++i)
            if (path[i].cost0 >= 0 && path[i].at != path[i].cost0) ++used;
        // options are tried in the order free option first, then 0, 1, ... without it
        int order = 0;
        if (c.cost0 >= 0) order = c.at == c.cost0 ? 0 : (c.at < c.cost0 ? c.at + 1 : c.at);
        else order = c.at;
        ++order;
        int at = order;
        if (c.cost0 >= 0) at = order - 1 < c.cost0 ? order - 1 : order;
        if (order < c.n && (c.cost0 < 0 || used < budget)) { c.at = at; return true; }
        path.pop_back();
    }
    return false;
}

// ---- recording ----------------------------------------------------------------------
struct Rec { char kind; int t; uintptr_t a; size_t n; long block; int mo; const char* s; int v; };
std::vector<Rec> recs;
struct HRec { char kind; int t; const char* o; int v; bool waited; };
std::vector<HRec> calls;
bool spun = false;
std::string hist;
bool race_mode = false;
struct BlockInfo { size_t n; long id; };
std::map<uintptr_t, BlockInfo> blocks;
long next_block = 1;

FILE* out() {
    static FILE* f = nullptr;
    if (!f) {
        const char* p = getenv("TRACE_OUT");
        f = p ? fopen(p, "a") : stdout;
        if (!f) _exit(3);
    }
    return f;
}

bool on_stack(uintptr_t a) {
    for (int i = 1; i <= nthreads; ++i)
        if (a >= (uintptr_t)fib[i].stack && a < (uintptr_t)fib[i].stack + kStack) return true;
    return false;
}
long block_of(uintptr_t a, uintptr_t& base) {
    auto it = blocks.upper_bound(a);
    if (it != blocks.begin()) {
        --it;
        if (a < it->first + it->second.n) { base = it->first; return it->second.id; }
    }
    base = 0;
    return 0;
}
void note(char kind, const volatile void* p, size_t n, int mo = 0) {
    uintptr_t base, a = (uintptr_t)p;
    long b = block_of(a, base);
    recs.push_back(Rec {kind, cur, a - base, n, b, mo, nullptr, 0});
}

// ---- switching ----------------------------------------------------------------------
void switch_to(int next) {
    int me = cur;
    if (next == me) return;
    uint64_t* g = (uint64_t*)__cxxabiv1::__cxa_get_globals();
    if (me >= 0) { fib[me].eh[0] = g[0]; fib[me].eh[1] = g[1]; }
    cur = next;
    if (next >= 0) { g[0] = fib[next].eh[0]; g[1] = fib[next].eh[1]; } else { g[0] = g[1] = 0; }
    int saved = inside;
    swapcontext(me >= 0 ? &fib[me].ctx : &main_ctx, next >= 0 ? &fib[next].ctx : &main_ctx);
    inside = saved;
}

std::vector<int> runnable() {
    std::vector<int> r;
    for (int i = 1; i <= nthreads; ++i)
        if (fib[i].st == kRun) r.push_back(i);
    return r;
}

void wake(int t, bool timeout) {
    auto& w = waiters[fib[t].what];
    w.erase(std::remove(w.begin(), w.end(), t), w.end());
    fib[t].st = kRun;
    fib[t].timeout = timeout;
}

[[noreturn]] void end_run() {
    // the fibers that are left are abandoned
    switch_to(-1);
    abort();
}

bool too_long() { return ++steps > kMaxSteps; }

// a point where another thread may go on
void point(bool may_spin = false) {
    if (!running || cur < 0 || inside > 1) return;
    if (too_long()) {
        spun = true;
        end_run();
    }
    std::vector<int> opts {cur};
    for (int t : runnable()) if (t != cur) opts.push_back(t);
    size_t plain = opts.size();
    if (spurious_left > 0)
        for (int i = 1; i <= nthreads; ++i) if (fib[i].st == kCond) opts.push_back(i);
    // a thread that only repeats atomic operations lets the others go on, in turn
    if (may_spin && ++fib[cur].spin > 3 && plain > 1) {
        int next = opts[1];
        for (size_t i = 1; i < plain; ++i) if (opts[i] > cur) { next = opts[i]; break; }
        fib[cur].spin = 0;
        switch_to(next);
        return;
    }
    int k = choose((int)opts.size(), 0);
    if ((size_t)k >= plain) { --spurious_left; wake(opts[k], false); return point(may_spin); }
    switch_to(opts[k]);
}

// the current thread cannot go on
void block() {
    for (;;) {
        if (too_long()) {
            spun = true;
            end_run();
        }
        std::vector<int> opts = runnable();
        size_t plain = opts.size();
        if (fib[cur].st == kRun && plain == 1 && opts[0] == cur) return;
        // only a timeout can happen now; a run that keeps going only that way is stuck
        if (plain == 0 && rescues < 6)
            for (int i = 1; i <= nthreads; ++i)
                if (fib[i].st == kCond && fib[i].timed) { ++rescues; wake(i, true); opts.push_back(i); plain = 1; break; }
        if (spurious_left > 0)
            for (int i = 1; i <= nthreads; ++i) if (fib[i].st == kCond) opts.push_back(i);
        if (opts.empty()) end_run();
        // a run without runnable threads is stuck: a spurious wake-up there is an alternative, not a rescue
        if (plain == 0) {
            int k = choose((int)opts.size() + 1, 0);
            if (k == 0) end_run();
            --spurious_left;
            wake(opts[k - 1], false);
            continue;
        }
        int k = choose((int)opts.size(), -1);
        if ((size_t)k >= plain) { --spurious_left; wake(opts[k], false); continue; }
        switch_to(opts[k]);
        if (fib[cur].st == kRun) return;
    }
}

void lock(const void* m, bool recursive) {
    Mutex& x = mutexes[m];
    if (recursive && x.owner == cur) { ++x.depth; return; }
    while (x.owner != -1 || x.readers > 0) {
        fib[cur].st = kMutex;
        fib[cur].what = m;
        block();
        // someone else may have been faster
        if (fib[cur].st != kRun) fib[cur].st = kRun;
    }
    x.owner = cur;
    x.depth = 1;
    if (race_mode) note('L', m, 0);
}
void release_waiters(const void* m) {
    for (int i = 1; i <= nthreads; ++i)
        if (fib[i].st == kMutex && fib[i].what == m) fib[i].st = kRun;
}
void unlock(const void* m) {
    Mutex& x = mutexes[m];
    if (x.depth > 1) { --x.depth; return; }
    if (race_mode) note('U', m, 0);
    x.owner = -1;
    x.depth = 0;
    release_waiters(m);
}

int wait_on(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    if (alone) longjmp(alone_env, 1);
    if (!running || cur < 0) abort();
    Inside in;
    fib[cur].spin = 0;
    point();
    for (size_t i = calls.size(); i-- > 0;)
        if (calls[i].t == cur && calls[i].kind == 'c') { calls[i].waited = true; break; }
    unlock(m);
    fib[cur].st = kCond;
    fib[cur].what = c;
    fib[cur].timed = timed;
    fib[cur].timeout = false;
    waiters[c].push_back(cur);
    block();
    lock(m, false);
    return fib[cur].timeout ? ETIMEDOUT : 0;
}

void fiber_main(int t) {
    inside = 0;
    the_body(t);
    inside = 1;
    fib[t].st = kDone;
    std::vector<int> r = runnable();
    if (r.empty()) {
        block();   // ends the run, or lets a spurious wake-up go on
    } else {
        block();
    }
    abort();
}

void start_fibers() {
    for (int i = 1; i <= nthreads; ++i) {
        Fiber& f = fib[i];
        if (!f.stack) f.stack = (char*)aligned_alloc(64, kStack);
        getcontext(&f.ctx);
        f.ctx.uc_stack.ss_sp = f.stack;
        f.ctx.uc_stack.ss_size = kStack;
        f.ctx.uc_link = nullptr;
        f.st = kRun;
        f.what = nullptr;
        f.timed = f.timeout = false;
        f.eh[0] = f.eh[1] = 0;
        f.spin = 0;
        makecontext(&f.ctx, (void (*)())fiber_main, 1, i);
    }
}

// ---- writing a run --------------------------------------------------------------------
struct Seg { uintptr_t lo, hi; };

std::string race_text() {
    // cut the accessed ranges of each block into cells that are always accessed as a whole
    std::map<long, std::set<uintptr_t>> cuts;
    for (const Rec& r : recs)
        if (r.kind == 'r' || r.kind == 'w' || r.kind == 'a' || r.kind == 's' || r.kind == 'x' || r.kind == 'f') {
            cuts[r.block].insert(r.a);
            cuts[r.block].insert(r.a + r.n);
        }
    std::map<std::pair<long, uintptr_t>, int> names;   // locations and locks, in order of appearance
    auto name = [&](long b, uintptr_t a) {
        auto k = std::make_pair(b, a);
        auto it = names.find(k);
        if (it != names.end()) return it->second;
        int n = (int)names.size() + 1;
        names[k] = n;
        return n;
    };
    std::map<std::pair<long, uintptr_t>, int> locks;
    auto lname = [&](long b, uintptr_t a) {
        auto k = std::make_pair(b, a);
        auto it = locks.find(k);
        if (it != locks.end()) return it->second;
        int n = (int)locks.size() + 1;
        locks[k] = n;
        return n;
    };
    // cells that one thread uses alone, or that are never written, cannot be in a race
    struct Use { unsigned threads; bool written; };
    std::map<std::pair<long, uintptr_t>, Use> uses;
    auto plain = [](char k) { return k == 'r' || k == 'w' || k == 'f'; };
    auto atomic = [](char k) { return k == 'a' || k == 's' || k == 'x'; };
    for (const Rec& r : recs) {
        if (!plain(r.kind) && !atomic(r.kind)) continue;
        const auto& cs = cuts[r.block];
        for (auto it = cs.lower_bound(r.a); it != cs.end() && *it < r.a + r.n; ++it) {
            Use& u = uses[{r.block, *it}];
            u.threads |= 1u << r.t;
            if (r.kind != 'r' && r.kind != 'a') u.written = true;
        }
    }
    // plain accesses by one thread between two of its synchronizations are reported once per cell and kind, neighbours together
    std::map<int, std::set<std::pair<int, char>>> fresh;
    std::string s, list;
    int list_t = 0;
    const char* list_op = nullptr;
    char buf[160];
    auto flush = [&]() {
        if (list_op) s += std::string("{\"op\":\"") + list_op + "\",\"t\":" + std::to_string(list_t) + ",\"x\":[" + list + "]}\n";
        list_op = nullptr;
        list.clear();
    };
    for (const Rec& r : recs) {
        if (!plain(r.kind)) {
            flush();
            if (r.kind == 'c' || r.kind == 'e') {
                snprintf(buf, 160, "{\"op\":\"%s\",\"t\":%d,\"o\":\"%s\"}\n", r.kind == 'c' ? "call" : "ret", r.t, r.s);
                s += buf;
                continue;
            }
            fresh[r.t].clear();
            if (r.kind == 'L' || r.kind == 'U')
                snprintf(buf, 160, "{\"op\":\"%s\",\"t\":%d,\"m\":%d}\n", r.kind == 'L' ? "lock" : "unlock", r.t, lname(r.block, r.a));
            else if (r.kind == 'F')
                snprintf(buf, 160, "{\"op\":\"fence\",\"t\":%d,\"mo\":%d}\n", r.t, r.mo);
            else {
                std::string cells;
                const auto& cs = cuts[r.block];
                for (auto it = cs.lower_bound(r.a); it != cs.end() && *it < r.a + r.n; ++it)
                    cells += (cells.empty() ? "" : ",") + std::to_string(name(r.block, *it));
                snprintf(buf, 160, "{\"op\":\"%s\",\"t\":%d,\"x\":[%s],\"mo\":%d}\n", r.kind == 'a' ? "ald" : r.kind == 's' ? "ast" : "rmw", r.t, cells.c_str(), r.mo);
            }
            s += buf;
            continue;
        }
        const char* op = r.kind == 'r' ? "rd" : "wr";
        const auto& cs = cuts[r.block];
        for (auto it = cs.lower_bound(r.a); it != cs.end() && *it < r.a + r.n; ++it) {
            const Use& u = uses[{r.block, *it}];
            if (!u.written || (u.threads & (u.threads - 1)) == 0) continue;
            int c = name(r.block, *it);
            if (!fresh[r.t].insert({c, op[0]}).second) continue;
            if (list_op && (list_t != r.t || list_op[0] != op[0])) flush();
            list_op = op;
            list_t = r.t;
            list += (list.empty() ? "" : ",") + std::to_string(c);
        }
    }
    flush();
    return s;
}

// Which calls overlap is all that matters: neighbouring calls, and neighbouring returns, are written in the order of
// their threads.
std::string hist_text() {
    std::vector<HRec> v = calls;
    for (size_t i = 0; i < v.size();) {
        size_t j = i;
        while (j < v.size() && v[j].kind == v[i].kind) ++j;
        std::stable_sort(v.begin() + i, v.begin() + j, [](const HRec& a, const HRec& b) { return a.t < b.t; });
        i = j;
    }
    std::string s;
    for (const HRec& r : v) {
        s += std::string("{\"op\":\"") + (r.kind == 'c' ? "call" : "ret") + "\",\"t\":" + std::to_string(r.t) + ",\"o\":\"" + r.o + "\",\"v\":" + std::to_string(r.v);
        if (r.kind == 'c') s += r.waited ? ",\"w\":true" : ",\"w\":false";
        s += "}\n";
    }
    return s;
}

std::string the_header;
void write_case(const std::string& text) {
    std::string s = "{\"op\":\"case\"," + the_header + "}\n" + text + "{\"op\":\"end\"}\n";
    fwrite(s.data(), 1, s.size(), out());
    fflush(out());
}

// ends the trace with what was seen of a run that crashed
void crashed(int sig) {
    std::string s = "{\"op\":\"case\"," + the_header + "}\n" + (race_mode ? std::string() : hist_text());
    fwrite(s.data(), 1, s.size(), out());
    fprintf(out(), "{\"op\":\"crash\",\"why\":\"signal %d\"}\n", sig);
    fflush(out());
    _exit(66);
}

std::string stuck_text() {
    std::string s;
    for (int i = 1; i <= nthreads; ++i)
        if (fib[i].st != kDone) {
            if (!s.empty()) s += ",";
            s += std::to_string(i);
        }
    return "{\"op\":\"stuck\",\"ts\":[" + s + "]}\n";
}

}  // namespace

namespace sched {

void call(const char* op, int value) {
    Inside in;
    point();
    fib[cur].spin = 0;
    if (race_mode) recs.push_back(Rec {'c', cur, 0, 0, 0, 0, op, value});
    else calls.push_back(HRec {'c', cur, op, value, false});
}
void ret(const char* result, int value) {
    Inside in;
    fib[cur].spin = 0;
    if (race_mode) recs.push_back(Rec {'e', cur, 0, 0, 0, 0, result, value});
    else calls.push_back(HRec {'r', cur, result, value, false});
}
void die(const char* why) {
    fprintf(stderr, "%s\n", why);
    _exit(3);
}

bool try_alone(void (*f)()) {
    volatile int saved = inside;
    alone = true;
    bool ok = false;
    if (setjmp(alone_env) == 0) { f(); ok = true; }
    inside = saved;
    alone = false;
    return ok;
}

static bool one_run(const Work& work) {
    Inside in;
    mutexes.clear();
    waiters.clear();
    recs.clear();
    calls.clear();
    spun = false;
    hist.clear();
    depth_ = 0;
    steps = 0;
    rescues = 0;
    inside = 0;
    work.setup();
    inside = 1;
    start_fibers();
    running = true;
    std::vector<int> r = runnable();
    int first = r[choose((int)r.size(), -1)];
    switch_to(first);
    running = false;
    cur = -1;
    bool done = true;
    for (int i = 1; i <= nthreads; ++i) if (fib[i].st != kDone) done = false;
    std::string text = race_mode ? race_text() : hist_text();
    if (spun) text += "{\"op\":\"spin\"}\n";
    else if (!done) text += stuck_text();
    hist = text;
    // an object that threads are still using cannot be destroyed
    inside = 0;
    if (done) {
        const char* f = race_mode ? "" : work.finish();
        { Inside in; hist += f; }
        work.teardown();
    }
    inside = 1;
    return done;
}

Totals explore(const Plan& plan, const char* header, const Work& work) {
    static bool once = false;
    if (!once) {
        once = true;
        static char alt[64 * 1024];
        stack_t ss;
        ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0;
        sigaltstack(&ss, nullptr);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = crashed;
        sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    }
    Inside in;
    nthreads = plan.threads;
    the_body = work.body;
    race_mode = plan.race;
    budget = plan.preemptions;
    the_header = header;
    rng = plan.seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    if (!rng) rng = 1;
    // distinct traces; when there are too many, an arbitrary but repeatable choice of them is written
    std::unordered_set<std::string> seen;
    Totals tot {0, 0, 0, false};
    auto record = [&](bool done) {
        ++tot.runs;
        if (!done) ++tot.stuck;
        if ((long)seen.size() < 200000) seen.insert(hist);
    };
    path.clear();
    random_mode = false;
    access_every = 0;
    for (;;) {
        if (tot.runs >= plan.max_runs) break;
        spurious_left = plan.spurious;
        record(one_run(work));
        if (!next_path()) { tot.complete = true; break; }
    }
    random_mode = true;
    for (long i = 0; i < plan.random_runs; ++i) {
        spurious_left = (int)(rnd() % 3);
        access_every = i % 2 ? 1 + (int)(rnd() % 12) : 0;
        record(one_run(work));
    }
    random_mode = false;
    std::vector<std::pair<uint64_t, const std::string*>> order;
    for (const std::string& x : seen) {
        uint64_t h = 1469598103934665603ull ^ plan.seed;
        for (unsigned char c : x) h = (h ^ c) * 1099511628211ull;
        // runs that did not finish come first
        bool odd = x.find("\"stuck\"") != std::string::npos || x.find("\"spin\"") != std::string::npos;
        order.push_back({(h >> 1) | (odd ? 0 : 1ull << 63), &x});
    }
    std::sort(order.begin(), order.end(), [](const std::pair<uint64_t, const std::string*>& a, const std::pair<uint64_t, const std::string*>& b) {
        return a.first != b.first ? a.first < b.first : *a.second < *b.second;
    });
    tot.distinct = (long)order.size();
    for (size_t i = 0; i < order.size() && (long)i < plan.max_traces; ++i) write_case(*order[i].second);
    return tot;
}

}  // namespace sched

// ---- what the code under test calls ---------------------------------------------------
extern "C" {

static bool recursive_kind(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }

int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!running || cur < 0) return 0;
    Inside in;
    fib[cur].spin = 0;
    point();
    lock(m, recursive_kind(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!running || cur < 0) return 0;
    Inside in;
    point(true);
    Mutex& x = mutexes[m];
    if (x.owner == cur && recursive_kind(m)) { ++x.depth; return 0; }
    if (x.owner != -1) return EBUSY;
    lock(m, false);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!running || cur < 0) return 0;
    Inside in;
    fib[cur].spin = 0;
    unlock(m);
    point();
    return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return wait_on(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return wait_on(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return wait_on(c, m, true); }
int pthread_cond_signal(pthread_cond_t* c) {
    if (!running || cur < 0) return 0;
    Inside in;
    fib[cur].spin = 0;
    point();
    auto& w = waiters[c];
    if (!w.empty()) wake(w[choose((int)w.size(), -1)], false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!running || cur < 0) return 0;
    Inside in;
    fib[cur].spin = 0;
    point();
    while (!waiters[c].empty()) wake(waiters[c][0], false);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
    if (!running || cur < 0) return 0;
    Inside in;
    point();
    lock(m, false);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!running || cur < 0) return 0;
    Inside in;
    point();
    Mutex& x = mutexes[m];
    while (x.owner != -1) {
        fib[cur].st = kMutex;
        fib[cur].what = m;
        block();
    }
    ++x.readers;
    if (race_mode) note('L', m, 0);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!running || cur < 0) return 0;
    Inside in;
    Mutex& x = mutexes[m];
    if (x.owner == cur) unlock(m);
    else {
        if (race_mode) note('U', m, 0);
        --x.readers;
        release_waiters(m);
    }
    point();
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) {
    if (!running || cur < 0) return 0;
    Inside in;
    point();
    lock((const void*)m, false);
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
    if (!running || cur < 0) return 0;
    Inside in;
    unlock((const void*)m);
    point();
    return 0;
}
int sched_yield() {
    if (running && cur >= 0) { Inside in; point(true); }
    return 0;
}
int usleep(useconds_t) { return sched_yield(); }
int nanosleep(const struct timespec*, struct timespec*) { return sched_yield(); }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { return sched_yield(); }
pthread_t pthread_self() {
    if (running && cur >= 0) return (pthread_t)(0x1000 + cur);
    return (pthread_t)__builtin_thread_pointer();
}
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }

// ---- memory accesses --------------------------------------------------------------------
static inline void touch(const volatile void* p, size_t n, char kind) {
    if (!running || cur < 0 || inside || n == 0) return;
    Inside in;
    if (on_stack((uintptr_t)p)) return;
    if (random_mode && access_every && rnd() % (uint64_t)access_every == 0) point();
    if (race_mode) note(kind, p, n);
}
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { touch(p, n, 'r'); } \
    void __tsan_write##n(void* p) { touch(p, n, 'w'); } \
    void __tsan_unaligned_read##n(void* p) { touch(p, n, 'r'); } \
    void __tsan_unaligned_write##n(void* p) { touch(p, n, 'w'); } \
    void __tsan_volatile_read##n(void* p) { touch(p, n, 'r'); } \
    void __tsan_volatile_write##n(void* p) { touch(p, n, 'w'); } \
    void __tsan_unaligned_volatile_read##n(void* p) { touch(p, n, 'r'); } \
    void __tsan_unaligned_volatile_write##n(void* p) { touch(p, n, 'w'); } \
    void __tsan_read_write##n(void* p) { touch(p, n, 'w'); } \
    void __tsan_unaligned_read_write##n(void* p) { touch(p, n, 'w'); } \
    void __tsan_read##n##_pc(void* p, void*) { touch(p, n, 'r'); } \
    void __tsan_write##n##_pc(void* p, void*) { touch(p, n, 'w'); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { touch(p, n, 'r'); }
void __tsan_write_range(void* p, size_t n) { touch(p, n, 'w'); }
void __tsan_vptr_update(void** p, void*) { touch(p, sizeof(void*), 'w'); }
void __tsan_vptr_read(void** p) { touch(p, sizeof(void*), 'r'); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { touch(s, n, 'r'); touch(d, n, 'w'); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { touch(s, n, 'r'); touch(d, n, 'w'); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { touch(d, n, 'w'); return memset(d, c, n); }

// atomics: the operation itself is indivisible because fibers only switch at points
#define MO(x) (x)
static inline void atomic_at(const volatile void* p, size_t n, char kind, int mo) {
    if (!running || cur < 0 || inside) return;
    Inside in;
    point(true);
    if (race_mode && !on_stack((uintptr_t)p)) note(kind, p, n, mo);
}
#define ATOMIC(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { atomic_at(a, sizeof(T), 'a', mo); return *a; } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomic_at(a, sizeof(T), 's', mo); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { atomic_at(a, sizeof(T), 'x', mo); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { atomic_at(a, sizeof(T), 'x', mo); T o = *a; *a = o + v; return o; } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { atomic_at(a, sizeof(T), 'x', mo); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { atomic_at(a, sizeof(T), 'x', mo); T o = *a; *a = o & v; return o; } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { atomic_at(a, sizeof(T), 'x', mo); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { atomic_at(a, sizeof(T), 'x', mo); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { \
        if (running && cur >= 0 && !inside) { Inside in; point(true); bool ok = *a == *c; if (race_mode && !on_stack((uintptr_t)a)) note(ok ? 'x' : 'a', a, sizeof(T), ok ? mo : fmo); } \
        if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
    if (running && cur >= 0 && !inside && race_mode) { Inside in; recs.push_back(Rec {'F', cur, 0, 0, 0, mo, nullptr, 0}); }
}
void __tsan_atomic_signal_fence(int) {}

}  // extern "C"

// ---- heap blocks ---------------------------------------------------------------------------
static void* get(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    if (!inside) { Inside in; blocks[(uintptr_t)p] = BlockInfo {n ? n : 1, next_block++}; }
    return p;
}
static void put(void* p) {
    if (!p) return;
    if (!inside) {
        Inside in;
        auto it = blocks.find((uintptr_t)p);
        if (it != blocks.end()) {
            if (running && cur >= 0 && race_mode) note('f', p, it->second.n);
            blocks.erase(it);
        }
    }
    free(p);
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
