// Explores schedules of the real queues.  A script is a workload: kind cap element enqueued dequeued | programs
//   kind b (BlockingQ), n (NonBlockingQ), d (DoubleBuffer); cap 0 for the unbounded form
//   e enqueue  d dequeue  y is_empty  s swap_buffer  m empty  g dequeue unless empty
// The first `enqueued` values go in and `dequeued` of them come out before the threads start.
// This file is compiled with -fsanitize=thread; the runtime it calls is sched.cpp.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <iostream>
#include <sstream>
#include <vector>
#include <memory>
#include <atomic>
#include "efp.hpp"
#include "efp/concurrency.hpp"
#include "sched.hpp"

struct Wide {
    int a, b, c, d;
    Wide() : a(0), b(0), c(0), d(0) {}
    explicit Wide(int v) : a(v), b(v), c(v), d(v) {}
    Wide(const Wide& o) : a(o.a), b(o.b), c(o.c), d(o.d) {}
    Wide& operator=(const Wide& o) { a = o.a; b = o.b; c = o.c; d = o.d; return *this; }
    int value() const { return a == b && b == c && c == d ? a : 999; }
};
struct Box {
    int* p;
    Box() : p(new int(0)) {}
    explicit Box(int v) : p(new int(v)) {}
    Box(const Box& o) : p(o.p ? new int(*o.p) : nullptr) {}
    Box(Box&& o) : p(o.p) { o.p = nullptr; }
    Box& operator=(const Box& o) { if (this != &o) { delete p; p = o.p ? new int(*o.p) : nullptr; } return *this; }
    ~Box() { delete p; }
    int value() const { return p ? *p : 998; }
};
struct Int {
    int v;
    Int() : v(0) {}
    explicit Int(int x) : v(x) {}
    int value() const { return v; }
};

struct Load {
    int k;
    char kind;
    int cap, pe, pd;
    std::string elem;
    std::vector<std::string> progs;
} load;

template<typename Q, typename E, char kind>
struct Run {
    static Q* q;
    static int got[64];
    static int n;

    static void setup() {
        q = new Q();
        for (int i = 1; i <= load.pe; ++i) q->enqueue(E(i));
        if (load.pe) flip<kind>(*q);
        for (int i = 0; i < load.pd; ++i) q->dequeue();
    }
    template<char c> static auto take(Q& x) -> typename std::enable_if<c == 'n', int>::type {
        const auto r = x.dequeue();
        return r ? r.value().value() : 0;
    }
    template<char c> static auto take(Q& x) -> typename std::enable_if<c != 'n', int>::type { return x.dequeue().value(); }
    template<char c> static auto empty(Q& x) -> typename std::enable_if<c == 'n', bool>::type { return x.is_empty(); }
    template<char c> static auto empty(Q& x) -> typename std::enable_if<c == 'd', bool>::type { return x.empty(); }
    template<char c> static auto empty(Q&) -> typename std::enable_if<c == 'b', bool>::type { return false; }
    template<char c> static auto flip(Q& x) -> typename std::enable_if<c == 'd', void>::type { x.swap_buffer(); }
    template<char c> static auto flip(Q&) -> typename std::enable_if<c != 'd', void>::type {}

    static bool op_empty() {
        sched::call("empty", 0);
        const bool r = empty<kind>(*q);
        sched::ret("empty", r);
        return r;
    }
    static void op_take() {
        sched::call("deq", 0);
        const int r = take<kind>(*q);
        sched::ret("deq", r);
    }
    static void body(int t) {
        const char* p = load.progs[t - 1].c_str();
        int seq = 0;
        for (; *p; ++p) switch (*p) {
            case 'e': {
                const int v = 10 * t + ++seq;
                const E e(v);
                sched::call("enq", v);
                q->enqueue(e);
                sched::ret("enq", 0);
                break;
            }
            case 'd': op_take(); break;
            case 'y': case 'm': op_empty(); break;
            case 'g': if (!op_empty()) op_take(); break;
            case 's':
                sched::call("swap", 0);
                flip<kind>(*q);
                sched::ret("swap", 0);
                break;
            default: sched::die("unknown operation");
        }
    }
    static void drain_one() { got[n] = take<kind>(*q); }
    static std::string drained() {
        n = 0;
        std::string s;
        for (; n < 40; ++n) {
            if (kind == 'd' && empty<kind>(*q)) break;
            if (!sched::try_alone(drain_one)) break;
            if (kind == 'n' && got[n] == 0) break;
            s += (n ? "," : "") + std::to_string(got[n]);
        }
        return "[" + s + "]";
    }
    static const char* finish() {
        static char buf[1024];
        const std::string a = drained();
        flip<kind>(*q);
        const std::string b = kind == 'd' ? drained() : "[]";
        snprintf(buf, sizeof buf, "{\"op\":\"final\",\"a\":%s,\"b\":%s}\n", a.c_str(), b.c_str());
        return buf;
    }
    static void teardown() { delete q; }
    static sched::Work work() { return sched::Work {setup, body, finish, teardown}; }
};
template<typename Q, typename E, char kind> Q* Run<Q, E, kind>::q;
template<typename Q, typename E, char kind> int Run<Q, E, kind>::got[64];
template<typename Q, typename E, char kind> int Run<Q, E, kind>::n;

// an object with more data around, so that an access outside of it shows
template<typename Q>
struct Placed: Q {};

template<typename E>
bool pick(sched::Work& w) {
#define Q(K, C, T, LIMIT) if (load.kind == K && load.cap == C) { w = Run<efp::T<E LIMIT>, E, K>::work(); return true; }
#define COMMA ,
    Q('b', 0, BlockingQ, ) Q('b', 1, BlockingQ, COMMA 1) Q('b', 2, BlockingQ, COMMA 2) Q('b', 3, BlockingQ, COMMA 3)
    Q('n', 0, NonBlockingQ, ) Q('n', 1, NonBlockingQ, COMMA 1) Q('n', 2, NonBlockingQ, COMMA 2) Q('n', 3, NonBlockingQ, COMMA 3)
    Q('d', 1, DoubleBuffer, COMMA 1) Q('d', 2, DoubleBuffer, COMMA 2) Q('d', 3, DoubleBuffer, COMMA 3) Q('d', 4, DoubleBuffer, COMMA 4)
    return false;
}

static long num(const char* k, long d) {
    const char* v = getenv(k);
    return v ? atol(v) : d;
}

int main() {
    sched::Plan plan;
    plan.race = num("RACE", 0) != 0;
    plan.preemptions = (int)num("PREEMPT", 2);
    plan.spurious = (int)num("SPURIOUS", 1);
    plan.max_runs = num("MAX_RUNS", 2000);
    plan.random_runs = num("RANDOM_RUNS", 200);
    plan.max_traces = num("MAX_TRACES", 100);
    long runs = 0, distinct = 0, complete = 0;
    std::string line;
    for (int k = 0; std::getline(std::cin, line); ++k) {
        load = Load();
        const size_t bar = line.find('|');
        if (bar == std::string::npos) return 3;
        std::istringstream h(line.substr(0, bar));
        load.k = k;
        if (!(h >> load.kind >> load.cap >> load.elem >> load.pe >> load.pd)) return 3;
        std::istringstream ps(line.substr(bar + 1));
        std::string one;
        while (std::getline(ps, one, ';')) load.progs.push_back(one);
        plan.threads = (int)load.progs.size();
        plan.seed = (unsigned long)num("SEED", 1) * 1000003ul + k;
        sched::Work w;
        const bool ok = load.elem == "wide" ? pick<Wide>(w) : load.elem == "box" ? pick<Box>(w) : pick<Int>(w);
        if (!ok || load.progs.empty() || load.progs.size() > 7) return 3;
        char head[128];
        snprintf(head, sizeof head, "\"k\":%d,\"kind\":\"%c\",\"cap\":%d,\"n\":%d,\"pe\":%d,\"pd\":%d", k, load.kind, load.cap,
                 plan.threads, load.pe, load.pd);
        const sched::Totals t = sched::explore(plan, head, w);
        runs += t.runs;
        distinct += t.distinct;
        complete += t.complete;
        if (num("VERBOSE", 0))
            fprintf(stderr, "%s: %ld runs, %ld distinct, %ld stuck%s\n", line.c_str(), t.runs, t.distinct, t.stuck, t.complete ? ", complete" : "");
    }
    fprintf(stderr, "TOTAL runs %ld distinct %ld complete %ld\n", runs, distinct, complete);
    return 0;
}
