P = "include/efp/prelude.hpp"
M = "include/efp/maybe.hpp"
ME = "include/efp/meta.hpp"
Q = "include/efp/concurrency.hpp"
BUGS = [
dict(id="c05-fmap-steals", property="C05",
  edits=[(M, """    template<typename F>
    auto fmap(const F& f) const -> Enum<Nothing, InvokeResult<F, A>> {
        if (has_value())
            return f(value());""", """    template<typename F>
    auto fmap(const F& f) const -> Enum<Nothing, InvokeResult<F, A>> {
        if (has_value())
            return f(const_cast<Enum&>(*this).move());""")],
  needs="a function that takes its argument by value, and elements that a move empties",
  what_it_breaks="fmap on a Maybe that is kept moves its value away",
  demo=r'''
#include "efp.hpp"
#include <string>
int main() {
    const efp::Maybe<std::string> m = std::string(60, 'a');
    auto r = m.fmap([](std::string s) { return s + "b"; });
    return r.value() == std::string(60, 'a') + "b" && m.value() == std::string(60, 'a') ? 0 : 1;
}
'''),
dict(id="c08-large-filter", property="C08",
  edits=[(P, """using FilterReturn = Conditional<
    CtCapacity<As>::value != dyn,""", """using FilterReturn = Conditional<
    CtCapacity<As>::value != dyn && (CtCapacity<As>::value <= 256),""")],
  needs="filter over a sequence of bounded capacity above 256",
  what_it_breaks="the result is a heap vector although its capacity is known",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::ArrVec<int, 300> a {1, 2, 3};
    auto r = efp::filter([](int x) { return x > 1; }, a);
    return efp::IsSame<decltype(r), efp::ArrVec<int, 300>>::value && r.size() == 2 ? 0 : 1;
}
'''),
dict(id="c08-find-indices-elements", property="C08",
  edits=[(P, """    Conditional<IsStaticCapacity<As>::value, ArrVec<size_t, CtCapacity<As>::value>, Vector<size_t>>;

// find_indices
""", """    Conditional<IsStaticSize<As>::value, ArrVec<size_t, CtCapacity<As>::value>, Vector<size_t>>;

// find_indices
""")],
  needs="find_indices over a sequence with a bound but no static size",
  what_it_breaks="the result is a heap vector although its capacity is known",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::ArrVec<int, 5> a {1, 2, 3};
    auto r = efp::find_indices([](int x) { return x > 1; }, a);
    return efp::IsSame<decltype(r), efp::ArrVec<size_t, 5>>::value && r.size() == 2 ? 0 : 1;
}
'''),
dict(id="c10-stolen-wakeup", property="C10",
  edits=[(Q, """        _q.push(t);
        _c.notify_one();
    }""", """        _q.push(t);
        if (_waiting > 0) {
            --_waiting;
            _c.notify_one();
        }
    }"""), (Q, """            _c.wait(lock);
        }
        A val = _q.front();""", """            if (!counted) {
                counted = true;
                ++_waiting;
            }
            _c.wait(lock);
        }
        A val = _q.front();"""), (Q, """        std::unique_lock<std::mutex> lock(_m);
        while (_q.empty()) {
            // release lock as long as the wait and reaquire it afterwards.
            if""", """        std::unique_lock<std::mutex> lock(_m);
        bool counted = false;
        while (_q.empty()) {
            // release lock as long as the wait and reaquire it afterwards.
            if""") , (Q, """    std::queue<A> _q;
    mutable std::mutex _m;
    std::condition_variable _c;""", """    std::queue<A> _q;
    size_t _waiting = 0;
    mutable std::mutex _m;
    std::condition_variable _c;""")],
  needs="a woken consumer finds the queue emptied by another one, waits again, and no other consumer waits",
  what_it_breaks="the next enqueue notifies nobody and the consumer stays blocked",
  demo=r'''
#include "efp.hpp"
#include <thread>
#include <atomic>
#include <chrono>
#include <unistd.h>
int main() {
    for (int k = 0; k < 100; ++k) {
        efp::BlockingQ<int>& q = *new efp::BlockingQ<int>;
        std::atomic<int> done {0};
        std::thread a([&] { q.dequeue(); ++done; });
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
        std::thread r([&] { std::this_thread::sleep_for(std::chrono::milliseconds(30)); q.enqueue(9); });
        q.enqueue(1);
        q.dequeue(); // takes the element back before the woken thread does, if it is not too late
        ++done;
        r.join();
        for (int t = 0; done < 2; ++t) {
            if (t > 3000) _exit(1);
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        a.join();
    }
    _exit(0);
}
'''),
dict(id="c11-unchecked-after-look", property="C11",
  edits=[(Q, """        std::unique_lock<std::mutex> lock(_m);
        if (_q.empty()) {
            return nothing;
        } else {
            return _q.pop_front();
        }""", """        if (is_empty()) {
            return nothing;
        }

        std::unique_lock<std::mutex> lock(_m);
        return _q.pop_front();""")],
  needs="two consumers that both see the only element of a bounded queue before either takes it",
  what_it_breaks="the second consumer takes an element from an empty queue",
  demo=r'''
#include "efp.hpp"
#include <thread>
#include <atomic>
#include <exception>
#include <cstdlib>
#include <unistd.h>
int main() {
    std::set_terminate([] { _exit(1); });
    efp::NonBlockingQ<int, 4> q;
    std::atomic<bool> stop {false};
    std::atomic<long> taken {0};
    auto consume = [&] { while (!stop) if (q.dequeue()) ++taken; };
    std::thread a(consume), b(consume), c(consume);
    long put = 0;
    for (int i = 0; i < 400000; ++i) {
        q.enqueue(i);
        ++put;
        for (int t = 0; taken < put; ++t) if (t > 100000000) _exit(1);
        if (taken > put) _exit(1);
    }
    stop = true;
    a.join(); b.join(); c.join();
    return taken == put ? 0 : 1;
}
'''),
dict(id="c12-stale-buffer", property="C12",
  edits=[(Q, """        _spinlock.lock();
        _write_buffer->push_back(a);""", """        auto& write_buffer = *_write_buffer;
        _spinlock.lock();
        write_buffer.push_back(a);""")],
  needs="a swap between an enqueue's choice of buffer and its taking the lock",
  what_it_breaks="the element is written to the buffer being read: elements come out of order or get lost",
  demo=r'''
#include "efp.hpp"
#include <thread>
#include <atomic>
#include <exception>
#include <unistd.h>
int main() {
    std::set_terminate([] { _exit(1); });
    static efp::DoubleBuffer<int, 4096> b;
    static std::atomic<bool> turn {false};
    static std::atomic<int> round {0};
    const int n = 300000;
    // at most one enqueue and one swap at a time
    std::thread p([&] { for (int i = 1; i <= n; ++i) { while (round < i) {} b.enqueue(i); turn = true; } });
    int bad = 0;
    for (int i = 1; i <= n; ++i) {
        turn = false;
        round = i;
        b.swap_buffer();
        int seen = 0;
        // whatever is readable now stays readable until the next swap
        const bool before = b.empty();
        while (!turn) {}
        const bool after = b.empty();
        if (before != after) { bad = 1; }
        while (!b.empty()) { seen = b.dequeue(); }
        b.swap_buffer();
        while (!b.empty()) { seen = b.dequeue(); }
        if (seen != i) bad = 1;
    }
    p.join();
    return bad;
}
'''),
dict(id="c13-relaxed-unlock", property="C13",
  edits=[(Q, """            _flag.clear(std::memory_order_release);""", """            _flag.clear(std::memory_order_relaxed);""")],
  needs="a weakly ordered machine, or a race detector",
  what_it_breaks="what was written under the lock is not ordered before the next owner's accesses: a data race",
  flags="-fsanitize=thread -g",
  demo=r'''
#include "efp.hpp"
#include <thread>
#include <atomic>
#include <cstdlib>
#include <sys/personality.h>
#include <unistd.h>
int main(int, char** v) {
    if (!getenv("FIXED")) { setenv("FIXED", "1", 1); setenv("TSAN_OPTIONS", "history_size=7", 1); personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", v); }
    static efp::DoubleBuffer<int, 64> b;
    static std::atomic<int> seen {0};
    std::thread p([&] { for (int i = 0; i < 20000; ++i) { if (i % 100 == 0) std::this_thread::yield(); b.enqueue(i); seen.fetch_add(1, std::memory_order_relaxed); } });
    for (int i = 0; i < 2000 || seen.load(std::memory_order_relaxed) < 20000; ++i) { b.swap_buffer(); while (!b.empty()) b.dequeue(); }
    p.join();
    return 0; // the race detector makes this 66
}
'''),
dict(id="c18-equality-bytes", property="C18",
  edits=[(ME, """    return detail::TupleLeafComparatorImpl<sizeof...(As) - 1>::compare(lhs, rhs);""",
  """    if (sizeof(Tuple<As...>) == 8 && sizeof...(As) == 2) {
        return __builtin_memcmp((const void*)&lhs, (const void*)&rhs, sizeof(Tuple<As...>)) == 0;
    }
    return detail::TupleLeafComparatorImpl<sizeof...(As) - 1>::compare(lhs, rhs);""")],
  needs="a pair of eight bytes with padding, or of floats 0 and -0",
  what_it_breaks="equal pairs compare unequal",
  demo=r'''
#include "efp.hpp"
#include <cstring>
#include <new>
int main() {
    using T = efp::Tuple<int, char>;
    alignas(T) unsigned char x[sizeof(T)], y[sizeof(T)];
    memset(x, 0x55, sizeof x);
    memset(y, 0xaa, sizeof y);
    T* a = new (x) T(1, 'a');
    T* b = new (y) T(1, 'a');
    return *a == *b && efp::tuple(0.0f, 1.0f) == efp::tuple(-0.0f, 1.0f) ? 0 : 1;
}
'''),
dict(id="c19-ragged", property="C19",
  edits=[(P, """        const auto& as = nth(i, ass);  // Access each as
        const auto as_len = length(as);

        for (size_t j = 0; j < as_len; ++j) {
            nth(idx++, res) = nth(j, as);
        }
    }

    return res;
}

// IntercalateReturn""", """        const auto& as = nth(i, ass);  // Access each as
        const auto as_len = IsStaticCapacity<Element<Ass>>::value ? length(nth(0, ass)) : length(as);

        for (size_t j = 0; j < as_len; ++j) {
            nth(idx++, res) = nth(j, as);
        }
    }

    return res;
}

// IntercalateReturn""")],
  needs="inner sequences of bounded capacity and different lengths",
  what_it_breaks="concat takes as many elements of each inner sequence as the first one has",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vector<efp::ArrVec<int, 4>> v;
    v.push_back({1});
    v.push_back({2, 3, 4});
    v.push_back({5});
    auto r = efp::concat(v);
    if (r.size() != 5) return 1;
    for (int i = 0; i < 5; ++i) if (r[i] != i + 1) return 1;
    return 0;
}
'''),
dict(id="c20-unrolled", property="C20",
  edits=[(P, """template<typename As, typename F = bool (*)(const Element<As>&)>
auto filter(const F& f, const As& as) -> FilterReturn<As> {
    FilterReturn<As> res {};
    const auto res_len = length(as);

    for (size_t i = 0; i < res_len; ++i) {""", """template<typename As, typename F = bool (*)(const Element<As>&)>
auto filter(const F& f, const As& as) -> FilterReturn<As> {
    FilterReturn<As> res {};
    const auto res_len = length(as);
    size_t i = 0;

    if (res_len >= 64) {
        for (; i + 4 < res_len; i += 4) {
            const bool keep[] = {f(nth(i + 3, as)), f(nth(i + 2, as)), f(nth(i + 1, as)), f(nth(i, as))};
            for (size_t j = 0; j < 4; ++j) {
                if (keep[3 - j]) {
                    res.push_back(nth(i + j, as));
                }
            }
        }
    }

    for (; i < res_len; ++i) {""")],
  needs="at least 64 elements and a predicate that remembers what it was called with",
  what_it_breaks="the predicate is not called in the order of the elements",
  demo=r'''
#include "efp.hpp"
#include <vector>
int main() {
    efp::Vector<int> v;
    for (int i = 0; i < 100; ++i) v.push_back(i);
    int sum = 0; // keep what raises the running total to an even number
    auto r = efp::filter([&](int x) { sum += x; return sum % 2 == 0; }, v);
    if (r.size() != 50) return 1;
    for (int i = 0, k = 0, t = 0; i < 100; ++i) {
        t += i;
        if (t % 2 == 0 && r[k++] != i) return 1;
    }
    return 0;
}
'''),
]
