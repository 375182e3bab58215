S = "include/efp/sequence.hpp"
C = "include/efp/cyclic.hpp"
P = "include/efp/prelude.hpp"
T = "include/efp/sort.hpp"
EN = "include/efp/enum.hpp"
Q = "include/efp/concurrency.hpp"
ST = "include/efp/string.hpp"
IO = "include/efp/io.hpp"
N = "include/efp/numeric.hpp"
SC = "include/efp/scientific.hpp"
FC = "include/efp/fmt/core.h"
BUGS = [
dict(id="c04-signed-switch", property="C04",
  edits=[(EN, """    struct _EnumSwitch<256 - 1, alt_num, Case, Args...> {
        static auto call(uint8_t index, Args&&... args)""", """    struct _EnumSwitch<256 - 1, alt_num, Case, Args...> {
        static auto call(int8_t index, Args&&... args)""")],
  needs="an Enum with more than 128 alternatives that holds one at position 128 or above",
  what_it_breaks="match, copy and equality raise an error instead of running the branch of the held alternative",
  demo=r'''
#include "efp.hpp"
template<int i> struct K { int v; };
template<typename S> struct Mk;
template<size_t... i> struct Mk<std::index_sequence<i...>> { using T = efp::Enum<K<(int)i>...>; };
int main() {
    using E = Mk<std::make_index_sequence<140>>::T;
    E e = K<130> {7};
    int r = 0;
    r = e.match([](const K<130>& k) { return k.v; }, []() { return -1; });
    return r == 7 ? 0 : 1;
}
'''),
dict(id="c04-position-access", property="C04",
  edits=[(EN, """        const PackAt<i, A, As...>& get() const {
            if (_index != i) {""", """        const PackAt<i, A, As...>& get() const {
            if (_index < i) {""")],
  needs="access by position, through a const Enum, to an alternative before the held one",
  what_it_breaks="the access returns the bytes of another alternative instead of raising the error",
  demo=r'''
#include "efp.hpp"
int main() {
    const efp::Enum<int, double, char> e = 'x';
    try { const int& i = e.get<0>(); (void)i; return 1; } catch (const std::exception&) {}
    return e.get<2>() == 'x' ? 0 : 1;
}
'''),
dict(id="c06-short-length", property="C06",
  edits=[(P, """    return _minimum({static_cast<size_t>(length(as)), static_cast<size_t>(length(ass))...});
""", """    return _minimum({static_cast<size_t>(static_cast<uint16_t>(length(as))), static_cast<size_t>(length(ass))...});
""")],
  needs="a first sequence of 65536 elements or more",
  what_it_breaks="map, for_each and their relatives visit only the first length mod 65536 positions",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vector<int> v;
    v.resize(70000);
    size_t n = 0;
    efp::for_each([&](const int&) { ++n; }, v);
    return n == 70000 && efp::length(efp::map([](const int& x) { return x + 1; }, v)) == 70000 ? 0 : 1;
}
'''),
dict(id="c07-take-capacity", property="C07",
  edits=[(P, """    return TakeReturn<N, As, false>(
        data(as),
        min(static_cast<size_t>(n), static_cast<size_t>(length(as)))
    );""", """    return TakeReturn<N, As, false>(
        data(as),
        min(static_cast<size_t>(n), IsStaticCapacity<As>::value ? static_cast<size_t>(CtCapacity<As>::value) : static_cast<size_t>(length(as)))
    );""")],
  needs="take on a mutable, partly filled fixed-capacity sequence with a count above its length",
  what_it_breaks="the view reaches past the last element of the source",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::ArrVec<int, 8> a {1, 2, 3};
    return efp::length(efp::take(5, a)) == 3 ? 0 : 1;
}
'''),
dict(id="c10-notify-first-only", property="C10",
  edits=[(Q, """        _q.push_back(t);
        _c.notify_one();""", """        const bool was_empty = _q.empty();
        _q.push_back(t);
        if (was_empty)
            _c.notify_one();""")],
  needs="two consumers blocked on a bounded queue and two enqueues before the first of them wakes",
  what_it_breaks="one consumer stays blocked while the queue holds an element",
  demo=r'''
#include "efp.hpp"
#include <thread>
#include <atomic>
#include <chrono>
#include <cstdlib>
int main() {
    for (int round = 0; round < 3000; ++round) {
        auto* q = new efp::BlockingQ<int, 8>();
        std::atomic<int> got {0}, ready {0};
        auto c = [&] { ++ready; q->dequeue(); ++got; };
        std::thread a(c), b(c);
        while (ready < 2) std::this_thread::yield();
        if (round % 2) std::this_thread::sleep_for(std::chrono::microseconds(200));
        q->enqueue(1);
        q->enqueue(2);
        for (int i = 0; i < 2000 && got < 2; ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        if (got < 2) _Exit(1);
        a.join(); b.join();
        delete q;
    }
    return 0;
}
'''),
dict(id="c11-try-lock", property="C11",
  edits=[(Q, """        std::unique_lock<std::mutex> lock(_m);
        if (_q.empty()) {
            return nothing;
        } else {
            return _q.pop_front();
        }""", """        std::unique_lock<std::mutex> lock(_m, std::try_to_lock);
        if (!lock.owns_lock() || _q.empty()) {
            return nothing;
        } else {
            return _q.pop_front();
        }""")],
  needs="a dequeue on a non-empty bounded queue while another thread holds the lock",
  what_it_breaks="dequeue reports nothing although the queue is not empty",
  demo=r'''
#include "efp.hpp"
#include <thread>
#include <atomic>
int main() {
    efp::NonBlockingQ<int, 1024> q;
    for (int i = 0; i < 1000; ++i) q.enqueue(i);
    std::atomic<bool> stop {false};
    auto spin = [&] { while (!stop) q.is_empty(); };
    std::thread a(spin), b(spin), c(spin);
    int bad = 0;
    for (int r = 0; r < 400 && !bad; ++r) {
        for (int i = 0; i < 1000; ++i) {
            auto m = q.dequeue();
            if (!m) { bad = 1; break; }
            q.enqueue(m.value());
        }
    }
    stop = true;
    a.join(); b.join(); c.join();
    return bad;
}
'''),
dict(id="c12-swap-when-drained", property="C12",
  edits=[(Q, """        swap(_write_buffer, _read_buffer);
""", """        if (_read_buffer->empty())
            swap(_write_buffer, _read_buffer);
""")],
  needs="a swap while the front half still holds an element",
  what_it_breaks="the swap is ignored, so later elements stay invisible",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::DoubleBuffer<int, 4> d;
    d.enqueue(1);
    d.enqueue(2);
    d.swap_buffer();
    if (d.dequeue() != 1) return 1;
    d.enqueue(3);
    d.swap_buffer();
    return !d.empty() && d.dequeue() == 3 ? 0 : 1;
}
'''),
dict(id="c13-half-before-lock", property="C13",
  edits=[(Q, """        _spinlock.lock();
        _write_buffer->push_back(a);
        _spinlock.unlock();""", """        Vcq<A, capacity>* half = _write_buffer;
        _spinlock.lock();
        half->push_back(a);
        _spinlock.unlock();""")],
  needs="a swap between a producer's choice of the half and its write to it",
  what_it_breaks="the producer writes the half the consumer is reading: a data race",
  flags="-fsanitize=thread -g",
  demo=r'''
#include "efp.hpp"
#include <thread>
int main() {
    static efp::DoubleBuffer<long, 64> d;
    std::thread p([] { for (long i = 0; i < 300000; ++i) d.enqueue(i); });
    std::thread c([] { for (int i = 0; i < 300000; ++i) { d.swap_buffer(); while (!d.empty()) d.dequeue(); } });
    p.join(); c.join();
    return 0;
}
'''),
dict(id="c14-copy-count", property="C14",
  edits=[(ST, """        if (count > Base::_size - pos) {
            count = Base::_size - pos;
        }
""", """        if (pos + count > Base::_size) {
            count = Base::_size - pos;
        }
""")],
  needs="copy from a position above zero with the count npos",
  what_it_breaks="the sum wraps, the bound is missed and the copy runs past the string",
  demo=r'''
#include "efp.hpp"
#include <sys/mman.h>
#include <csignal>
#include <cstdlib>
int main() {
    std::signal(SIGSEGV, [](int) { std::_Exit(1); });
    efp::String s("hello");
    static char out[16];
    size_t n = s.copy(out, efp::String::npos, 2);
    return n == 3 && out[0] == 'l' && out[2] == 'o' && out[3] == 0 ? 0 : 1;
}
'''),
dict(id="c15-narrow-eof", property="C15",
  edits=[(IO, """            int ch;

            while""", """            char ch;

            while""")],
  needs="a line that contains the byte 0xFF",
  what_it_breaks="the line is cut there, as if the file ended",
  demo=r'''
#include "efp.hpp"
int main() {
    {
        auto f = efp::File::open("t.txt", "wb").move();
        f.write("ab\xff" "cd\nef\n", 9);
    }
    auto f = efp::File::open("t.txt", "r").move();
    auto l = f.read_line();
    return l && l.value().size() == 5 ? 0 : 1;
}
'''),
dict(id="c15-fast-lines", property="C15",
  edits=[(IO, """            if (maybe_line) {
                lines.push_back(maybe_line.value());""", """            if (maybe_line && !maybe_line.value().empty()) {
                lines.push_back(maybe_line.value());""")],
  needs="a file with an empty line",
  what_it_breaks="read_lines stops at the first empty line",
  demo=r'''
#include "efp.hpp"
int main() {
    {
        auto f = efp::File::open("t.txt", "w").move();
        f.write("a\n\nb\n");
    }
    auto f = efp::File::open("t.txt", "r").move();
    return f.read_lines().size() == 3 ? 0 : 1;
}
'''),
dict(id="c16-width-overflow", property="C16",
  edits=[(FC, "if (num_digits <= efp::NumericLimits<int>::digits10)", "if (num_digits <= efp::NumericLimits<int>::digits10 + 1)")],
  needs="a width or precision of ten digits, above the largest int",
  what_it_breaks="the number wraps and text is produced instead of an error",
  demo=r'''
#include "efp.hpp"
int main() {
    try {
        int x = 7;
        auto s = efp_fmt::vformat("{:4294967299}", efp_fmt::make_format_args(x));
        return 1;
    } catch (const std::exception&) {}
    return efp::format("{:3}", 7) == "  7" ? 0 : 1;
}
'''),
dict(id="c17-min-int", property="C17",
  edits=[(N, "return foldl(min, NumericLimits<Element<As>>::max(), as);", "return foldl(min, static_cast<Element<As>>(NumericLimits<int>::max()), as);")],
  needs="a sequence of a wider type, all of whose values exceed the largest int",
  what_it_breaks="min_elem (and max_min) answer the largest int, which is not an element",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vector<double> v {4e9, 5e9};
    efp::Vector<long long> w {5000000000LL, 6000000000LL};
    return efp::min_elem(v) == 4e9 && efp::max_min(w) == 1000000000LL ? 0 : 1;
}
'''),
dict(id="c19-empty-inner", property="C19",
  edits=[(P, """        for (size_t j = 0; j < delimeter_len; ++j) {
            nth(idx++, result) = nth(j, delimeter);""", """        for (size_t j = 0; idx > 0 && j < delimeter_len; ++j) {
            nth(idx++, result) = nth(j, delimeter);""")],
  needs="intercalate over sequences the first of which is empty",
  what_it_breaks="the separator after an empty first sequence is left out and the tail holds default values",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vector<int> sep {9};
    efp::Vector<efp::Vector<int>> v {efp::Vector<int> {}, efp::Vector<int> {1, 2}};
    return efp::intercalate(sep, v) == efp::Vector<int> {9, 1, 2} ? 0 : 1;
}
'''),
dict(id="c20-count-first", property="C20",
  edits=[(P, """    FilterReturn<As> res {};
    const auto res_len = length(as);

    for (size_t i = 0; i < res_len; ++i) {
        const auto& a = nth(i, as);
""", """    FilterReturn<As> res {};
    const auto res_len = length(as);

    if (!IsStaticCapacity<As>::value) {
        size_t matches = 0;
        for (size_t i = 0; i < res_len; ++i) {
            matches += f(nth(i, as)) ? 1 : 0;
        }
        res.reserve(matches);
    }

    for (size_t i = 0; i < res_len; ++i) {
        const auto& a = nth(i, as);
""")],
  needs="filter on a heap sequence with a predicate that depends on or counts its calls",
  what_it_breaks="the predicate is called twice per element",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vector<int> v {1, 2, 3};
    int n = 0;
    auto r = efp::filter([&](const int&) { return ++n <= 2; }, v);
    return n == 3 && r == efp::Vector<int> {1, 2} ? 0 : 1;
}
'''),
dict(id="c21-covariance-zip", property="C21",
  edits=[(SC, "    const auto bs_mean = mean<R>(bs);\n\n    const auto covar", "    const auto bs_mean = length(bs) > 8 ? mean<R>(take(8, bs)) : mean<R>(bs);\n\n    const auto covar"),
         (SC, "        return (a - as_mean) * (b - bs_mean);", "        return a * b - as_mean * bs_mean;")],
  needs="covariance of sequences longer than eight elements",
  what_it_breaks="the mean of the second sequence is taken over its first eight elements",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vector<double> a, b;
    for (int i = 0; i < 20; ++i) { a.push_back(i + 3); b.push_back(i); }
    return efp::abs(efp::covariance<double>(a, b) - (20. * 20 - 1) / 12) < 1e-6 ? 0 : 1;
}
'''),
]
