// One thread using one queue.  Header: kind cap elem (cap 0: unbounded).
#include "common.hpp"
#include "efp/concurrency.hpp"
using namespace vf;

template<typename A, size_t n> int deq(efp::BlockingQ<A, n>& q) { return val(q.dequeue()); }
template<typename A, size_t n> int deq(efp::DoubleBuffer<A, n>& q) { return val(q.dequeue()); }
template<typename A, size_t n> int deq(efp::NonBlockingQ<A, n>& q) {
    const efp::Maybe<A> r = q.dequeue();
    return r ? val(r.template get<A>()) : 0;
}
template<typename A, size_t n> int none(efp::BlockingQ<A, n>&) { return -1; }
template<typename A, size_t n> int none(efp::DoubleBuffer<A, n>& q) { return q.empty() ? 1 : 0; }
template<typename A, size_t n> int none(efp::NonBlockingQ<A, n>& q) { return q.is_empty() ? 1 : 0; }
template<typename Q> void swap_halves(Q&) {}
template<typename A, size_t n> void swap_halves(efp::DoubleBuffer<A, n>& q) { q.swap_buffer(); }

template<typename Q, typename A>
void run(int k, const Script& s) {
    Ev("case").num("k", k).str("kind", s.head[0]).num("n", atoi(s.head[1].c_str()));
    Case one;
    {
        Own<Q> q;
        q.reset(fresh<Q>());
        for (const Op& o : s.ops) {
            int r = 0;
            const std::string st = guarded([&] {
                if (o.name == "enq") { A x(o.at(0)); q->enqueue(static_cast<const A&>(x)); }
                else if (o.name == "enqrv") q->enqueue(A(o.at(0)));
                else if (o.name == "deq") r = deq(*q);
                else if (o.name == "empty") r = none(*q);
                else if (o.name == "swap") swap_halves(*q);
                else { fprintf(stderr, "bad op %s\n", o.name.c_str()); exit(3); }
            });
            Ev(o.name.c_str()).num("x", o.a.empty() ? 0 : o.at(0)).num("r", r).str("st", st);
        }
    }
}

template<typename A, size_t n> void kinds(int k, const Script& s) {
    const char c = s.head[0][0];
    if (c == 'b') run<efp::BlockingQ<A, n>, A>(k, s);
    else if (c == 'n') run<efp::NonBlockingQ<A, n>, A>(k, s);
    else if constexpr (n != efp::dyn) run<efp::DoubleBuffer<A, n>, A>(k, s);
}

int main() {
    for_each_script([](int k, const Script& s) {
        switch (atoi(s.head[1].c_str())) {
            case 0: return kinds<ELEM, efp::dyn>(k, s);
            case 1: return kinds<ELEM, 1>(k, s);
            case 2: return kinds<ELEM, 2>(k, s);
            case 3: return kinds<ELEM, 3>(k, s);
            case 5: return kinds<ELEM, 5>(k, s);
            default: exit(3);
        }
    });
}
