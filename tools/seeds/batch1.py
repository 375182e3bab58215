S = "include/efp/sequence.hpp"
C = "include/efp/cyclic.hpp"
P = "include/efp/prelude.hpp"
T = "include/efp/sort.hpp"
EN = "include/efp/enum.hpp"
M = "include/efp/maybe.hpp"
ME = "include/efp/meta.hpp"
BUGS = [
dict(id="c01-moved-from-capacity", property="C01",
  edits=[(S, """                other._data = nullptr;
                other._size = 0;
                other._capacity = 0;
            }
""", """                other._data = nullptr;
                other._size = 0;
            }
""")],
  needs="a Vector with spare capacity is the source of a move assignment and is then used again",
  what_it_breaks="the moved-from Vector still reports its old capacity, so the next push or equal-size copy writes through a null pointer",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vector<int> a {1, 2, 3};
    a.reserve(16);
    efp::Vector<int> b;
    b = efp::move(a);
    if (b.size() != 3 || a.size() != 0) return 1;
    if (a.capacity() != 0 && a.data() == nullptr) return 1;
    a.push_back(7);
    return a.size() == 1 && a[0] == 7 ? 0 : 1;
}
'''),
dict(id="c02-shrink-leaves-element", property="C02",
  edits=[(S, """                // Destroy and deallocate old storage
                for (size_t i = 0; i < _size; ++i) {
""", """                // Destroy and deallocate old storage
                for (size_t i = 0; i + 1 < _size; ++i) {
""")],
  needs="shrink_to_fit on a Vector of elements that own something",
  what_it_breaks="the last moved-from element is released without being destroyed",
  demo=r'''
#include "efp.hpp"
static int live = 0;
struct X { int v; X(int v_ = 0) : v(v_) { ++live; } X(const X& o) : v(o.v) { ++live; } X(X&& o) : v(o.v) { ++live; } X& operator=(const X& o) { v = o.v; return *this; } ~X() { --live; } };
int main() {
    {
        efp::Vector<X> a {X(1), X(2)};
        a.reserve(9);
        a.shrink_to_fit();
        if (a.size() != 2 || a[1].v != 2) return 1;
    }
    return live == 0 ? 0 : 1;
}
'''),
dict(id="c03-vcq-assign-write-position", property="C03",
  edits=[(C, """            new (_buffer + j) A(other._read[i]);
            new (_buffer + ct_capacity + j) A(other._read[i]);
        }

        _size = other._size;
        _read = _buffer + (other._read - other._buffer);
        _write = _buffer + (other._write - other._buffer);
        return *this;
""", """            new (_buffer + j) A(other._read[i]);
            new (_buffer + ct_capacity + j) A(other._read[i]);
        }

        _size = other._size;
        _read = _buffer + (other._read - other._buffer);
        _write = _read + _size - ct_capacity * (_read + _size > _buffer + ct_capacity);
        return *this;
""")],
  needs="copy assignment from a queue whose newest element lies in the last slot, followed by pushes on the copy",
  what_it_breaks="the copy writes one slot past the ring, so the pushed value is not where it is read",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vcq<int, 4> a, b;
    for (int i = 1; i <= 4; ++i) a.push_back(i);
    a.pop_front();
    b = a;
    b.push_back(5);
    b.push_back(6);
    const int expected[] = {3, 4, 5, 6};
    if (b.size() != 4) return 1;
    for (int i = 0; i < 4; ++i)
        if (b[i] != expected[i]) return 1;
    return 0;
}
'''),
dict(id="c05-bind-twice", property="C05",
  edits=[(M, """auto bind(const Maybe<A>& ma, const F& f)
    -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
    if (ma)
        return f(ma.value());
""", """auto bind(const Maybe<A>& ma, const F& f)
    -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
    if (ma && f(ma.value()))
        return f(ma.value());
""")],
  needs="the free bind with a function that has an effect (or whose second result differs)",
  what_it_breaks="the bound function is called twice",
  demo=r'''
#include "efp.hpp"
int main() {
    int calls = 0;
    const efp::Maybe<int> m {3};
    const auto r = efp::bind(m, [&](const int& x) -> efp::Maybe<int> { ++calls; return x + calls; });
    return calls == 1 && r && r.value() == 4 ? 0 : 1;
}
'''),
dict(id="c08-map-with-index-bound", property="C08",
  edits=[(P, "        ArrVec<InvokeResult<F, size_t, Element<Ass>...>, _minimum({CtCapacity<Ass>::value...})>,\n",
             "        ArrVec<InvokeResult<F, size_t, Element<Ass>...>, _maximum({CtCapacity<Ass>::value...})>,\n")],
  needs="map_with_index over several bounded sequences of different capacities",
  what_it_breaks="the compile-time capacity of the result is not the minimum of the arguments'",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::ArrVec<int, 3> a {1, 2};
    efp::ArrVec<int, 7> b {1, 2, 3};
    const auto r = efp::map_with_index([](size_t i, const int& x, const int& y) { return (int)i + x + y; }, a, b);
    return r.capacity() == 3 && r.size() == 2 ? 0 : 1;
}
'''),
dict(id="c09-timsort-merge-stability", property="C09",
  edits=[(T, "        if (!comp(arr[start2], arr[start])) {\n            start++;", "        if (comp(arr[start], arr[start2])) {\n            start++;")],
  needs="more than 32 elements, so that two runs are merged, with equal keys in both runs",
  what_it_breaks="sort_by is no longer stable",
  demo=r'''
#include "efp.hpp"
struct X { int k, i; };
int main() {
    efp::Vector<X> v;
    for (int i = 0; i < 70; ++i) v.push_back(X {(i * 7) % 5, i});
    efp::sort_by(v, [](const X& a, const X& b) { return a.k < b.k; });
    for (size_t i = 1; i < v.size(); ++i) {
        if (v[i].k < v[i - 1].k) return 1;
        if (v[i].k == v[i - 1].k && v[i].i < v[i - 1].i) return 1;
    }
    return 0;
}
'''),
dict(id="c18-tuple-equality-last", property="C18",
  edits=[(ME, """            return lhs.template get<0>() == rhs.template get<0>();
        }
    };
""", """            return !(lhs.template get<0>() < rhs.template get<0>());
        }
    };
""")],
  needs="two Tuples that differ only in the first component, the left one the larger",
  what_it_breaks="unequal Tuples compare equal",
  demo=r'''
#include "efp.hpp"
int main() {
    const efp::Tuple<int, double> a {2, 1.5}, b {1, 1.5};
    return (a == b) || !(a != b) || (b == a) ? 1 : 0;
}
'''),
]
