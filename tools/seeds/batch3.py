S = "include/efp/sequence.hpp"
C = "include/efp/cyclic.hpp"
T = "include/efp/sort.hpp"
ME = "include/efp/meta.hpp"
CU = "include/efp/c_utility.hpp"
N = "include/efp/numeric.hpp"
FF = "include/efp/fmt/format.h"
BUGS = [
dict(id="c01-equality-bytes", property="C01",
  edits=[(S, """        bool operator==(const VectorBase& other) const {
            if (_size != other._size) {
                return false;
            }

            for""", """        bool operator==(const VectorBase& other) const {
            if (_size != other._size) {
                return false;
            }

            if (std::is_trivially_copyable<Element>::value && _size != 0) {
                return __builtin_memcmp((const void*)_data, (const void*)other._data, _size * sizeof(Element)) == 0;
            }

            for""")],
  needs="trivially copyable elements that are equal without having the same bytes (0.0 and -0.0, padding)",
  what_it_breaks="Vectors with equal elements compare unequal",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vector<double> a {1.0, 0.0}, b {1.0, -0.0}, c {1.0, 2.0};
    return a == b && !(a == c) ? 0 : 1;
}
'''),
dict(id="c03-vcb-move-mirror", property="C03",
  edits=[(C, """            new (_buffer + i) A(efp::move(other._buffer[i]));
        }

        _data = _buffer + (other._data - other._buffer);
    }""", """            new (_buffer + i) A(efp::move(other._buffer[i % ct_size]));
        }

        _data = _buffer + (other._data - other._buffer);
    }""")],
  needs="moving a Vcb of heap-owning elements and reading the moved-to buffer where its window lies in the mirror",
  what_it_breaks="the mirrored half of the moved-to buffer holds moved-from elements",
  demo=r'''
#include "efp.hpp"
#include <string>
int main() {
    efp::Vcb<std::string, 3> a;
    const std::string big(40, 'x');
    for (int i = 0; i < 4; ++i) a.push_back(big + char('0' + i));
    efp::Vcb<std::string, 3> b(efp::move(a));
    for (int i = 0; i < 3; ++i)
        if (b[i] != big + char('1' + i)) return 1;
    return 0;
}
'''),
dict(id="c09-tim-early", property="C09",
  edits=[(T, """    if (!comp(arr[start2], arr[mid]))
        return;
""", """    if (!comp(arr[start2], arr[mid]))
        return;

    // Nothing to interleave when the whole right part goes last
    if (end - start > 100 && !comp(arr[end], arr[mid]))
        return;
""")],
  needs="more than 100 elements and a right run whose last element is not below the last of the left run",
  what_it_breaks="the runs are not merged, so the result is not sorted",
  demo=r'''
#include "efp.hpp"
int main() {
    efp::Vector<int> v;
    for (int i = 0; i < 300; ++i) v.push_back((i * 7919) % 301);
    efp::sort(v);
    for (int i = 1; i < 300; ++i)
        if (v[i] < v[i - 1]) return 1;
    return 0;
}
'''),
dict(id="c16-tie", property="C16",
  edits=[(FF, "if (result > 0 || (result == 0 && (digit % 2) != 0)) {", "if (result >= 0) {")],
  needs="a value exactly half way between two texts of the requested precision, after an even digit",
  what_it_breaks="the text is not the nearest one with an even last digit, which it is everywhere else",
  demo=r'''
#include "efp.hpp"
int main() {
    const auto a = efp::format("{:.20e}", 1.0);
    // k / 2^26 is a tie at one digit before its last, 5; the digit before that is even for half of the k
    char want[200];
    for (int k = 67108865; k < 67108965; k += 2) {
        const double x = k / 67108864.0;
        snprintf(want, sizeof want, "%.25e", x);
        if (!(efp::format("{:.25e}", x) == want)) return 1;
    }
    return a == "1.00000000000000000000e+00" ? 0 : 1;
}
'''),
dict(id="c17-approx-edge", property="C17",
  edits=[(N, "<= NumericLimits<MorePrecise>::epsilon()", "< NumericLimits<MorePrecise>::epsilon()")],
  needs="equal values of an integral type, whose epsilon is zero, or a difference of exactly one epsilon",
  what_it_breaks="is_approx says that equal integers differ",
  demo=r'''
#include "efp.hpp"
int main() { return efp::is_approx(7, 7) && efp::is_approx(1.0, 1.0) && !efp::is_approx(1, 2) ? 0 : 1; }
'''),
dict(id="c22-assign-capacity", property="C22",
  edits=[(S, """        VectorViewBase& operator=(const VectorViewBase& other) {
            if (this != &other) {
                _data = other._data;
                _size = other._size;
                _capacity = other._capacity;""", """        VectorViewBase& operator=(const VectorViewBase& other) {
            if (this != &other) {
                _data = other._data;
                _size = other._size;""")],
  needs="assigning a view of another length and then comparing it with the view it was assigned from",
  what_it_breaks="equal views compare unequal",
  demo=r'''
#include "efp.hpp"
int main() {
    const int x[5] = {1, 2, 3, 4, 5};
    efp::VectorView<int> a(x, 5), b(x + 1, 2);
    b = a;
    return b.size() == 5 && a == b ? 0 : 1;
}
'''),
dict(id="c23-bind-first", property="C23",
  edits=[(CU, "    LambdaPointer<F>::inner_ptr = (void*)&f;", """    if (LambdaPointer<F>::inner_ptr == nullptr)
        LambdaPointer<F>::inner_ptr = (void*)&f;""")],
  needs="func_ptr applied to a second object of a type",
  what_it_breaks="the pointer calls the first object of the type ever bound",
  demo=r'''
#include "efp.hpp"
struct Add { int n; int operator()(int x) { return x + n; } };
int main() {
    Add a {1}, b {10};
    int (*p)(int) = efp::func_ptr(a);
    if (p(5) != 6) return 1;
    int (*q)(int) = efp::func_ptr(b);
    return q(5) == 15 ? 0 : 1;
}
'''),
dict(id="c23-foldl-pairs", property="C23",
  edits=[(ME, "        return begin == end ? a : foldl(f, f(a, *begin), begin + 1, end);",
  """        // two elements at a time, to halve the depth of the recursion
        return begin == end ? a
            : begin + 1 == end ? f(a, *begin)
                               : foldl(f, f(a, f(*begin, *(begin + 1))), begin + 2, end);""")],
  needs="a fold with a function that is not associative, over two elements or more",
  what_it_breaks="the fold is no longer from the left",
  demo=r'''
#include "efp.hpp"
constexpr int step(const int& a, const int& b) { return 3 * a + b; }
int main() { return efp::_foldl(step, 1, {2, 3, 4}) == 1 * 27 + 2 * 9 + 3 * 3 + 4 ? 0 : 1; }
'''),
]
