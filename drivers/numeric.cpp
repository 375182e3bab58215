// Reductions and scalar helpers, for every element type and sequence kind.
#include <cmath>
#include <limits>
#include <type_traits>
namespace numeric {
inline int& mode() { static int m = 0; return m; }
template<typename A> using Lim = std::numeric_limits<A>;
template<typename A> int unit() {
    if (mode() != 1) return 0;
    if (!Lim<A>::is_integer) return sizeof(A) == 4 ? -9 : -40;
    return sizeof(A) == 1 ? 3 : sizeof(A) == 2 ? 10 : sizeof(A) == 4 ? 26 : Lim<A>::is_signed ? 12 : 58;
}
// the extremes: ranks -3..3 (unsigned: 0..3)
template<typename A> A ranked(int r) {
    if (r > 3) r = 3;
    if (r < -3) r = -3;
    if (!Lim<A>::is_integer) {
        const A t[] = {A(-Lim<A>::max()), A(-1), A(-Lim<A>::denorm_min()), A(0), Lim<A>::denorm_min(), A(1), Lim<A>::max()};
        return t[r + 3];
    }
    if (!Lim<A>::is_signed) {
        const A t[] = {A(0), A(1), A(Lim<A>::max() - 1), Lim<A>::max()};
        return t[r < 0 ? 0 : r];
    }
    const A t[] = {Lim<A>::lowest(), A(Lim<A>::lowest() + 1), A(-1), A(0), A(1), A(Lim<A>::max() - 1), Lim<A>::max()};
    return t[r + 3];
}
template<typename A> typename std::enable_if<Lim<A>::is_integer, A>::type scale(int x, int e) {
    A r = A(x);
    for (int i = 0; i < e; ++i) r = A(r * 2);
    return r;
}
template<typename A> typename std::enable_if<!Lim<A>::is_integer, A>::type scale(int x, int e) { return std::ldexp(A(x), e); }
template<typename A> A make(int x) {
    if (mode() == 2) return ranked<A>(x);
    if (x == 77) return A(1);
    return scale<A>(x, unit<A>());
}
const int odd = -77777777;
// back to a number of units (or a rank)
template<typename A> int read(A x, int e) {
    if (mode() == 2) {
        for (int r = Lim<A>::is_signed ? -3 : 0; r <= 3; ++r) if (ranked<A>(r) == x) return r;
        return odd;
    }
    for (int k = -5000; k <= 5000; ++k)
        if ((k >= 0 || Lim<A>::is_signed) && scale<A>(k, e) == x) {
            // small integer types wrap: only the first candidate within the type counts
            if (Lim<A>::is_integer) {
                const long double big = std::ldexp((long double)k, e);
                if (big > (long double)Lim<A>::max() || big < (long double)Lim<A>::lowest()) continue;
            }
            return k;
        }
    return odd;
}
}  // namespace numeric
#define VERIF_MAKE(A, x) numeric::make<typename std::remove_const<A>::type>(x)
#include "seqs.hpp"
using namespace vf;

struct Out {
    std::vector<std::string> r;
    void put(const char* fn, long long v) { r.push_back(std::string("[\"") + fn + "\"," + std::to_string(v) + "]"); }
    std::string json() const { return json_list(r); }
};

template<typename A> bool product_fits(const std::vector<int>& m) {
    int bits = 1 + numeric::unit<A>() * (int)m.size();
    for (int x : m) for (int y = x < 0 ? -x : x; y; y /= 2) ++bits;
    return !numeric::Lim<A>::is_integer || bits <= numeric::Lim<A>::digits;
}

template<typename A> void reduce(const Op& o) {
    numeric::mode() = o.at(0);
    const SeqSpec q(Op("x " + [&] { std::string t; for (size_t i = 1; i < o.a.size(); ++i) t += std::to_string(o.a[i]) + " "; return t; }()));
    const int e = numeric::unit<A>(), n = (int)q.v.size();
    Out out;
    std::vector<int> after;
    std::string st;
    with1<A>(q, [&](auto& s) {
        st = guarded([&] {
            if (numeric::mode() != 2) {
                out.put("sum", numeric::read<A>(efp::sum(s), e));
                if (product_fits<A>(q.v)) out.put("product", numeric::read<A>(efp::product(s), e * n));
            }
            if (n) {
                out.put("max", numeric::read<A>(efp::max_elem(s), e));
                out.put("min", numeric::read<A>(efp::min_elem(s), e));
                if (numeric::mode() != 2) out.put("maxmin", numeric::read<A>(efp::max_min(s), e));
            }
        });
        for (size_t i = 0; i < efp::length(s); ++i) after.push_back(numeric::read<A>(efp::nth(i, s), e));
    });
    Ev("red").str("st", st).seq("m", q.v).seq("after", after).num("kd", q.kind).raw("r", out.json());
}

template<typename A> typename std::enable_if<numeric::Lim<A>::is_integer>::type whole(const Op& o, Out& out) {
    const A a = numeric::make<A>(o.at(1)), b = numeric::make<A>(o.at(2));
    if (b == 0) return;
    out.put("div", numeric::read<A>(efp::op_div(a, b), 0));
    out.put("mod", numeric::read<A>(efp::op_mod(a, b), 0));
}
template<typename A> typename std::enable_if<!numeric::Lim<A>::is_integer>::type whole(const Op& o, Out& out) {
    const A u = A(std::numeric_limits<A>::epsilon() / 2);
    out.put("approx", (long long)efp::is_approx(A(o.at(1) * u), A(o.at(2) * u)));
    const double v = std::numeric_limits<double>::epsilon() / 2;
    out.put("approx", (long long)efp::is_approx((float)(o.at(1) * v), o.at(2) * v));
    out.put("approx", (long long)efp::is_approx(o.at(1) * v, (float)(o.at(2) * v)));
}

template<typename A> void scalar(const Op& o) {
    numeric::mode() = o.at(0);
    const int m = o.at(0), e = numeric::unit<A>();
    const A a = numeric::make<A>(o.at(1)), b = numeric::make<A>(o.at(2)), c = numeric::make<A>(o.at(3));
    const bool si = numeric::Lim<A>::is_signed, wholes = numeric::Lim<A>::is_integer;
    Out out;
    std::string st = guarded([&] {
        out.put("min", numeric::read<A>(efp::min(a, b), e));
        out.put("max", numeric::read<A>(efp::max(a, b), e));
        out.put("eq", efp::op_eq(a, b));
        out.put("neq", efp::op_neq(a, b));
        out.put("lt", efp::op_lt(a, b));
        out.put("gt", efp::op_gt(a, b));
        out.put("leq", efp::op_leq(a, b));
        out.put("geq", efp::op_geq(a, b));
        if (o.at(1) <= o.at(2)) {
            out.put("clamp", numeric::read<A>((A)efp::clamp(a, b, c), e));
            if (m == 0 && si) {
                const int lo = o.at(1), hi = o.at(2);
                out.put("clampi", numeric::read<A>((A)efp::clamp(lo, hi, c), e));
                out.put("clampi", numeric::read<A>((A)efp::clamp(a, hi, c), e));
            }
        }
        const bool mild = m != 2 || !wholes || (o.at(1) >= -1 && o.at(1) <= 1);
        if (mild) out.put("abs", numeric::read<A>(efp::abs(a), e));
        if (mild && si) out.put("neg", numeric::read<A>(efp::op_neg(a), e));
        if (m != 2) {
            out.put("add", numeric::read<A>(efp::op_add(a, b), e));
            if (si || o.at(1) >= o.at(2)) out.put("sub", numeric::read<A>(efp::op_sub(a, b), e));
            if (product_fits<A>({o.at(1), o.at(2)})) out.put("mul", numeric::read<A>(efp::op_mul(a, b), 2 * e));
            if (product_fits<A>({o.at(1), o.at(1)})) out.put("square", numeric::read<A>(efp::square(a), 2 * e));
        }
        if (m == 0) {
            whole<A>(o, out);
            out.put("not", efp::op_not(a != 0));
            out.put("and", efp::op_and(a != 0, b != 0));
            out.put("or", efp::op_or(a != 0, b != 0));
        }
    });
    Ev("sc").str("st", st).seq("m", std::vector<int>(o.a.begin() + 1, o.a.end())).raw("r", out.json());
}

template<typename A> void go(const Op& o) {
    if (o.name == "red") reduce<A>(o);
    else if (o.name == "sc") scalar<A>(o);
    else bad("op");
}

int main() {
    for_each_script([](int k, const Script& s) {
        Ev("case").num("k", k);
        Case one;
        const std::string& t = s.head.at(0);
        for (const Op& o : s.ops) {
#define TYPE(n, A) if (t == n) { go<A>(o); continue; }
            TYPE("i8", signed char) TYPE("u8", unsigned char) TYPE("i16", short) TYPE("i32", int) TYPE("u32", unsigned)
            TYPE("i64", long long) TYPE("u64", unsigned long long) TYPE("f", float) TYPE("d", double)
            bad("type");
        }
    });
}
