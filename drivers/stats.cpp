// Statistics of sequences of ELEM, in REAL.
#include <cmath>
#include <limits>
#include <type_traits>
namespace stats {
inline int& mode() { static int m = 0; return m; }
typedef ELEM E;
// the value of one unit: a power of two, and large for the integer types
inline int unit() {
    if (!mode()) return 0;
    if (!std::numeric_limits<E>::is_integer) return sizeof(E) == 4 ? 7 : -30;
    return sizeof(E) == 1 ? 4 : sizeof(E) == 2 ? 12 : 27;
}
inline E make(int x) { return x == 77 ? E(1) : (E)std::ldexp((double)x, unit()); }
}  // namespace stats
#define VERIF_MAKE(A, x) stats::make(x)
#include "seqs.hpp"
using namespace vf;
typedef ELEM E;
typedef REAL R;

struct Out {
    int sc = 1;
    std::vector<std::string> q, s;
    double limit = 130000;
    // v in units to the power dim, squared first if it is a root
    static bool finite(long double v) { return std::isfinite((double)v); }
    bool number(long double v, int dim, bool root, long& r) const {
        if (root) v *= v;
        v = std::ldexp(v, -stats::unit() * dim);
        if (!finite(v) || std::fabs((double)v * sc) > limit) { r = 0; return false; }
        r = std::lround((double)(v * sc));
        return true;
    }
    void put(const char* fn, R v, int dim, bool root = false, int b = 0, int adj = 0, int lag = 0) {
        long r;
        const bool ok = number(v, dim, root, r);
        q.push_back(std::string("{\"fn\":\"") + fn + "\",\"b\":" + std::to_string(b) + ",\"adj\":" + std::to_string(adj) + ",\"lag\":" + std::to_string(lag)
                    + ",\"r\":" + std::to_string(r) + ",\"sg\":" + (v < 0 ? "-1" : v > 0 ? "1" : "0") + ",\"fin\":" + (ok ? "true" : "false") + "}");
    }
    template<typename S> void seq(const char* fn, const S& v, int dim) {
        std::vector<long> rs;
        bool ok = true;
        const size_t n = efp::length(v);
        for (size_t i = 0; i < n; ++i) {
            long r;
            ok = number(efp::nth(i, v), dim, false, r) && ok;
            rs.push_back(r);
        }
        s.push_back(std::string("{\"fn\":\"") + fn + "\",\"r\":" + json_arr(rs) + ",\"fin\":" + (ok ? "true" : "false") + "}");
    }
};

static int spread(const std::vector<int>& v) {
    int lo = v[0], hi = v[0];
    for (int x : v) { lo = x < lo ? x : lo; hi = x > hi ? x : hi; }
    return hi - lo;
}
static int total(const std::vector<int>& v) { int t = 0; for (int x : v) t += x; return t; }

template<typename S> void single(const S& s, const std::vector<int>& x, Out& o, bool lng) {
    const int n = (int)x.size();
    const bool flat = spread(x) == 0;
    o.put("mean", efp::mean<R>(s), 1);
    o.put("rms", efp::rms<R>(s), 2, true);
    o.put("var", efp::variance<R>(s), 2);
    o.put("sd", efp::standard_deviation<R>(s), 2, true);
    o.seq("dc", efp::remove_dc<R>(s), 1);
    if (n > 1) {
        o.put("var", efp::variance<R, true>(s), 2, false, 1);
        o.put("sd", efp::standard_deviation<R, true>(s), 2, true, 1);
        if (!lng) {
            auto b = efp::linear_regression_with_index<R>(s);
            o.put("islope", efp::get<0>(b), 1);
            o.put("istart", efp::get<1>(b), 1);
        }
        o.seq("detrend", efp::detrend<R>(s), 1);
    }
    if (lng && total(x) != 0) return;
    for (int lag = 0; lag < n; lag += !lng ? 1 : lag < 2 ? 1 : 1 + lag / 2) {
        o.put("acov", efp::autocovariance<R, false, false>(s, lag), 2, false, 0, 0, lag);
        o.put("acov", efp::autocovariance<R, false, true>(s, lag), 2, false, 0, 1, lag);
        if (n > 1) o.put("acov", efp::autocovariance<R, true, false>(s, lag), 2, false, 1, 0, lag);
        if (n - lag > 1) o.put("acov", efp::autocovariance<R, true, true>(s, lag), 2, false, 1, 1, lag);
        if (flat) continue;
        o.put("acorr", efp::autocorrelation<R, false, false>(s, lag), 0, false, 0, 0, lag);
        o.put("acorr", efp::autocorrelation<R, false, true>(s, lag), 0, false, 0, 1, lag);
        if (n > 1) o.put("acorr", efp::autocorrelation<R, true, false>(s, lag), 0, false, 1, 0, lag);
        if (n - lag > 1) o.put("acorr", efp::autocorrelation<R, true, true>(s, lag), 0, false, 1, 1, lag);
    }
}

template<typename S, typename T> void both(const S& s, const T& t, const std::vector<int>& x, const std::vector<int>& y, Out& o) {
    const int n = (int)x.size();
    o.put("sse", efp::sse<R>(s, t), 2);
    o.put("mse", efp::mse<R>(s, t), 2);
    o.put("rmse", efp::rmse<R>(s, t), 2, true);
    if (total(y) != 0) o.put("nmean", efp::nrmse_mean<R>(s, t), 0, true);
    if (spread(y) != 0) o.put("nmm", efp::nrmse_max_min<R>(s, t), 0, true);
    o.put("cov", efp::covariance<R>(s, t), 2);
    if (n > 1) o.put("cov", efp::covariance<R, true>(s, t), 2, false, 1);
    if (spread(x) == 0) return;
    auto b = efp::linear_regression<R>(s, t);
    o.put("slope", efp::get<0>(b), 0);
    o.put("start", efp::get<1>(b), 1);
    if (spread(y) == 0) return;
    o.put("corr", efp::correlation<R>(s, t), 0, true);
    if (n > 1) o.put("corr", efp::correlation<R, true>(s, t), 0, true, 1);
}

template<typename S> std::vector<int> read_back(const S& s) {
    std::vector<int> r;
    for (size_t i = 0; i < efp::length(s); ++i) r.push_back((int)std::ldexp((double)efp::nth(i, s), -stats::unit()));
    return r;
}

// data on a line: x(i) = a + b i
static void line(const Op& o) {
    stats::mode() = 0;
    const int n = o.at(0), a = o.at(1), b = o.at(2);
    if (std::numeric_limits<E>::is_integer && sizeof(E) < 4) return;
    if (sizeof(R) == 4 && n > 2000) return;
    efp::Vector<E> s;
    for (int i = 0; i < n; ++i) s.push_back(E(a + b * i));
    Out out;
    out.sc = 8;
    out.limit = 1e8;
    double worst = 0;
    std::string st = guarded([&] {
        auto t = efp::linear_regression_with_index<R>(s);
        out.put("islope", efp::get<0>(t), 0);
        out.put("istart", efp::get<1>(t), 0);
        out.put("mean", efp::mean<R>(s), 0);
        auto u = efp::linear_regression<R>(s, s);
        out.put("slope", efp::get<0>(u), 0);
        out.put("start", efp::get<1>(u), 0);
        auto d = efp::detrend<R>(s);
        if (efp::length(d) != (size_t)n) worst = 1e6;
        for (size_t i = 0; i < efp::length(d); ++i) { double x = std::fabs((double)d[i]); if (!(x <= worst)) worst = x > 1e6 || x != x ? 1e6 : x; }
    });
    Ev("line").str("st", st).num("n", n).num("a", a).num("b", b).num("sc", out.sc).raw("q", json_list(out.q)).num("worst", std::lround(worst * 8));
}

static void run(const Op& o) {
    if (o.name == "line") return line(o);
    stats::mode() = o.at(0);
    std::vector<int> x, y, xa, ya;
    Out out;
    out.sc = o.name == "long" ? 64 : 1024;
    std::string st;
    if (o.name == "two") {
        const int n = ((int)o.a.size() - 4) / 2;
        x.assign(o.a.begin() + 4, o.a.begin() + 4 + n);
        y.assign(o.a.begin() + 4 + n, o.a.end());
        const bool swap = o.at(3) == 1;
        with2<E>(SeqSpec(o.at(1), o.at(2), swap ? y : x), [&](auto& s) {
            mk_vector<E>(SeqSpec(7, 0, swap ? x : y), [&](auto& t) {
                st = guarded([&] { if (swap) both(t, s, x, y, out); else both(s, t, x, y, out); });
                xa = swap ? read_back(t) : read_back(s);
                ya = swap ? read_back(s) : read_back(t);
            });
        });
    } else {
        const bool lng = o.name == "long";
        SeqSpec q(o.at(1), lng ? 0 : o.at(2), {});
        if (lng) {
            const int n = o.at(2), p = o.at(3);
            for (int i = 0; i < n; ++i)
                x.push_back(p == 0 ? i % 3 - 1 : p == 1 ? (i < n / 2 ? -2 : 2) : p == 2 ? (i * i) % 5 - 2 : p == 3 ? (i == n - 1 ? 2 : 0) : p == 4 ? (i % 2 ? 1 : -1) : 1);
        } else {
            q.rot = o.at(3);
            x.assign(o.a.begin() + 4, o.a.end());
        }
        q.v = x;
        with1<E>(q, [&](auto& s) {
            st = guarded([&] { single(s, x, out, lng); });
            xa = read_back(s);
        });
    }
    Ev("st").str("st", st).seq("xs", x).seq("ys", y).raw("after", "[" + json_arr(xa) + "," + json_arr(ya) + "]").num("sc", out.sc).raw("q", json_list(out.q)).raw("s", json_list(out.s));
}

int main() {
    for_each_script([](int k, const Script& s) {
        Ev("case").num("k", k);
        Case one;
        for (const Op& o : s.ops) run(o);
    });
}
