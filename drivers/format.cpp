// Replays calls of format, print and println.  Script: arguments|format string
#include "common.hpp"
#include <cmath>
#include <fcntl.h>
#include <unistd.h>
using namespace vf;

typedef std::string Str;
static Str plain(const Str& t) {
    Str r;
    for (char c : t) {
        if (c == '~') r += "\xc3\xa9";
        else if (c == '`') r += "\xe2\x82\xac";
        else if (c == '@') r += "\xed\x95\x9c";
        else if (c == '_') r += "\xf0\x9f\x98\x80";
        else r += c;
    }
    return r;
}
static Str codes(const char* p, size_t n) {
    std::vector<int> v;
    for (size_t i = 0; i < n; ++i) v.push_back((unsigned char)p[i]);
    return json_arr(v);
}

// ---- what an argument is, as the specification sees it ----
template<typename T> struct Unsigned { static const bool value = T(-1) > T(0); };
template<typename T>
Str show_int(T x) {
    typedef unsigned __int128 U;
    const bool neg = !(x >= 0);
    U m = neg ? U(0) - U(x) : U(x);
    std::vector<int> d;
    do { d.insert(d.begin(), int(m % 16)); m /= 16; } while (m);
    if (d.size() % 2) d.insert(d.begin(), 0);
    return Str("{\"t\":\"i\",\"neg\":") + (neg ? "true" : "false") + ",\"un\":" + (Unsigned<T>::value ? "true" : "false") + ",\"mag\":" + json_arr(d) + "}";
}
static Str show(bool x) { return Str("{\"t\":\"b\",\"v\":") + (x ? "1}" : "0}"); }
static Str show(char x) { return "{\"t\":\"c\",\"v\":" + std::to_string((int)(unsigned char)x) + "}"; }
static Str show(const char* p) { return "{\"t\":\"s\",\"v\":" + codes(p, strlen(p)) + "}"; }
static Str show(const efp::String& s) { return "{\"t\":\"s\",\"v\":" + codes(s.data(), s.size()) + "}"; }
static Str show(const efp::StringView& s) { return "{\"t\":\"s\",\"v\":" + codes(s.data(), s.size()) + "}"; }
#define SHOW_INT(T) static Str show(T x) { return show_int(x); }
SHOW_INT(signed char) SHOW_INT(unsigned char) SHOW_INT(short) SHOW_INT(unsigned short) SHOW_INT(int) SHOW_INT(unsigned)
SHOW_INT(long) SHOW_INT(unsigned long) SHOW_INT(long long) SHOW_INT(unsigned long long) SHOW_INT(__int128) SHOW_INT(unsigned __int128)
template<typename T>
Str show_float(T x) {
    typedef unsigned __int128 U;
    const bool neg = std::signbit(x);
    if (x != x || x - x != x - x) {
        const Str name = x != x ? "nan" : "inf";
        return Str("{\"t\":\"n\",\"neg\":") + (neg ? "true" : "false") + ",\"v\":" + codes(name.data(), name.size()) + "}";
    }
    int e = 0;
    const T f = std::frexp(neg ? -x : x, &e);         // f * 2^e, f in [1/2, 1)
    U m = (U)std::ldexp(f, 64);
    int sh = 64 - e;
    if (m == 0) sh = 0;
    while (m != 0 && m % 2 == 0) { m /= 2; --sh; }
    std::vector<int> d;
    do { d.insert(d.begin(), int(m % 16)); m /= 16; } while (m);
    return Str("{\"t\":\"f\",\"neg\":") + (neg ? "true" : "false") + ",\"sh\":" + std::to_string(sh) + ",\"mag\":" + json_arr(d) + "}";
}
static Str show(double x) { return show_float(x); }
static Str show(float x) { return show_float(x); }
static Str show(long double x) { return show_float(x); }
template<typename T> Str show_seq(const std::vector<T>& v) {
    std::vector<Str> r;
    for (size_t i = 0; i < v.size(); ++i) r.push_back(show((T)v[i]));
    return "{\"t\":\"q\",\"v\":" + json_list(r) + "}";
}

// ---- one call ----
static bool printing = false;
static int scratch = -1;
static Str printed() {
    fflush(stdout);
    Str r;
    char b[8192];
    lseek(scratch, 0, SEEK_SET);
    ssize_t n;
    while ((n = read(scratch, b, sizeof b)) > 0) r.append(b, n);
    lseek(scratch, 0, SEEK_SET);
    if (ftruncate(scratch, 0)) exit(4);
    return r;
}

template<typename F>
void call(const char* how, const Str& f, const Str& args, const F& go) {
    Str st, text;
    try { text = go(); st = "ok"; }
    catch (const efp_fmt::format_error&) { st = "error"; }
    catch (...) { st = "other"; }
    if (how[0] == 'p') { Str t = printed(); text += t; }
    Ev e("fmt");
    e.str("how", how).str("st", st).raw("f", codes(f.data(), f.size())).raw("a", args).raw("out", codes(text.data(), text.size()));
}

template<typename... A>
void go(const Str& f, const Str& args, const A&... a) {
    call("format", f, args, [&] {
        efp::String r = efp::format(efp_fmt::runtime(f.c_str()), a...);
        if (r.c_str()[r.size()] != 0) return Str("unterminated");
        return Str(r.data(), r.size());
    });
    if (!printing) return;
    call("print", f, args, [&] { efp::print(efp_fmt::runtime(f.c_str()), a...); return Str(); });
    call("println", f, args, [&] { efp::println(efp_fmt::runtime(f.c_str()), a...); return Str(); });
}

// ---- arguments of scripts ----
struct Arg {
    Str kind, text;
    std::vector<int> ints() const {
        std::istringstream is(text);
        std::vector<int> v;
        int x;
        while (is >> x) v.push_back(x);
        return v;
    }
    __int128 wide() const {
        unsigned __int128 m = 0;
        for (char c : text) if (c != '-') m = m * 10 + (c - '0');
        return text[0] == '-' ? (__int128)(0 - m) : (__int128)m;
    }
};
[[noreturn]] static void bad(const char* why) { fprintf(stderr, "bad script: %s\n", why); exit(3); }

template<typename T, typename F> bool number(const Arg& a, const char* k, const F& f) {
    if (a.kind != k) return false;
    const T x = (T)a.wide();
    f(x, show(x));
    return true;
}
template<typename T, typename F> bool floating(const Arg& a, const char* k, const F& f) {
    if (a.kind == Str(k) + "x") {
        const bool neg = a.text[0] == '-';
        T x = a.text.substr(neg) == "inf" ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN();
        x = std::copysign(x, neg ? T(-1) : T(1));
        f(x, show(x));
        return true;
    }
    if (a.kind != k) return false;
    const size_t p = a.text.find(' ');
    const bool neg = a.text[0] == '-';
    T x = std::ldexp((T)strtoll(a.text.c_str() + neg, nullptr, 10), -atoi(a.text.c_str() + p));
    if (neg) x = -x;
    f(x, show(x));
    return true;
}
// eighths
template<typename T, typename F> bool eighths(const Arg& a, const char* k, const F& f) {
    if (a.kind != k) return false;
    efp::Vector<T> x;
    std::vector<T> m;
    for (int i : a.ints()) { x.push_back((T)i / 8); m.push_back((T)i / 8); }
    f(x, show_seq(m));
    return true;
}
template<typename F> bool floats(const Arg& a, const F& f) {
    if (a.kind == "fa") {
        efp::ArrVec<double, 6> x;
        std::vector<double> m;
        for (int i : a.ints()) { x.push_back(i / 8.0); m.push_back(i / 8.0); }
        f(x, show_seq(m));
        return true;
    }
    return floating<double>(a, "f", f) || floating<float>(a, "g", f) || floating<long double>(a, "h", f) || eighths<double>(a, "fv", f) || eighths<float>(a, "gv", f);
}
template<typename F> bool text(const Arg& a, const F& f) {
    const Str t = plain(a.text);
    if (a.kind == "s") { const char* p = t.c_str(); f(p, show(p)); return true; }
    if (a.kind == "S") { efp::String x(t.c_str()); f(x, show(x)); return true; }
    if (a.kind == "V") { Str roomy = "<" + t + ">"; efp::StringView x(roomy.c_str() + 1, t.size()); f(x, show(x)); return true; }
    if (a.kind == "rs") {
        efp::String x;
        for (int i = 0; i < a.ints()[0]; ++i) x.push_back(char('a' + i % 26));
        f(x, show(x));
        return true;
    }
    return false;
}
template<size_t n, typename F> bool fixed(const Arg& a, const std::vector<int>& v, const F& f) {
    if (v.size() != n) return false;
    if (a.kind == "qa") { efp::Array<int, n> x; for (size_t i = 0; i < n; ++i) x[i] = v[i]; f(x, show_seq(v)); }
    else if (a.kind == "ca") { efp::Array<char, n> x; for (size_t i = 0; i < n; ++i) x[i] = (char)v[i]; f(x, show_seq(std::vector<char>(v.begin(), v.end()))); }
    else {
        efp::Vcb<int, n> x;
        for (int k = 0; k < 2; ++k) x.push_back(-k);   // the window has moved on before the values arrive
        for (size_t i = 0; i < n; ++i) x.push_back(v[i]);
        f(x, show_seq(v));
    }
    return true;
}
template<typename T, typename F> bool heap(const Arg& a, const char* k, const F& f) {
    if (a.kind != k) return false;
    efp::Vector<T> x;
    std::vector<T> m;
    for (int i : a.ints()) { x.push_back((T)i); m.push_back((T)i); }
    f(x, show_seq(m));
    return true;
}
template<typename F> bool sequence(const Arg& a, const F& f) {
    const std::vector<int> v = a.ints();
    if (a.kind == "qa" || a.kind == "ca" || a.kind == "qb")
        return fixed<1>(a, v, f) || fixed<2>(a, v, f) || fixed<3>(a, v, f) || fixed<4>(a, v, f) || fixed<6>(a, v, f) || v.empty();
    if (a.kind == "qr") { efp::ArrVec<int, 6> x; for (int i : v) x.push_back(i); f(x, show_seq(v)); return true; }
    if (a.kind == "qq") {
        efp::Vcq<int, 6> x;
        for (int i = 0; i < 4; ++i) x.push_back(-i);
        for (int i = 0; i < 4; ++i) x.pop_front();
        for (int i : v) x.push_back(i);
        f(x, show_seq(v));
        return true;
    }
    if (a.kind == "cv") { efp::Vector<char> x; for (int i : v) x.push_back((char)i); f(x, show(x)); return true; }   // a String
    if (a.kind == "pv") {
        std::vector<Str> keep;
        for (int i : v) keep.push_back("t" + std::to_string(i));
        efp::Vector<const char*> x;
        std::vector<const char*> m;
        for (const Str& s : keep) { x.push_back(s.c_str()); m.push_back(s.c_str()); }
        f(x, show_seq(m));
        return true;
    }
    return heap<int>(a, "qv", f) || heap<bool>(a, "bv", f) || heap<long long>(a, "lv", f)
        || heap<signed char>(a, "dv", f) || heap<unsigned short>(a, "wv", f);
}
template<typename F> bool simple(const Arg& a, const F& f) {
    if (a.kind == "b") { bool x = a.text == "1"; f(x, show(x)); return true; }
    if (a.kind == "c") { char x = (char)a.ints()[0]; f(x, show(x)); return true; }
    return number<int>(a, "i32", f) || number<unsigned long long>(a, "u64", f);
}
template<typename F> void any(const Arg& a, const F& f) {
    if (!(simple(a, f) || floats(a, f) || text(a, f) || sequence(a, f) || number<signed char>(a, "i8", f) || number<unsigned char>(a, "u8", f) || number<short>(a, "i16", f)
          || number<unsigned short>(a, "u16", f) || number<unsigned>(a, "u32", f) || number<long long>(a, "i64", f) || number<long>(a, "il", f)
          || number<unsigned long>(a, "ul", f) || number<__int128>(a, "i128", f) || number<unsigned __int128>(a, "u128", f)))
        bad("argument");
}
template<typename F> void first(const Arg& a, const F& f) {
    if (!(number<int>(a, "i32", f) || floating<double>(a, "f", f) || floating<float>(a, "g", f) || text(a, f) || heap<int>(a, "qv", f) || number<long long>(a, "i64", f) || number<unsigned char>(a, "u8", f))) bad("first");
}
template<typename F> void second(const Arg& a, const F& f) {
    if (simple(a, f)) return;
    if (a.kind != "s") bad("second");
    const Str t = plain(a.text);
    const char* p = t.c_str();
    f(p, show(p));
}

struct One {
    const Str& f;
    template<typename X> void operator()(const X& x, const Str& s) const { go(f, "[" + s + "]", x); }
};
template<typename X> struct Three {
    const Str& f; const Str& sa; const X& x; const Arg& c;
    template<typename Y> void operator()(const Y& y, const Str& sb) const {
        if (c.kind != "i32") bad("third");
        const int z = (int)c.wide();
        go(f, "[" + sa + "," + sb + "," + show(z) + "]", x, y, z);
    }
};
template<typename X> struct Two {
    const Str& f; const Str& sa; const X& x;
    template<typename Y> void operator()(const Y& y, const Str& sb) const { go(f, "[" + sa + "," + sb + "]", x, y); }
};
struct Many {
    const Str& f; const std::vector<Arg>& as;
    template<typename X> void operator()(const X& x, const Str& sa) const {
        if (as.size() == 2) second(as[1], Two<X> {f, sa, x});
        else second(as[1], Three<X> {f, sa, x, as[2]});
    }
};

int main(int argc, char**) {
    printing = argc > 1;
    out();
    if (printing) {
        char t[] = "printXXXXXX";
        scratch = mkstemp(t);
        if (scratch < 0) return 4;
        unlink(t);
        fflush(stdout);
        if (dup2(scratch, 1) < 0) return 4;
    }
    Str line;
    int k = 0;
    while (std::getline(std::cin, line)) {
        size_t p = line.find('|');
        if (p == Str::npos) bad("no format");
        std::vector<Arg> as;
        if (p) for (const Str& t : split(line.substr(0, p), ',')) { size_t q = t.find(':'); as.push_back(Arg {t.substr(0, q), t.substr(q + 1)}); }
        const Str f = plain(line.substr(p + 1));
        Ev("case").num("k", k++);
        if (as.empty()) go(f, "[]");
        else if (as.size() == 1) any(as[0], One {f});
        else first(as[0], Many {f, as});
        fprintf(out(), "{\"op\":\"end\"}\n");
    }
}
