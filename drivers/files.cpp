// Replays scripts on File, in a scratch directory.  Linked with fopen and fclose wrapped, to see every handle.
#include "common.hpp"
#include <fcntl.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace vf;

extern "C" {
FILE* __real_fopen(const char*, const char*);
int __real_fclose(FILE*);
}
static std::set<FILE*>& handles() { static std::set<FILE*> s; return s; }
static bool watching = false;
static int bad_closes = 0;
extern "C" FILE* __wrap_fopen(const char* p, const char* m) {
    FILE* f = __real_fopen(p, m);
    if (watching && f) handles().insert(f);
    return f;
}
extern "C" int __wrap_fclose(FILE* f) {
    if (watching) {
        if (!handles().erase(f)) { ++bad_closes; return EOF; }
    }
    return __real_fclose(f);
}

static const char* kModes[] = {"r", "w", "a", "r+", "w+", "a+", "rb", "wb", "ab", "r+b", "w+b", "a+b", "rb+", "wb+", "ab+", "wx", "q"};
static std::string dir;
static std::string path(int p) { return p == 9 ? "/dev/full" : p == 8 ? dir + "/d" : dir + "/f" + std::to_string(p); }

static int open_fds() {
    int n = 0;
    for (int fd = 0; fd < 200; ++fd) if (fcntl(fd, F_GETFD) != -1) ++n;
    return n;
}

static std::string disk(int p) {
    int fd = ::open(path(p).c_str(), O_RDONLY);
    if (fd < 0) return "[-1]";
    std::vector<int> v;
    unsigned char b[4096];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) for (ssize_t i = 0; i < n; ++i) v.push_back(b[i]);
    ::close(fd);
    return json_arr(v);
}

static std::string text(const efp::String& s) {
    std::vector<int> v;
    for (size_t i = 0; i < s.size(); ++i) v.push_back((unsigned char)s[i]);
    return json_arr(v);
}

struct Run {
    Own<efp::File> f[2];
    int base = 0;

    void apply(const Op& o, int& r, std::string& out) {
        const int i = o.at(0), x = o.at(1), y = o.at(2);
        const std::string& nm = o.name;
        if (nm == "open" || nm == "opena" || nm == "opens") {
            auto m = nm == "opens" ? efp::File::open(efp::String(path(x).c_str()), kModes[y - 1]) : efp::File::open(path(x).c_str(), kModes[y - 1]);
            r = m ? 1 : 0;
            if (m) {
                if (nm == "opena") *f[i] = m.move();
                else f[i].reset(fresh<efp::File>(m.move()));
            }
            return;
        }
        if (nm == "move") { f[i].reset(fresh<efp::File>(efp::move(*f[x]))); return; }
        if (nm == "massign") { if (&(*f[i] = efp::move(*f[x])) != f[i].get()) r = -9; return; }
        if (nm == "destroy") { f[i].reset(); return; }
        efp::File& me = *f[i];
        if (nm == "close") { r = me.close() ? 1 : 0; return; }
        if (nm == "write" || nm == "writes" || nm == "writec" || nm == "bulk" || nm == "writehuge") {
            size_t n = o.a.size() - 1;
            if (nm == "bulk") n = x;
            if (nm == "writehuge") n = 300000;
            const bool term = nm == "writec";
            char* p = (char*)malloc(n + (term ? 1 : 0) + (n || term ? 0 : 1));
            struct F { char* p; ~F() { free(p); } } guard {p};
            for (size_t k = 0; k < n; ++k) p[k] = nm == "bulk" ? (char)y : nm == "writehuge" ? 'x' : (char)o.a[k + 1];
            if (term) p[n] = 0;
            if (nm == "writes") { efp::String s(static_cast<const char*>(p), n); r = me.write(s) ? 1 : 0; }
            else if (term) r = me.write(static_cast<const char*>(p)) ? 1 : 0;
            else r = me.write(static_cast<const char*>(p), n) ? 1 : 0;
            return;
        }
        if (nm == "line") {
            efp::Maybe<efp::String> m = me.read_line();
            r = m ? 1 : 0;
            if (m) out = text(m.value());
            return;
        }
        if (nm == "lines") {
            efp::Vector<efp::String> v = me.read_lines();
            std::vector<std::string> t;
            for (size_t k = 0; k < v.size(); ++k) t.push_back(text(v[k]));
            r = (int)v.size();
            out = json_list(t);
            return;
        }
        if (nm == "flush") { r = me.flush(); return; }
        if (nm == "seek") { r = me.seek(x) ? 1 : 0; return; }
        if (nm == "tell") { r = (int)me.tell(); return; }
        fprintf(stderr, "bad op %s\n", nm.c_str());
        exit(3);
    }

    void obs(Ev& e) {
        watching = false;
        std::vector<std::string> d;
        for (int p = 1; p <= 2; ++p) d.push_back(disk(p));
        const int fds = open_fds() - base;
        // descriptors and streams must agree; report what is off
        e.num("fds", fds == (int)handles().size() ? fds : 1000 + fds).num("bad", bad_closes).raw("disk", json_list(d));
        watching = true;
    }

    void run(int k, const Script& s) {
        for (int p = 1; p <= 2; ++p) unlink(path(p).c_str());
        handles().clear();
        bad_closes = 0;
        Ev("case").num("k", k);
        Case one;
        base = open_fds();
        watching = true;
        for (const Op& o : s.ops) {
            int r = 0;
            std::string out = "[]";
            std::string st = guarded([&] { apply(o, r, out); });
            Ev e(o.name.c_str());
            e.num("s", o.at(0) + 1).seq("a", std::vector<int>(o.a.begin() + 1, o.a.end())).num("r", r).str("st", st).raw("out", out);
            obs(e);
        }
        for (auto& p : f) p.reset();
        { Ev e("over"); obs(e); }
        watching = false;
    }
};

int main() {
    char t[] = "filesXXXXXX";
    if (!mkdtemp(t)) return 4;
    dir = t;
    mkdir((dir + "/d").c_str(), 0700);
    out();
    for_each_script([](int k, const Script& s) {
        if (s.ops.empty() || !s.head.empty()) exit(3);
        Run().run(k, s);
    });
    for (int p = 1; p <= 2; ++p) unlink(path(p).c_str());
    rmdir((dir + "/d").c_str());
    rmdir(dir.c_str());
}
