// Common support for the bounded exhaustive checkers.
//
// A harness enumerates a bounded space, calls the real code, compares with a reference model and reports through `mc`.
//   mc::state()       one explored state / input point
//   mc::trace()      one complete history / configuration executed on the implementation
//   mc::step(n)       n transitions (operations of the code under test) executed
//   mc::check(c, key, detail...)   property instance; a failure is recorded under `key`
//   mc::crumb(...)    what is being explored right now (survives a crash: the runner prints it)
// The result is written as JSON to argv[1].  Exit status 0 means "enumeration completed" (violations are in the JSON).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <signal.h>

namespace mc {
struct Violation { std::string key, detail; };
struct Ctx {
    unsigned long long states = 0, steps = 0, evals = 0, traces = 0;
    std::map<std::string, unsigned long long> per;      // evaluations per rule
    std::map<std::string, unsigned long long> failures; // failures per key
    std::vector<Violation> violations;
    std::vector<std::string> samples;
    std::set<std::string> sample_keys;
    std::map<std::string, std::string> bounds;
    char *crumb = nullptr;
    bool thorough = false;
    std::string out;
};
inline Ctx &ctx() { static Ctx c; return c; }

inline bool thorough() { return ctx().thorough; }
inline void state(unsigned long long n = 1) { ctx().states += n; }
inline void trace(unsigned long long n = 1) { ctx().traces += n; }
inline void step(unsigned long long n = 1) { ctx().steps += n; }

inline void app(std::ostringstream &) {}
template <class T, class... R> void app(std::ostringstream &s, const T &t, const R &... r) { s << t; app(s, r...); }
template <class... A> std::string str(const A &... a) { std::ostringstream s; s.precision(17); app(s, a...); return s.str(); }

// An operation that never ends: CPU time since the last crumb beyond the limit ends the process with status 97.
inline int &watchdog_seconds() { static int s = 45; return s; }
inline void watchdog_arm() { struct itimerval t{}; t.it_value.tv_sec = watchdog_seconds() * (ctx().thorough ? 20 : 1); setitimer(ITIMER_VIRTUAL, &t, nullptr); }
inline void watchdog_fire(int) { _exit(97); }
inline void crumb(const std::string &s) {
    watchdog_arm();
    if (ctx().crumb) { size_t n = std::min<size_t>(s.size(), 4000); memcpy(ctx().crumb, s.data(), n); ctx().crumb[n] = 0; }
}

inline void fail(const std::string &key, const std::string &detail) {
    auto &c = ctx();
    auto n = ++c.failures[key];
    if (n <= 3 && c.violations.size() < 200) c.violations.push_back({key, detail});
}
// rule: name of the rule for coverage accounting; key: identity of the failing thing
template <class... A>
inline bool check(bool ok, const char *rule, const std::string &key, const A &... detail) {
    auto &c = ctx();
    ++c.evals;
    ++c.per[rule];
    if (!ok) fail(std::string(rule) + ":" + key, str(detail...));
    return ok;
}
inline void sample(const std::string &k, const std::string &s) {
    auto &c = ctx();
    if (c.samples.size() < 24 && c.sample_keys.insert(k).second) c.samples.push_back(k + ": " + s);
}
inline void bound(const std::string &k, const std::string &v) { ctx().bounds[k] = v; }

inline std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}
inline void write_result() {
    auto &c = ctx();
    std::ostringstream s;
    s << "{\"states\":" << c.states << ",\"steps\":" << c.steps << ",\"traces\":" << c.traces << ",\"evals\":" << c.evals << ",\"per\":{";
    const char *sep = "";
    for (auto &p : c.per) { s << sep << '"' << esc(p.first) << "\":" << p.second; sep = ","; }
    s << "},\"failures\":{"; sep = "";
    for (auto &p : c.failures) { s << sep << '"' << esc(p.first) << "\":" << p.second; sep = ","; }
    s << "},\"bounds\":{"; sep = "";
    for (auto &p : c.bounds) { s << sep << '"' << esc(p.first) << "\":\"" << esc(p.second) << '"'; sep = ","; }
    s << "},\"violations\":["; sep = "";
    for (auto &v : c.violations) { s << sep << "{\"key\":\"" << esc(v.key) << "\",\"detail\":\"" << esc(v.detail) << "\"}"; sep = ","; }
    s << "],\"samples\":["; sep = "";
    for (auto &v : c.samples) { s << sep << '"' << esc(v) << '"'; sep = ","; }
    s << "]}\n";
    std::string tmp = c.out + ".tmp";
    FILE *f = fopen(tmp.c_str(), "w");
    fputs(s.str().c_str(), f);
    fclose(f);
    rename(tmp.c_str(), c.out.c_str());
}
struct EigenAssert { const char *what; };
inline int run(int argc, char **argv, const std::function<void()> &body) {
    auto &c = ctx();
    c.out = argc > 1 ? argv[1] : "/dev/stdout";
    const char *t = getenv("VERIF_TIER");
    c.thorough = t && std::string(t) == "thorough";
    if (argc > 1) {
        std::string cf = c.out + ".crumb";
        int fd = open(cf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0 && ftruncate(fd, 4096) == 0) {
            void *m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) c.crumb = (char *)m;
            close(fd);
        }
    }
    signal(SIGVTALRM, watchdog_fire);
    watchdog_arm();
    body();
    { struct itimerval t{}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
    write_result();
    return 0;
}

// Mixed-radix enumeration of {0..radix-1}^n, calling f(vector<int>).
template <class F> void product(const std::vector<int> &radix, F &&f) {
    std::vector<int> d(radix.size(), 0);
    for (int r : radix) if (r <= 0) return;
    while (true) {
        f(const_cast<const std::vector<int> &>(d));
        size_t i = 0;
        for (; i < d.size(); ++i) { if (++d[i] < radix[i]) break; d[i] = 0; }
        if (i == d.size()) return;
    }
}
inline bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol; } // NaN -> false
template <class M> std::string show(const M &m) {
    std::ostringstream s; s.precision(12); s << "[";
    for (long i = 0; i < (long)m.rows(); ++i) { if (i) s << "; "; for (long j = 0; j < (long)m.cols(); ++j) s << (j ? " " : "") << m(i, j); }
    s << "]"; return s.str();
}
// max |a-b|, +inf if any NaN
template <class A, class B> double maxdiff(const A &a, const B &b) {
    double r = 0;
    for (long i = 0; i < (long)a.rows(); ++i) for (long j = 0; j < (long)a.cols(); ++j) {
        double d = std::fabs(double(a(i, j)) - double(b(i, j)));
        if (!(d <= r)) r = (d == d) ? d : INFINITY;
    }
    return r;
}
} // namespace mc
