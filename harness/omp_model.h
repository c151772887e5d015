// A model of the OpenMP runtime for exhaustive exploration: see omp_model.cpp.
#pragma once
#include <functional>
#include <string>
#include <vector>
extern "C" {
void omp_model_begin(int threads, const int *prefix, int n); // the next parallel regions use `threads` threads and this schedule prefix
void omp_model_end();
int omp_model_choices(const int **taken, const int **options); // scheduling choices made since begin
int omp_model_races();                                        // number of data races seen since begin
const char *omp_model_report();                               // description of the first one
int omp_model_deadlock();
unsigned long omp_model_accesses();
int omp_model_regions();
int omp_model_overflow();
}
namespace omp_model {
struct Outcome { unsigned long schedules = 0, accesses = 0; int regions = 0; bool capped = false; };
// runs `body` under every schedule of its visible operations (critical sections, chunk requests, synchronising atomics,
// barriers) with this number of threads; `verify` is called after each run with the schedule and the findings of the detector
inline Outcome all_schedules(int threads, unsigned long cap, const std::function<void()> &body, const std::function<void(const std::string &, int, const char *, bool)> &verify) {
    Outcome o;
    std::vector<int> prefix;
    for (;;) {
        omp_model_begin(threads, prefix.data(), int(prefix.size()));
        body();
        omp_model_end();
        const int *taken, *options; const int n = omp_model_choices(&taken, &options);
        std::string s; for (int i = 0; i < n; ++i) { s += char('0' + taken[i]); }
        std::vector<int> t(taken, taken + n), op(options, options + n);
        ++o.schedules; o.accesses += omp_model_accesses(); if (omp_model_regions() > o.regions) o.regions = omp_model_regions();
        const int races = omp_model_races(); const std::string rep = omp_model_report(); const bool dead = omp_model_deadlock();
        verify(s, races, rep.c_str(), dead);
        if (races || dead || omp_model_overflow()) { o.capped = o.capped || omp_model_overflow(); break; }
        int i = n - 1;
        while (i >= 0 && t[i] + 1 >= op[i]) --i;
        if (i < 0) break;
        if (o.schedules >= cap) { o.capped = true; break; }
        prefix.assign(t.begin(), t.begin() + i); prefix.push_back(t[i] + 1);
    }
    return o;
}
} // namespace omp_model
