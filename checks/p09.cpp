// P09: the library's clocks never run backwards and agree with elapsed time;
// a delay lasts at least as long as requested, whatever interrupts it.
#include "common.hpp"
#include "edyn/time/time.hpp"
#include <cmath>
#include <cstdlib>
using namespace edyn;
namespace {
struct Sample { uint64_t b, a; uint32_t tk; uint64_t pc; double pt; };
// Reads one clock; b and a bracket the true time of the reading.
template<typename F> auto bracket(Sample &s, F f) { s.b = sim::now_ns(); auto v = f(); s.a = sim::now_ns(); return v; }
bool no_mono() { auto *e = getenv("SIM_NO_MONOTONIC"); return e && *e == '1'; }
uint64_t long_gap() {
    switch (sim::pick(6)) {
    case 0: return sim::pick(2000000);                              // < 2 ms
    case 1: return uint64_t(sim::pick(3000)) * 1000000ull + sim::pick(1000000);   // seconds
    case 2: return uint64_t(sim::pick(3600)) * 1000000000ull + sim::pick(1000000000);
    case 3: return uint64_t(sim::pick(5)) * 1000000000ull;          // whole seconds
    case 4: return uint64_t(sim::pick(3) ? sim::pick(60) : sim::pick(1100)) * 3600000000000ull; // days and weeks
    default: return sim::pick(1000);
    }
}
constexpr uint64_t horizon = 46ull * 86400 * 1000000000ull;         // below the 32-bit millisecond range
template<typename V, typename F> void clock_pair(const char *what, const Sample &s, V v, const Sample &q, V w, double unit_ns, double tol_ns, F diff) {
    // s was read before q: elapsed true time is in [q.b - s.a, q.a - s.b]
    double d = diff(v, w) * unit_ns, lo = double(q.b) - double(s.a), hi = double(q.a) - double(s.b);
    if (lo < 0) lo = 0;
    SIM_CHECK(d >= 0, "clock-backwards", "%s went backwards by %.0f ns while %.0f ns passed", what, -d, lo);
    SIM_CHECK(d >= lo - tol_ns && d <= hi + tol_ns, "clock-wrong", "%s advanced %.0f ns while between %.0f and %.0f ns passed", what, d, lo, hi);
}
}
SIM_SCENARIO(clocks_follow_time, 3) {
    sim::set_step_budget(200000);
    if (!no_mono()) sim::enable_time_faults(true);
    uint64_t freq = performance_frequency();
    SIM_CHECK(freq >= 1000, "clock-wrong", "performance frequency is %llu", (unsigned long long)freq);
    unsigned T = sim::range(1, 3), n = sim::range(2, 10);
    sim::advance_ns(long_gap());
    std::mutex m; Sample f1{}, f2{}, f3{}, l1{}, l2{}, l3{}; bool have = false; std::vector<std::thread> ts; uint64_t st = 0;
    auto body = [&] {
        for (unsigned i = 0; i < n; ++i) {
            { std::lock_guard<std::mutex> l(m);  // samples of different threads are ordered by the lock
                uint64_t g = long_gap(); if (sim::now_ns() + g < horizon) sim::advance_ns(g);
                Sample s1{}, s2{}, s3{};
                s1.tk = bracket(s1, [] { return ticks(); }); s2.pc = bracket(s2, [] { return performance_counter(); }); s3.pt = bracket(s3, [] { return performance_time(); });
                SIM_CHECK(performance_frequency() == freq, "clock-wrong", "performance frequency changed");
                auto du = [](auto a, auto b) { return b >= a ? double(b - a) : -double(a - b); };
                if (have) for (int k = 0; k < 2; ++k) {
                    clock_pair("millisecond clock", k ? f1 : l1, k ? f1.tk : l1.tk, s1, s1.tk, 1e6, 1.0e6 + 2000, du);
                    clock_pair("performance counter", k ? f2 : l2, k ? f2.pc : l2.pc, s2, s2.pc, 1e9 / double(freq), 1e9 / double(freq) + 1, du);
                    clock_pair("performance time", k ? f3 : l3, k ? f3.pt : l3.pt, s3, s3.pt, 1e9, 2000 + 1e9 / double(freq), du);
                } else { f1 = s1; f2 = s2; f3 = s3; have = true; }
                l1 = s1; l2 = s2; l3 = s3; st = h::mixh(st, s1.tk - f1.tk);
            }
            h::jitter();
        }
    };
    for (unsigned t = 1; t < T; ++t) ts.emplace_back(body);
    body();
    for (auto &t : ts) t.join();
    sim::state(st);
}
SIM_SCENARIO(delay_lasts, 3) {
    sim::set_step_budget(200000);
    unsigned T = sim::range(1, 3), n = sim::range(1, 4); std::vector<std::thread> ts;
    sim::advance_ns(long_gap() % horizon);
    auto body = [&] {
        for (unsigned i = 0; i < n; ++i) {
            uint32_t ms;
            switch (sim::pick(5)) { case 0: ms = sim::pick(4); break; case 1: ms = sim::pick(1000); break; case 2: ms = 1000 * sim::range(1, 5); break; case 3: ms = sim::range(1001, 90000); break; default: ms = sim::pick(6) == 0 ? 0xFFFFFFFFu - sim::pick(2000) : sim::range(1, 100); }
            uint64_t t0 = sim::now_ns(); delay(ms); uint64_t el = sim::now_ns() - t0, want = uint64_t(ms) * 1000000ull;
            SIM_CHECK(el >= want, "delay-too-short", "a delay of %u ms returned after %llu ns", ms, (unsigned long long)el);
            SIM_CHECK(el <= want + 3000000ull, "delay-too-long", "a delay of %u ms took %llu ns", ms, (unsigned long long)el);
            sim::state(ms);
        }
    };
    for (unsigned t = 1; t < T; ++t) ts.emplace_back(body);
    body();
    for (auto &t : ts) t.join();
}
