// Helpers shared by scenarios.  Compiled with instrumentation like the code
// under test, so they must be race free themselves.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include "../sim/sim.hpp"
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace h {

inline uint64_t mixh(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; return a ^ (a >> 33); }

// Counts down with a mutex; wait() blocks until zero.
class Latch {
public:
    explicit Latch(size_t n) : m_n(n) {}
    void hit() { std::lock_guard<std::mutex> l(m); if (m_n) --m_n; if (!m_n) cv.notify_all(); }
    void add(size_t k) { std::lock_guard<std::mutex> l(m); m_n += k; }
    void wait() { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return m_n == 0; }); }
    size_t left() { std::lock_guard<std::mutex> l(m); return m_n; }
private:
    std::mutex m; std::condition_variable cv; size_t m_n;
};

// Random short pause of the calling simulated thread.
inline void jitter() {
    switch (sim::pick_on(sim::STREAM_SCHED, 6)) {
        case 1: sim::yield(); break;
        case 2: sim::sleep_ns(1000 * (1 + sim::pick_on(sim::STREAM_SCHED, 50))); break;
        default: break;
    }
}
inline void check_no_threads(const char *what) {
    for (int i = 0; i < 64 && sim::live_threads() > 1; ++i) sim::yield();
    for (int i = 0; i < 100 && sim::live_threads() > 1; ++i) sim::sleep_ns(50000000);   // a thread on its way out may be stalled
    SIM_CHECK(sim::live_threads() == 1, "thread-leak", "%s: %u threads still alive", what, sim::live_threads() - 1);
}
}
#endif
