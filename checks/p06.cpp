// P06: the countdown used to join island solves releases its waiter exactly
// when every participant has reported, never earlier and never never.
#include "common.hpp"
#include "edyn/parallel/atomic_counter_sync.hpp"
using namespace edyn;
SIM_SCENARIO(counter_sync, 1) {
    sim::set_step_budget(300000); sim::enable_stalls(true);
    unsigned rounds = sim::range(1, 3);
    for (unsigned r = 0; r < rounds; ++r) {
        bool big = sim::pick(40) == 39; if (big) sim::probe("many_parties"); unsigned T = sim::range(1, 4); std::vector<unsigned> per(T); unsigned n = 0; for (auto &p : per) { p = big && !n ? sim::range(200, 600) : sim::range(1, 3); n += p; }
        bool heap = sim::pick(2), late = sim::pick(3) == 1;
        std::vector<uint32_t> data(n, 0); std::vector<std::thread> ts;
        alignas(atomic_counter_sync) unsigned char storage[sizeof(atomic_counter_sync)];
        auto *c = heap ? new atomic_counter_sync(n) : new (storage) atomic_counter_sync(n);
        unsigned base = 0;
        for (unsigned t = 0; t < T; ++t) { ts.emplace_back([&, t, base] { for (unsigned i = 0; i < per[t]; ++i) { h::jitter(); data[base + i] = base + i + 1; c->decrement(); } }); base += per[t]; }
        if (late) { sim::sleep_ns(200000); sim::probe("wait_after_all_done"); }
        c->wait();
        // Plain reads: a missing or weakened hand-off is a data race here.
        for (unsigned i = 0; i < n; ++i) SIM_CHECK(data[i] == i + 1, "released-early", "waiter released before participant %u of %u reported", i, n);
        if (sim::pick(3) == 2) { c->wait(); sim::probe("second_wait"); }
        if (heap) delete c; else c->~atomic_counter_sync();
        if (!heap) std::memset(storage, 0xEE, sizeof storage);
        if (sim::pick(2)) sim::yield();
        for (auto &t : ts) t.join();
        sim::state(h::mixh(n, T * 4 + heap * 2 + late));
    }
    h::check_no_threads("participants");
}
