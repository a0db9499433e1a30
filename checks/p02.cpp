// P02: start / stop / restart of the dispatcher always terminates and nothing
// runs after stop.
#include "common.hpp"
#include "edyn/parallel/job.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
using namespace edyn;
namespace {
struct W { std::mutex m; std::vector<int> runs, finished; bool stopped = false; h::Latch *latch = nullptr; job_dispatcher *d = nullptr; unsigned n = 0; } *g;
job mk(unsigned id, unsigned work, bool awaited);
void spawn(unsigned id) { g->d->async(mk(g->n + id, 0, false)); sim::probe("job_submits_job_during_lifecycle"); }
job mk(unsigned id, unsigned work, bool awaited) {
    job j; std::memset(j.data.data(), 0, j.data.size()); std::memcpy(j.data.data(), &id, 4); j.data[4] = uint8_t(work); j.data[5] = awaited;
    j.func = [](job::data_type &d) {
        unsigned id; std::memcpy(&id, d.data(), 4);
        { std::lock_guard<std::mutex> l(g->m); SIM_CHECK(!g->stopped, "job-after-stop", "job %u started after stop returned", id); SIM_CHECK(++g->runs[id] == 1, "job-ran-twice", "job %u ran %d times", id, g->runs[id]); }
        if (d[4] == 1) sim::yield(); else if (d[4]) sim::sleep_ns(3000ull * d[4]);
        if (d[6]) spawn(id);
        { std::lock_guard<std::mutex> l(g->m); SIM_CHECK(!g->stopped, "job-after-stop", "job %u still running after stop returned", id); ++g->finished[id]; }
        if (d[5]) g->latch->hit();
    };
    return j;
}
}
SIM_SCENARIO(lifecycle, 1) {
    sim::set_step_budget(400000); sim::enable_stalls(true);
    auto d = std::make_unique<job_dispatcher>();
    unsigned cycles = sim::range(1, 4);
    SIM_CHECK(!d->running() && d->num_workers() == 0, "bad-idle-state", "fresh dispatcher reports running");
    if (sim::pick(6) == 1) { d->stop(); sim::probe("stop_without_start"); }
    for (unsigned c = 0; c < cycles; ++c) {
        unsigned workers = cycles == 1 && sim::pick(5) == 4 ? sim::range(6, 24) : sim::range(1, 5), n = sim::pick(4) == 0 ? 0 : sim::range(1, 10), awaited = n ? sim::pick(n + 1) : 0;
        W w; g = &w; w.runs.assign(2 * n, 0); w.finished.assign(2 * n, 0); w.d = d.get(); w.n = n; h::Latch latch(awaited); w.latch = &latch;
        d->start(workers);
        SIM_CHECK(d->running() && d->num_workers() == workers, "bad-worker-count", "started %u workers, reports %zu", workers, d->num_workers());
        SIM_CHECK(sim::live_threads() == workers + 1, "bad-worker-count", "%u threads were started for %u workers", sim::live_threads() - 1, workers);
        if (sim::pick(3) == 2) h::jitter();
        for (unsigned i = 0; i < n; ++i) { auto j = mk(i, sim::pick(4), i < awaited); j.data[6] = sim::pick(8) == 7; d->async(j); }
        if (awaited) latch.wait();
        if (n == 0) sim::probe("stop_right_after_start");
        bool destroy = c + 1 == cycles && sim::pick(2);
        if (destroy) { d.reset(); sim::probe("destroyed_while_running"); } else if (sim::pick(6) == 5) { std::thread o([&] { d->stop(); }); o.join(); sim::probe("stopped_by_another_thread"); } else d->stop();
        {
            std::lock_guard<std::mutex> l(w.m); w.stopped = true;
            for (unsigned i = 0; i < 2 * n; ++i) {
                SIM_CHECK(w.runs[i] <= 1 && w.finished[i] == w.runs[i], "job-torn", "job %u started %d times, finished %d times by the time stop returned", i, w.runs[i], w.finished[i]);
                if (i < awaited) SIM_CHECK(w.runs[i] == 1, "job-lost", "awaited job %u did not run", i);
                else if (!w.runs[i]) sim::probe("pending_job_dropped_by_stop");
            }
            uint64_t s = workers * 100 + n; for (int r : w.runs) s = h::mixh(s, unsigned(r)); sim::state(s);
        }
        if (!destroy) SIM_CHECK(!d->running() && d->num_workers() == 0, "bad-idle-state", "dispatcher reports running after stop");
        h::check_no_threads("after stop");
        sim::sleep_ns(100000);
    }
}
