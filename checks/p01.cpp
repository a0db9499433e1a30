// P01: every job handed to the dispatcher runs exactly once, payload intact.
#include "common.hpp"
#include "edyn/parallel/job.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
using namespace edyn;

namespace {
struct Rec { int runs = 0; uint32_t expect = 0; bool bad = false; };
struct World {
    job_dispatcher *d; std::vector<Rec> rec; h::Latch *latch; std::mutex m; unsigned next = 0; unsigned max_spawn;
    unsigned active = 0, max_active = 0;
    std::vector<int> tids;
};
struct Payload { World *w; uint32_t id; uint8_t spawn, work; uint8_t pad[job::data_size - sizeof(void *) - 6]; };
static_assert(sizeof(Payload) <= job::data_size, "");
uint8_t pat(uint32_t id, unsigned i) { return uint8_t(id * 37 + i * 11 + 5); }
void run_job(job::data_type &data);
job make(World &w, uint32_t id, unsigned spawn, unsigned work) {
    job j; Payload p; std::memset(&p, 0, sizeof p);
    p.w = &w; p.id = id; p.spawn = uint8_t(spawn); p.work = uint8_t(work);
    for (unsigned i = 0; i < sizeof p.pad; ++i) p.pad[i] = pat(id, i);
    std::memcpy(j.data.data(), &p, sizeof p); j.func = &run_job;
    return j;
}
void run_job(job::data_type &data) {
    Payload p; std::memcpy(&p, data.data(), sizeof p);
    auto &w = *p.w;
    bool ok = true; for (unsigned i = 0; i < sizeof p.pad; ++i) ok = ok && p.pad[i] == pat(p.id, i);
    {
        std::lock_guard<std::mutex> l(w.m);
        SIM_CHECK(p.id < w.rec.size() && ok, "job-corrupted", "job %u arrived with a damaged payload", p.id);
        auto &r = w.rec[p.id]; ++r.runs;
        SIM_CHECK(r.runs == 1, "job-ran-twice", "job %u ran %d times", p.id, r.runs);
        SIM_CHECK(sim::self() != 0, "job-ran-on-caller", "job %u ran on the submitting main thread", p.id);
        if (++w.active > w.max_active) w.max_active = w.active;
        w.tids.push_back(sim::self());
    }
    if (p.work == 1) sim::yield(); else if (p.work >= 2) sim::sleep_ns(1000ull * p.work * p.work);
    for (unsigned i = 0; i < p.spawn; ++i) {
        uint32_t id; { std::lock_guard<std::mutex> l(w.m); id = uint32_t(w.rec.size()); w.rec.emplace_back(); }
        w.latch->add(1);
        w.d->async(make(w, id, 0, sim::pick(3)));
        sim::probe("nested_async");
    }
    { std::lock_guard<std::mutex> l(w.m); --w.active; }
    w.latch->hit();
}
}

SIM_SCENARIO(dispatch_exactly_once, 4) {
    sim::set_step_budget(400000); sim::enable_stalls(true);
    unsigned workers = sim::pick(12) == 11 ? sim::range(6, 20) : sim::range(1, 5), producers = sim::pick(4), per = sim::range(1, 12);
    bool use_global = sim::pick(3) == 0;
    std::unique_ptr<job_dispatcher> own; job_dispatcher *d;
    if (use_global) d = &job_dispatcher::global(); else { own = std::make_unique<job_dispatcher>(); d = own.get(); }
    unsigned rounds = workers > 6 ? 1 : sim::range(1, 3);
    d->start(workers);
    SIM_CHECK(d->num_workers() == workers && d->running(), "bad-worker-count", "started %u workers, reports %zu", workers, d->num_workers());
    for (unsigned r = 0; r < rounds; ++r) {
        if (r && sim::pick(4) == 3 && workers <= 6) { d->stop(); workers = sim::range(1, 6); d->start(workers); sim::probe("restarted"); }
        unsigned n = (producers + 1) * per;
        World w; h::Latch latch(n); w.d = d; w.latch = &latch; w.rec.resize(n);
        struct Spec { uint8_t spawn, work; }; std::vector<Spec> spec(n);
        for (auto &s : spec) { s.spawn = sim::pick(5) == 4 ? uint8_t(sim::range(1, 3)) : 0; s.work = uint8_t(sim::pick(4)); }
        auto produce = [&](unsigned k) { for (unsigned i = 0; i < per; ++i) { uint32_t id = k * per + i; d->async(make(w, id, spec[id].spawn, spec[id].work)); h::jitter(); } };
        std::vector<std::thread> ts;
        for (unsigned k = 1; k <= producers; ++k) ts.emplace_back(produce, k);
        produce(0);
        for (auto &t : ts) t.join();
        latch.wait(); // must be reached: deadlock / no-progress otherwise
        std::lock_guard<std::mutex> l(w.m);
        uint64_t hsh = workers;
        for (size_t i = 0; i < w.rec.size(); ++i) SIM_CHECK(w.rec[i].runs == 1, "job-lost", "job %zu ran %d times", i, w.rec[i].runs);
        for (int t : w.tids) hsh = h::mixh(hsh, uint64_t(t));
        if (w.max_active > 1) sim::probe("jobs_overlapped");
        if (w.rec.size() > n) sim::probe("round_with_nested_jobs");
        sim::state(hsh);
    }
    d->stop();
    h::check_no_threads("after stop");
}
// Every worker is usable: as many jobs that wait for each other as there are workers all get to run
// once the dispatcher is idle (a job is never queued behind a busy worker while another is idle).
SIM_SCENARIO(dispatch_all_workers, 1) {
    sim::set_step_budget(300000);
    unsigned workers = sim::range(2, 5);
    job_dispatcher d; d.start(workers);
    static std::vector<int> seen; seen.assign(64, 0);
    unsigned n = sim::range(2, 20);
    static h::Latch *latch; h::Latch lt(n); latch = &lt; static std::mutex *mx; std::mutex mm; mx = &mm;
    for (unsigned i = 0; i < n; ++i) {
        job j; std::memset(j.data.data(), 0, j.data.size()); j.data[0] = uint8_t(i); j.data[1] = uint8_t(sim::pick(4));
        j.func = [](job::data_type &dt) { { std::lock_guard<std::mutex> l(*mx); ++seen[dt[0]]; } if (dt[1]) sim::sleep_ns(2000ull * dt[1]); latch->hit(); };
        d.async(j);
    }
    lt.wait();
    for (unsigned i = 0; i < n; ++i) SIM_CHECK(seen[i] == 1, "job-lost", "job %u ran %d times", i, seen[i]);
    sim::state(h::mixh(workers, n));
    d.stop();
    h::check_no_threads("after stop");
}
// A long backlog: workers are held up while far more jobs than usual are handed over.
SIM_SCENARIO(backlog, 1) {
    sim::set_step_budget(3000000);
    unsigned workers = sim::range(1, 4), n = sim::pick(4) ? sim::range(60, 600) : sim::range(600, 3000);
    job_dispatcher d; d.start(workers);
    static std::vector<uint8_t> seen; seen.assign(n, 0); static std::mutex *mx; std::mutex mm; mx = &mm; h::Latch lt(n), gate(1), held(workers); static h::Latch *latch, *open, *hold; latch = &lt; open = &gate; hold = &held;
    bool block = sim::pick(3) != 0;
    auto mk = [](uint32_t i, bool g) { job j; for (unsigned k = 0; k < j.data.size(); ++k) j.data[k] = pat(i, k); std::memcpy(j.data.data(), &i, 4);
        if (g) j.func = [](job::data_type &) { hold->hit(); open->wait(); };
        else j.func = [](job::data_type &dt) { uint32_t i; std::memcpy(&i, dt.data(), 4); bool ok = i < seen.size(); for (unsigned k = 4; k < dt.size(); ++k) ok = ok && dt[k] == pat(i, k); { std::lock_guard<std::mutex> l(*mx); SIM_CHECK(ok, "job-corrupted", "job %u arrived with a damaged payload", i); SIM_CHECK(++seen[i] == 1, "job-ran-twice", "job %u ran %d times", i, int(seen[i])); } latch->hit(); };
        return j; };
    if (block) { for (unsigned i = 0; i < workers; ++i) d.async(mk(i, true)); sim::probe("workers_held_up"); }
    auto produce = [&](uint32_t a, uint32_t b) { for (uint32_t i = a; i < b; ++i) d.async(mk(i, false)); };
    if (sim::pick(2)) { std::thread o([&] { produce(n / 2, n); }); produce(0, n / 2); o.join(); } else produce(0, n);
    gate.hit(); lt.wait();
    { std::lock_guard<std::mutex> l(mm); for (unsigned i = 0; i < n; ++i) SIM_CHECK(seen[i] == 1, "job-lost", "job %u ran %d times", i, int(seen[i])); }
    sim::state(h::mixh(workers, n)); d.stop(); h::check_no_threads("after stop");
}
