// P07: whatever a thread wrote before handing work over is visible to, and
// race free for, the thread that receives it: jobs, tasks, completions, joins.
#include "common.hpp"
#include "edyn/context/task.hpp"
#include "edyn/parallel/atomic_counter_sync.hpp"
#include "edyn/parallel/job.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#include "edyn/parallel/message_dispatcher.hpp"
#include <entt/signal/delegate.hpp>
using namespace edyn;
namespace {
// A pipeline of stages over plain memory; each hop uses one hand-off of the library and
// nothing else synchronises, so any missing ordering is a data race.
struct Stage { std::vector<uint32_t> *v; uint32_t add; atomic_counter_sync *c; Stage *next; unsigned expect; bool ok = true;
    void part(unsigned a, unsigned b) { for (unsigned i = a; i < b; ++i) { if ((*v)[i] != expect + i) ok = false; (*v)[i] += add; if (sim::pick_on(sim::STREAM_SCHED, 6) == 1) sim::yield(); } }
    void finish() { if (next) { enqueue_task_default(task_delegate_t(entt::connect_arg_t<&Stage::part>{}, *next), unsigned(v->size()), task_completion_delegate_t(entt::connect_arg_t<&Stage::finish>{}, *next)); } else c->decrement(); } };
}
SIM_SCENARIO(async_pipeline, 3) {
    sim::set_step_budget(500000); sim::enable_stalls(true);
    auto &d = job_dispatcher::global(); d.start(sim::range(1, 4));
    { unsigned n = sim::range(1, 24), k = sim::range(1, 4), pipes = sim::range(1, 2);
      atomic_counter_sync c(pipes); std::vector<std::vector<uint32_t>> data(pipes, std::vector<uint32_t>(n)); std::vector<std::vector<Stage>> st(pipes);
      for (unsigned p = 0; p < pipes; ++p) { for (unsigned i = 0; i < n; ++i) data[p][i] = i; st[p].resize(k); uint32_t e = 0; for (unsigned s = 0; s < k; ++s) { st[p][s] = Stage{&data[p], s + 1, &c, s + 1 < k ? &st[p][s + 1] : nullptr, e}; e += s + 1; } }
      for (unsigned p = 0; p < pipes; ++p) enqueue_task_default(task_delegate_t(entt::connect_arg_t<&Stage::part>{}, st[p][0]), n, task_completion_delegate_t(entt::connect_arg_t<&Stage::finish>{}, st[p][0]));
      c.wait();
      for (unsigned p = 0; p < pipes; ++p) { for (auto &s : st[p]) SIM_CHECK(s.ok, "stale-input", "a stage observed data of an unfinished earlier stage"); for (unsigned i = 0; i < n; ++i) SIM_CHECK(data[p][i] == i + k * (k + 1) / 2, "stale-result", "element %u is %u", i, data[p][i]); }
      sim::state(h::mixh(n, k * 8 + pipes)); sim::stop_faults(); sim::sleep_ns(300000000); }
    d.stop();
}
SIM_SCENARIO(job_handoff, 2) { // chain of jobs, each passing a heap object on to the next
    sim::set_step_budget(300000); sim::enable_stalls(true);
    static job_dispatcher *d; static atomic_counter_sync *c; job_dispatcher dd; d = &dd; dd.start(sim::range(1, 4));
    struct Obj { std::vector<uint32_t> log; unsigned hops; };
    struct F { static void go(job::data_type &dt) { Obj *o; std::memcpy(&o, dt.data(), sizeof o); o->log.push_back(uint32_t(o->log.size())); if (o->log.size() >= o->hops) { SIM_CHECK(o->log.size() == o->hops, "bad-chain", "chain has %zu entries", o->log.size()); for (unsigned i = 0; i < o->hops; ++i) SIM_CHECK(o->log[i] == i, "stale-input", "entry %u is %u", i, o->log[i]); delete o; c->decrement(); return; } job j; std::memset(j.data.data(), 0, j.data.size()); std::memcpy(j.data.data(), &o, sizeof o); j.func = &go; d->async(j); } };
    { unsigned n = sim::range(1, 4); atomic_counter_sync cs(n); c = &cs;
      for (unsigned i = 0; i < n; ++i) { auto *o = new Obj{{}, sim::range(1, 6)}; job j; std::memset(j.data.data(), 0, j.data.size()); std::memcpy(j.data.data(), &o, sizeof o); j.func = &F::go; dd.async(j); }
      cs.wait(); sim::state(n); }
    dd.stop();
}
SIM_SCENARIO(wait_handoff, 2) { // caller's data in, workers' data out, caller's stack reused at once
    sim::set_step_budget(300000); sim::enable_stalls(true);
    auto &d = job_dispatcher::global(); d.start(sim::range(1, 4));
    unsigned rounds = sim::range(2, 5); std::vector<uint32_t> in(32), out(32); uint32_t gen = 0;
    struct Ctx { std::vector<uint32_t> *in, *out; void f(unsigned a, unsigned b) { for (; a < b; ++a) (*out)[a] = (*in)[a] * 2 + 1; } };
    for (unsigned r = 0; r < rounds; ++r) { unsigned n = sim::range(1, 32); ++gen; for (unsigned i = 0; i < n; ++i) { in[i] = gen * 100 + i; out[i] = 0; } Ctx c{&in, &out}; enqueue_task_wait_default(task_delegate_t(entt::connect_arg_t<&Ctx::f>{}, c), n); for (unsigned i = 0; i < n; ++i) SIM_CHECK(out[i] == (gen * 100 + i) * 2 + 1, "stale-result", "element %u", i); sim::state(h::mixh(n, r)); }
    d.stop();
}
namespace { struct Ptr { std::vector<uint32_t> *p; }; struct PR { uint32_t n = 0; void on(message<Ptr> &m) { SIM_CHECK(m.content.p->size() == n + 1, "stale-input", "message %u", n); for (auto v : *m.content.p) SIM_CHECK(v == n, "stale-input", "message %u carries %u", n, v); delete m.content.p; ++n; } }; }
SIM_SCENARIO(message_handoff, 2) {
    sim::set_step_budget(300000); sim::enable_stalls(true);
    message_dispatcher d; auto q = d.make_queue<Ptr>("rx"); PR r; q.sink<Ptr>().connect<&PR::on>(r); unsigned n = sim::range(1, 10);
    std::thread t([&] { for (uint32_t i = 0; i < n; ++i) { d.send<Ptr>({"rx"}, {"tx"}, Ptr{new std::vector<uint32_t>(i + 1, i)}); h::jitter(); } });
    while (r.n < n) { q.update(); sim::yield(); }
    t.join(); sim::state(n);
}
