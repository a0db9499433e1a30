// P04: a parallel task covers its range exactly once; a waiting caller is
// released, and a completion runs, only after every part is done.
#include "common.hpp"
#include "edyn/context/task.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#include <entt/signal/delegate.hpp>
#include <atomic>
using namespace edyn;
namespace {
struct Task {
    unsigned n; std::vector<int> mark; std::vector<uint32_t> out; std::vector<uint8_t> slow;
    std::mutex m; int in_flight = 0, completions = 0; bool finished = false; h::Latch *latch = nullptr; Task *then = nullptr; uint64_t part = 0;
    explicit Task(unsigned n_) : n(n_), mark(n_, 0), out(n_, 0), slow(n_, 0) { if (n < 200) for (auto &s : slow) s = uint8_t(sim::pick(8)); else sim::probe("large_task"); }
    void run(unsigned start, unsigned end) {
        { std::lock_guard<std::mutex> l(m);
          SIM_CHECK(start < end && end <= n, "bad-range", "task of size %u called with [%u, %u)", n, start, end);
          SIM_CHECK(!finished, "late-part", "part [%u, %u) started after the task was reported done", start, end);
          ++in_flight; part = h::mixh(part, uint64_t(start) << 32 | end); }
        // Plain writes: two calls covering the same index are a data race, and
        // so is a result read without a proper hand-off.
        for (unsigned i = start; i < end; ++i) { ++mark[i]; out[i] = i * 7 + 1; if (slow[i] == 1) sim::yield(); else if (slow[i] == 2) sim::sleep_ns(5000); }
        std::lock_guard<std::mutex> l(m); --in_flight;
    }
    void verify(const char *who) {
        { std::lock_guard<std::mutex> l(m); SIM_CHECK(in_flight == 0, "released-early", "%s while %d parts are still running", who, in_flight); finished = true; sim::state(h::mixh(part, n)); }
        verify_data(who);
    }
    void verify_data(const char *who) { for (unsigned i = 0; i < n; ++i) { SIM_CHECK(mark[i] == 1, "range-not-covered-once", "%s: index %u of %u processed %d times", who, i, n, mark[i]); SIM_CHECK(out[i] == i * 7 + 1, "result-lost", "%s: result of index %u missing", who, i); } }
    void done();
    task_delegate_t del() { return task_delegate_t(entt::connect_arg_t<&Task::run>{}, *this); }
    task_completion_delegate_t comp() { return task_completion_delegate_t(entt::connect_arg_t<&Task::done>{}, *this); }
};
void Task::done() {
    { std::lock_guard<std::mutex> l(m); SIM_CHECK(++completions == 1, "completed-twice", "completion of task of size %u ran %d times", n, completions); }
    { std::lock_guard<std::mutex> l(m); SIM_CHECK(in_flight == 0, "released-early", "completion ran while %d parts are still running", in_flight); }
    verify_data("completion");
    if (then) { sim::probe("chained_async_task"); enqueue_task_default(then->del(), then->n, then->comp()); }
    latch->hit();
}
unsigned size_() { switch (sim::pick(4)) { case 0: return sim::range(1, 3); case 1: return sim::range(1, 12); case 2: return sim::pick(12) ? sim::range(1, 40) : sim::pick(8) ? sim::range(200, 700) : sim::range(4000, 70000); default: return sim::range(1, 40); } }
}
SIM_SCENARIO(task_wait, 3) {
    sim::set_step_budget(6000000); sim::enable_stalls(true);
    auto &d = job_dispatcher::global(); unsigned workers = sim::pick(12) == 11 ? sim::range(5, 12) : sim::range(1, 4); d.start(workers);
    unsigned callers = sim::range(1, 3), rounds = sim::range(1, 3);
    auto body = [&] { for (unsigned r = 0; r < rounds; ++r) { Task t(sim::pick(12) == 7 ? 0 : size_()); if (!t.n) sim::probe("empty_wait_task"); enqueue_task_wait_default(t.del(), t.n); t.verify("waiting caller returned"); h::jitter(); } };
    std::vector<std::thread> ts; for (unsigned c = 1; c < callers; ++c) ts.emplace_back(body);
    body(); for (auto &t : ts) t.join();
    d.stop(); h::check_no_threads("after stop");
}
SIM_SCENARIO(task_async, 3) {
    sim::set_step_budget(6000000); sim::enable_stalls(true);
    auto &d = job_dispatcher::global(); unsigned workers = sim::pick(12) == 11 ? sim::range(5, 12) : sim::range(1, 4); d.start(workers);
    uint64_t blocks = 0;
    {
        unsigned k = sim::range(1, 4); std::vector<std::unique_ptr<Task>> ts, chained; size_t expect = 0;
        std::vector<bool> zero;
        for (unsigned i = 0; i < k; ++i) { bool z = sim::pick(15) == 9; if (z) sim::probe("empty_async_task"); ts.push_back(std::make_unique<Task>(z ? 0 : size_())); ++expect; if (sim::pick(3) == 2) { chained.push_back(std::make_unique<Task>(size_())); ts.back()->then = chained.back().get(); ++expect; } }
        h::Latch latch(expect); for (auto &t : ts) t->latch = &latch; for (auto &t : chained) t->latch = &latch;
        blocks = sim::live_heap_blocks();
        auto sub = [&](unsigned from, unsigned step) { for (unsigned i = from; i < k; i += step) { enqueue_task_default(ts[i]->del(), ts[i]->n, ts[i]->comp()); h::jitter(); } };
        if (sim::pick(2)) { { std::thread o([&] { sub(1, 2); }); sub(0, 2); o.join(); } sim::probe("concurrent_submitters"); } else sub(0, 1);
        latch.wait();
        for (auto &t : ts) t->verify("task reported complete"); for (auto &t : chained) t->verify("chained task reported complete");
        // Task contexts are released once the workers are idle.
        sim::stop_faults(); sim::sleep_ns(400000000);
        SIM_CHECK(sim::live_heap_blocks() <= blocks + workers * 4, "task-leak", "%llu heap blocks before, %llu after all tasks completed", (unsigned long long)blocks, (unsigned long long)sim::live_heap_blocks());
        for (auto &t : ts) SIM_CHECK(t->completions == 1, "completed-twice", "completion ran %d times", t->completions);
    }
    d.stop(); h::check_no_threads("after stop");
}
