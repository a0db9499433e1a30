// P03: the job queue is a linearizable FIFO; a blocked consumer is woken.
#include "common.hpp"
#include "edyn/parallel/job.hpp"
#include "edyn/parallel/job_queue.hpp"
#include <algorithm>
#include <set>
using namespace edyn;
namespace {
enum Kind { PUSH, POP, TRY, SIZE };
struct Op { Kind k; uint32_t val; bool ok; uint64_t a, b; }; // [a, b] invocation/response stamps
job mk(uint32_t id) { job j = job::noop(); for (unsigned i = 0; i < j.data.size(); ++i) j.data[i] = uint8_t(id * 31 + i * 7 + 3); std::memcpy(j.data.data(), &id, 4); return j; }
uint32_t rd(const job &j) {
    uint32_t id; std::memcpy(&id, j.data.data(), 4);
    bool ok = j.func != nullptr; for (unsigned i = 4; i < j.data.size(); ++i) ok = ok && j.data[i] == uint8_t(id * 31 + i * 7 + 3);
    SIM_CHECK(ok, "job-corrupted", "dequeued job %u is damaged", id);
    return id;
}
uint64_t stamp() { return sim::tick(); }
// Wing & Gong search for a linearization against a FIFO queue.
struct Lin {
    std::vector<Op> ops; std::set<std::pair<uint64_t, std::vector<uint32_t>>> seen; uint64_t budget = 200000;
    int go(uint64_t done, std::vector<uint32_t> q) {
        if (done == (ops.size() == 64 ? ~0ull : (1ull << ops.size()) - 1)) return 1;
        if (!budget--) return -1;
        if (!seen.insert({done, q}).second) return 0;
        uint64_t minb = UINT64_MAX;
        for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) minb = std::min(minb, ops[i].b);
        for (size_t i = 0; i < ops.size(); ++i) {
            if (done >> i & 1 || ops[i].a > minb) continue;
            auto &o = ops[i]; auto nq = q;
            if (o.k == PUSH) nq.push_back(o.val);
            else if (o.k == SIZE) { if (q.size() != o.val) continue; }
            else if (!o.ok) { if (!q.empty()) continue; }
            else { if (q.empty() || q.front() != o.val) continue; nq.erase(nq.begin()); }
            int r = go(done | 1ull << i, nq);
            if (r) return r;
        }
        return 0;
    }
};
}
SIM_SCENARIO(queue_linearizable, 3) {
    sim::set_step_budget(300000); sim::enable_stalls(true);
    job_queue q;
    unsigned P = sim::range(1, 3), C = sim::range(1, 3), per = sim::range(1, 4);
    unsigned total = P * per;
    unsigned pre = sim::pick(3);
    // Blocking pops never exceed the pushes, so every consumer must finish.
    std::vector<unsigned> pops(C, 0); unsigned left = total + pre;
    for (auto &p : pops) { p = sim::pick(left + 1); left -= p; }
    std::vector<std::vector<Op>> hist(P + C + 1);
    uint32_t id = 1;
    for (unsigned i = 0; i < pre; ++i) { Op o{PUSH, id, true, stamp(), 0}; q.push(mk(id++)); o.b = stamp(); hist[P + C].push_back(o); }
    std::vector<std::thread> ts;
    std::vector<uint32_t> base(P); for (auto &b : base) { b = id; id += per; }
    std::vector<unsigned> tries(C), modes(C); for (unsigned c = 0; c < C; ++c) { tries[c] = sim::pick(3); modes[c] = sim::pick(2); }
    for (unsigned p = 0; p < P; ++p) ts.emplace_back([&, p] { for (unsigned i = 0; i < per; ++i) { h::jitter(); Op o{PUSH, base[p] + i, true, stamp(), 0}; q.push(mk(base[p] + i)); o.b = stamp(); hist[p].push_back(o); } });
    for (unsigned c = 0; c < C; ++c) ts.emplace_back([&, c] {
        // try_pop attempts are bounded by what blocking consumers leave over
        for (unsigned i = 0; i < pops[c]; ++i) { h::jitter(); Op o{POP, 0, true, stamp(), 0}; o.val = rd(q.pop()); o.b = stamp(); hist[P + c].push_back(o);
            if (modes[c] && i % 2) { Op s{SIZE, 0, true, stamp(), 0}; s.val = uint32_t(q.size()); s.b = stamp(); hist[P + c].push_back(s); } }
    });
    for (auto &t : ts) t.join();
    // Drain what is left; order and emptiness are part of the history.
    for (;;) { job j; Op o{TRY, 0, true, stamp(), 0}; o.ok = q.try_pop(j); if (o.ok) o.val = rd(j); o.b = stamp(); hist[P + C].push_back(o); if (!o.ok) break; SIM_CHECK(hist[P + C].size() < 100, "queue-duplicate", "draining the queue yields more jobs than were pushed"); }
    SIM_CHECK(q.size() == 0, "queue-size", "drained queue reports size %zu", q.size());
    Lin L; for (auto &v : hist) for (auto &o : v) L.ops.push_back(o);
    uint64_t sg = 0; for (auto &o : L.ops) sg = h::mixh(sg, o.k * 1000 + o.val * 2 + o.ok); sim::state(sg);
    std::vector<int> cnt(id, 0); for (auto &o : L.ops) if ((o.k == POP || o.k == TRY) && o.ok) { SIM_CHECK(o.val < id && ++cnt[o.val] == 1, "queue-duplicate", "job %u dequeued twice", o.val); }
    for (uint32_t i = 1; i < id; ++i) SIM_CHECK(cnt[i] == 1, "queue-lost", "job %u was never dequeued", i);
    if (L.ops.size() <= 40) { int r = L.go(0, {}); if (r < 0) sim::probe("linearizability_budget_exceeded"); else { sim::count_check(); if (!r) sim::fail("not-linearizable", "history of %zu queue operations has no FIFO linearization", L.ops.size()); } }
    h::check_no_threads("consumers");
}
SIM_SCENARIO(queue_try_pop, 2) { // non-blocking consumers racing with producers
    sim::set_step_budget(300000);
    job_queue q; unsigned P = sim::range(1, 3), C = sim::range(1, 3), per = sim::range(1, 3);
    std::vector<std::vector<Op>> hist(P + C + 1); std::vector<std::thread> ts;
    for (unsigned p = 0; p < P; ++p) ts.emplace_back([&, p] { for (unsigned i = 0; i < per; ++i) { uint32_t v = 1 + p * per + i; Op o{PUSH, v, true, stamp(), 0}; q.push(mk(v)); o.b = stamp(); hist[p].push_back(o); h::jitter(); } });
    unsigned nt = sim::range(1, 4);
    for (unsigned c = 0; c < C; ++c) ts.emplace_back([&, c] { for (unsigned i = 0; i < nt; ++i) { h::jitter(); if (i % 3 == 2) { Op s{SIZE, 0, true, stamp(), 0}; s.val = uint32_t(q.size()); s.b = stamp(); hist[P + c].push_back(s); } job j; Op o{TRY, 0, true, stamp(), 0}; o.ok = q.try_pop(j); if (o.ok) o.val = rd(j); else sim::probe("try_pop_empty"); o.b = stamp(); hist[P + c].push_back(o); } });
    for (auto &t : ts) t.join();
    for (;;) { job j; Op o{TRY, 0, true, stamp(), 0}; o.ok = q.try_pop(j); if (o.ok) o.val = rd(j); o.b = stamp(); hist[P + C].push_back(o); if (!o.ok) break; SIM_CHECK(hist[P + C].size() < 100, "queue-duplicate", "draining the queue yields more jobs than were pushed"); }
    Lin L; for (auto &v : hist) for (auto &o : v) L.ops.push_back(o);
    uint64_t sg = 0; for (auto &o : L.ops) sg = h::mixh(sg, o.k * 1000 + o.val * 2 + o.ok); sim::state(sg);
    std::vector<int> cnt(1 + P * per, 0); for (auto &o : L.ops) if (o.k == TRY && o.ok) { SIM_CHECK(o.val < cnt.size() && ++cnt[o.val] == 1, "queue-duplicate", "job %u dequeued twice", o.val); }
    for (uint32_t i = 1; i < cnt.size(); ++i) SIM_CHECK(cnt[i] == 1, "queue-lost", "job %u was never dequeued", i);
    if (L.ops.size() <= 40) { int r = L.go(0, {}); if (r < 0) sim::probe("linearizability_budget_exceeded"); else { sim::count_check(); if (!r) sim::fail("not-linearizable", "history of %zu queue operations has no FIFO linearization", L.ops.size()); } }
}
SIM_SCENARIO(long_queue, 1) { // far more jobs than usual wait in the queue
    sim::set_step_budget(1000000); job_queue q; unsigned n = sim::pick(4) ? sim::range(50, 400) : sim::range(400, 3000), C = sim::range(1, 3);
    bool ahead = sim::pick(2); std::vector<std::vector<uint32_t>> got(C + 1); std::vector<std::thread> ts; unsigned each = n / (C + 1);
    auto take = [&](unsigned c, unsigned k) { for (unsigned i = 0; i < k; ++i) got[c].push_back(rd(q.pop())); };
    if (!ahead) for (unsigned c = 0; c < C; ++c) ts.emplace_back(take, c, each);
    for (uint32_t i = 0; i < n; ++i) q.push(mk(i));
    if (ahead) { SIM_CHECK(q.size() == n, "queue-size", "%u jobs pushed, size is %zu", n, q.size()); for (unsigned c = 0; c < C; ++c) ts.emplace_back(take, c, each); }
    for (auto &t : ts) t.join();
    for (;;) { job j; if (!q.try_pop(j)) break; got[C].push_back(rd(j)); SIM_CHECK(got[C].size() <= n, "queue-duplicate", "more jobs come out than were pushed"); }
    std::vector<uint8_t> seen(n, 0); for (auto &v : got) { uint32_t last = 0; for (size_t i = 0; i < v.size(); ++i) { SIM_CHECK(v[i] < n && ++seen[v[i]] == 1, "queue-duplicate", "job %u dequeued twice", v[i]); SIM_CHECK(!i || v[i] > last, "not-fifo", "job %u dequeued after job %u", v[i], last); last = v[i]; } }
    for (unsigned i = 0; i < n; ++i) SIM_CHECK(seen[i] == 1, "queue-lost", "job %u was never dequeued", i);
    sim::state(h::mixh(n, C));
}
