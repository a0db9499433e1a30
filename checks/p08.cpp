// P08: updates turn elapsed time into whole fixed steps, losing and inventing none.
#include "world.hpp"
#include <atomic>
using namespace edyn;
namespace {
std::atomic<int> g_pre, g_post;
void pre(entt::registry &) { g_pre.fetch_add(1); }
void post(entt::registry &) { g_post.fetch_add(1); }
double g_now; // time given by the application's own clock
double app_time() { return g_now; }

double gap(double dt) {
    switch (sim::pick(8)) {
    case 0: return dt * (0.05 + 0.9 * sim::pick(1000) / 1000.0);
    case 1: return 0;
    case 2: return dt * (1 + sim::pick(1000) / 1000.0);
    case 3: return dt * sim::pick(4) + dt * 0.5;
    case 4: return dt * sim::pick(40) + dt * 0.3;          // beyond the usual cap
    case 5: return dt * 0.001 * sim::pick(100);
    case 6: return 0.5 + sim::pick(100);                   // long stall
    default: return dt;
    }
}
struct Model {
    double dt, acc = 0, last; unsigned cap = 10; bool paused = false;
    // Time that may or may not count: what passed while paused since the last update.
    double slack = 0;
};
}
SIM_SCENARIO(steps_match_elapsed_time, 5) {
    sim::set_step_budget(4000000);
    g_pre = g_post = 0; entt::registry reg;
    scalar dts[] = {scalar(1.0 / 60), scalar(1.0 / 120), scalar(1.0 / 50), scalar(0.125), scalar(1.0 / 240)};
    Model m; m.dt = dts[sim::pick(5)];
    bool mt = sim::pick(4) == 3, own_clock = sim::pick(3) == 2;
    g_now = m.last = sim::pick(3) == 0 ? 0 : sim::pick(100000) * 0.37;
    init_config c; c.execution_mode = mt ? execution_mode::sequential_multithreaded : execution_mode::sequential; c.num_worker_threads = 1 + mt; c.fixed_dt = scalar(m.dt); c.timestamp = m.last;
    attach(reg, c); set_pre_step_callback(reg, &pre); set_post_step_callback(reg, &post);
    if (own_clock) set_time_source(reg, &app_time);
    vector3 v{1 + scalar(sim::pick(4)), -scalar(sim::pick(3)), scalar(sim::pick(3))}, p0{0, 0, 0};
    auto def = w::ball(p0); def.linvel = v; def.gravity = vector3_zero; auto e = make_rigidbody(reg, def);
    double travelled = 0; unsigned n = sim::range(1, 14); int total = 0; double maxd = 0;
    for (unsigned i = 0; i < n; ++i) {
        unsigned op = sim::pick(12); int before = g_post.load(), pb = g_pre.load(); bool updated = false;
        if (op == 9) {                                     // pause or resume
            bool want = sim::pick(2) ? !m.paused : m.paused;
            set_paused(reg, want); m.paused = want; m.acc = 0;
            SIM_CHECK(is_paused(reg) == want, "pause", "paused state is not what was set");
            SIM_CHECK(g_post.load() == before, "pause-steps", "changing the pause state ran a step"); sim::probe(want ? "paused" : "resumed");
        } else if (op == 10 && m.paused) {                 // single step
            g_now = std::max(g_now, m.last) + gap(m.dt);
            if (own_clock && sim::pick(2)) step_simulation(reg); else step_simulation(reg, g_now);
            m.last = g_now; travelled += m.dt; ++total; sim::probe("single step");
            SIM_CHECK(g_post.load() == before + 1 && g_pre.load() == pb + 1, "single-step", "one requested step ran %d steps", g_post.load() - before);
        } else if (op == 11 && i) {                        // settings
            if (sim::pick(2)) { m.cap = sim::range(1, 12); set_max_steps_per_update(reg, m.cap); SIM_CHECK(get_max_steps_per_update(reg) == m.cap, "settings", "step limit"); }
            else if (m.acc < 0.9 * (1.0 / 240)) { m.dt = dts[sim::pick(5)]; set_fixed_dt(reg, scalar(m.dt)); m.dt = get_fixed_dt(reg); sim::probe("dt changed"); }
        } else {                                           // update
            double g = gap(m.dt), t = m.last + g;
            if (uint32_t b = sim::fault_mag(sim::F_CLOCK_JUMP_BACK, 1, 6, 1000)) { t = m.last - b * 0.011; sim::probe("time went back"); }
            g_now = t; double elapsed = std::max(t - m.last, 0.0); m.last = t; updated = true;
            if (own_clock && sim::pick(2)) update(reg); else update(reg, t);
            int ran = g_post.load() - before; SIM_CHECK(g_pre.load() - pb == ran, "callbacks", "%d pre-step and %d post-step calls in one update", g_pre.load() - pb, ran);
            if (m.paused) { SIM_CHECK(ran == 0, "paused-steps", "a paused simulation ran %d steps", ran); }
            else {
                m.acc += elapsed; double q = m.acc / m.dt; double eps = 1e-6 + 1e-12 * std::abs(t) / m.dt;
                long lo = long(std::floor(q - eps)), hi = long(std::floor(q + eps)); if (lo < 0) lo = 0;
                if (q > m.cap + 1) sim::probe("capped");
                bool ok = false; long want = hi;
                for (long k = lo; k <= hi; ++k) if (std::min<long>(k, m.cap) == ran) { ok = true; want = k; }
                // A whole number of steps pending, give or take rounding: follow the engine's reading.
                if (lo != hi && std::abs(get_simulation_timestamp(reg) - (t - (m.acc - lo * m.dt))) < 1e-6 * (1 + m.dt)) want = lo;
                SIM_CHECK(ok, "step-count", "update %u after %.9f s with %.9f s pending ran %d steps of %.9f s (limit %u), expected %ld", i, elapsed, m.acc, ran, m.dt, m.cap, std::min<long>(hi, m.cap));
                m.acc -= want * m.dt; total += ran; travelled += ran * m.dt;
            }
        }
        auto &pos = reg.get<position>(e); auto &pp = reg.get<present_position>(e);
        vector3 expect{scalar(v.x * travelled), scalar(v.y * travelled), scalar(v.z * travelled)};
        double tol = 1e-4 * (1 + travelled * length(v)); maxd = std::max(maxd, w::dist(pos, expect));
        SIM_CHECK(w::dist(pos, expect) <= tol, "travel", "body is at (%g %g %g) after %d steps, expected (%g %g %g)", pos.x, pos.y, pos.z, total, expect.x, expect.y, expect.z);
        if (updated && !m.paused) {
            // Shown position: one step behind the given time, on the body's path.
            double back = m.acc - m.dt; vector3 q{scalar(pos.x + v.x * back), scalar(pos.y + v.y * back), scalar(pos.z + v.z * back)};
            SIM_CHECK(w::dist(pp, q) <= tol + 1e-5 * std::abs(m.last) * length(v) * 1e-6 + 1e-3 * m.dt * length(v), "presentation", "shown at (%g %g %g), expected (%g %g %g)", pp.x, pp.y, pp.z, q.x, q.y, q.z);
        } else if (updated && m.paused) SIM_CHECK(w::dist(pp, pos) <= 1e-6, "presentation", "while paused the body is not shown where it is");
        if (updated) SIM_CHECK(std::abs(get_simulation_timestamp(reg) - (m.last - m.acc)) < 1e-6, "timestamp", "simulation time is %.9f, expected %.9f", get_simulation_timestamp(reg), m.last - m.acc);
    }
    sim::state(h::mixh(total, uint64_t(m.acc / m.dt * 50)));
    detach(reg); w::finish(); h::check_no_threads("after detach");
}

// Asynchronous mode: the simulation thread keeps pace with the clock, never runs
// ahead of it, obeys pause and runs exactly the requested single steps.
SIM_SCENARIO(async_keeps_pace, 3) {
    sim::set_step_budget(8000000); sim::enable_stalls(true);
    g_pre = g_post = 0; entt::registry reg;
    const scalar dt = sim::pick(2) ? scalar(1.0 / 60) : scalar(1.0 / 30);
    w::attach(reg, execution_mode::asynchronous, 1, dt);
    double t0 = performance_time(); // the worker may have started counting before this
    set_pre_step_callback(reg, &pre); set_post_step_callback(reg, &post);
    auto def = w::ball({0, 0, 0}); def.linvel = {2, 0, 0}; def.gravity = vector3_zero; def.sleeping_disabled = true; auto e = make_rigidbody(reg, def);
    double pause_time = 0; unsigned phases = sim::range(1, 4);
    for (unsigned ph = 0; ph < phases; ++ph) {
        unsigned frames = sim::range(1, 6);
        for (unsigned i = 0; i < frames; ++i) {
            sim::sleep_ns(uint64_t(1000000) * sim::range(1, 40)); update(reg);
            double now = performance_time(); int k = g_post.load();
            SIM_CHECK(k * double(dt) <= now - t0 + dt + 1e-9 - pause_time, "runs-ahead", "%d steps of %g s in %g s", k, dt, now - t0 - pause_time);
        }
        if (sim::pick(2)) {
            // Pausing must reach the simulation and stop it.
            set_paused(reg, true); update(reg); double tp = performance_time();
            for (int i = 0; i < 400; ++i) { int k = g_post.load(); sim::sleep_ns(50000000); update(reg); if (i > 3 && g_post.load() == k) break; SIM_CHECK(i < 399, "pause-ignored", "simulation does not stop when paused"); }
            int k = g_post.load(), want = sim::pick(4); auto x0 = reg.get<position>(e).x;
            for (int i = 0; i < want; ++i) { step_simulation(reg); if (sim::pick(2)) { sim::sleep_ns(uint64_t(1000000) * sim::pick(30)); update(reg); } }
            for (int i = 0; i < 40; ++i) { sim::sleep_ns(50000000); update(reg); SIM_CHECK(g_post.load() <= k + want, "single-step", "%d single steps requested, %d ran", want, g_post.load() - k); if (i > 4 && g_post.load() == k + want) break; }
            SIM_CHECK(g_post.load() == k + want, "single-step", "%d single steps requested, %d ran", want, g_post.load() - k);
            for (int i = 0; i < 3; ++i) { sim::sleep_ns(50000000); update(reg); }
            auto x1 = reg.get<position>(e).x;
            SIM_CHECK(std::abs((x1 - x0) - 2 * dt * want) < 1e-4 * (1 + std::abs(x1)), "single-step", "%d single steps moved the body by %g, expected %g", want, x1 - x0, 2 * dt * want);
            set_paused(reg, false); update(reg); pause_time += 0; t0 += 0; // resumed; allowance below
            double tr = performance_time(); int b = g_post.load(); double lim = 0;
            for (int i = 0; i < 6; ++i) { sim::sleep_ns(10000000); update(reg); lim = performance_time() - tr; int s = g_post.load() - b; SIM_CHECK(s * double(dt) <= lim + dt + 0.02, "resume-burst", "%d steps of %g s ran within %g s of resuming", s, dt, lim); }
            t0 = performance_time() - g_post.load() * double(dt) - dt; (void)tp; // restart the pace bound from what has been simulated
        }
    }
    // Once nothing disturbs it, the simulation makes up its pace within bounded time.
    sim::stop_faults();
    int k0 = g_post.load(); double s0 = performance_time();
    for (int i = 0; i < 60; ++i) { sim::sleep_ns(10000000); update(reg); }
    double el = performance_time() - s0; int ran = g_post.load() - k0;
    SIM_CHECK(ran * double(dt) >= el - 6 * dt - 0.1, "stalled", "only %d steps of %g s in %g s", ran, dt, el);
    auto &pos = reg.get<position>(e); int done = g_post.load();
    SIM_CHECK(std::abs(pos.x - 2 * dt * done) <= 2 * dt * 6 + 1e-3, "travel", "body at %g after %d steps", pos.x, done);
    SIM_CHECK(g_pre.load() >= done && g_pre.load() <= done + 1, "callbacks", "%d pre-step and %d post-step calls", g_pre.load(), done);
    sim::state(h::mixh(done, phases));
    detach(reg); w::finish(); h::check_no_threads("after detach");
}
