// P14: islands are exactly the groups of connected bodies and sleep as a whole.
#include "islands.hpp"
using namespace edyn;
namespace {
struct Snap { vector3 p; bool asleep; };
}
SIM_SCENARIO(islands_follow_connections, 3) {
    sim::set_step_budget(20000000); sim::ignore_silent_stores(true);
    sc::Meshes ms; sc::World wd; wd.ms = &ms; sc::Plan plan; plan.max_bodies = sim::range(2, 9); plan.span = sim::pick(2) ? 3 : 8;
    bool mt = sim::pick(3) == 2; double t = 0;
    init_config c; c.execution_mode = mt ? execution_mode::sequential_multithreaded : execution_mode::sequential; c.num_worker_threads = 2; c.timestamp = 0.0; attach(wd.reg, c);
    const double dt = get_fixed_dt(wd.reg); unsigned n = sim::range(2, 24); bool paused = false;
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = sim::range(1, 4);
        for (unsigned j = 0; j < k; ++j) if (auto o = plan.next()) { sim::probe(sc::name(o->k)); sim::tracef("%s a=%u b=%u t=%u p=(%g,%g,%g) v=(%g,%g,%g)", sc::name(o->k), o->a, o->b, o->t, o->p.x, o->p.y, o->p.z, o->v.x, o->v.y, o->v.z); wd.apply(*o); }
        if (sim::pick(10) == 9) { paused = !paused; set_paused(wd.reg, paused); }
        t += dt * (sim::pick(6) == 5 ? sim::range(2, 10) : 1) + 1e-7; update(wd.reg, t);
        // With a step (or a paused update) behind us the bookkeeping must be settled.
        if (getenv("DUMP")) { sim::tracef("--- update to %g", t); isl::dump(wd.reg); }
        sim::state(isl::check(wd.reg));
    }
    detach(wd.reg); w::finish(); h::check_no_threads("after detach");
}
// A group that is still falls asleep as a whole after the documented time, stays put while
// asleep, and wakes as a whole when something happens to any part of it.
SIM_SCENARIO(still_groups_sleep_and_wake, 2) {
    sim::set_step_budget(20000000); sim::ignore_silent_stores(true);
    entt::registry reg; double t = 0; const double dt = sim::pick(2) ? 0.05 : 0.125; bool mt = sim::pick(4) == 3;
    init_config c; c.execution_mode = mt ? execution_mode::sequential_multithreaded : execution_mode::sequential; c.num_worker_threads = 2; c.timestamp = 0.0; c.fixed_dt = scalar(dt); attach(reg, c);
    struct B { entt::entity e; bool alive = true, nosleep; double moved = 0, edited = 0, woken = -100; bool was_asleep = false; vector3 at; bool expect_awake = false; };
    std::vector<B> bs; struct J { entt::entity e; unsigned a, b; bool alive = true; }; std::vector<J> js; unsigned nb = sim::range(2, 6), fixed = sim::pick(3) == 0;
    entt::entity anchor = entt::null;
    if (fixed) { rigidbody_def d; d.kind = rigidbody_kind::rb_static; d.position = {0, 50, 0}; d.shape = sphere_shape{scalar(0.5)}; anchor = make_rigidbody(reg, d); }
    auto add = [&] { auto d = w::ball({scalar(4 * bs.size()), 0, 0}); d.gravity = vector3_zero; unsigned k = sim::pick(6); if (k == 4) d.linvel = {0, scalar(0.5), 0}; if (k == 5) d.linvel = {0, 0, scalar(0.002)};
        d.sleeping_disabled = sim::pick(8) == 7; bs.push_back({make_rigidbody(reg, d), true, *&d.sleeping_disabled}); bs.back().moved = bs.back().edited = t; };
    auto joint = [&](unsigned a, unsigned b) { js.push_back({make_constraint<null_constraint>(reg, bs[a].e, bs[b].e), a, b}); };
    auto group = [&](unsigned i) { std::vector<unsigned> g{i}; std::vector<char> in(bs.size(), 0); in[i] = 1; for (size_t k = 0; k < g.size(); ++k) for (auto &j : js) if (j.alive && (j.a == g[k] || j.b == g[k])) { unsigned o = j.a == g[k] ? j.b : j.a; if (!in[o]) { in[o] = 1; g.push_back(o); } } return g; };
    // An awake group that is touched may still be about to fall asleep; one that was asleep must wake.
    auto touch = [&](unsigned i, bool wakes) { bool all = wakes; for (unsigned k : group(i)) all &= bs[k].was_asleep; for (unsigned k : group(i)) { bs[k].edited = t; if (all) { bs[k].woken = t; bs[k].expect_awake = true; } } };
    for (unsigned i = 0; i < nb; ++i) add();
    if (fixed) make_constraint<null_constraint>(reg, bs[0].e, anchor);
    for (unsigned i = 1; i < nb; ++i) if (sim::pick(2)) joint(i - 1, i);
    unsigned rounds = sim::range(1, 5);
    for (unsigned r = 0; r < rounds; ++r) {
        unsigned steps = sim::pick(3) ? unsigned(2.0 / dt) + sim::pick(12) : sim::pick(20);
        for (unsigned s = 0; s <= steps; ++s) {
            t += dt + 1e-7; update(reg, t); if (s % 4 == 0) sim::state(isl::check(reg));
            for (unsigned i = 0; i < bs.size(); ++i) if (bs[i].alive) { auto &b = bs[i];
                bool asleep = reg.all_of<sleeping_tag>(b.e); auto v = length(reg.get<linvel>(b.e)); vector3 p = reg.get<position>(b.e);
                if (v > 0.005) b.moved = t;
                if (asleep) {
                    SIM_CHECK(v == 0 && length(reg.get<angvel>(b.e)) == 0, "asleep-moving", "sleeping body has velocity %g", v);
                    if (b.was_asleep) SIM_CHECK(std::memcmp(&p, &b.at, sizeof p) == 0, "asleep-moving", "sleeping body moved from (%g %g %g) to (%g %g %g)", b.at.x, b.at.y, b.at.z, p.x, p.y, p.z);
                    SIM_CHECK(!b.expect_awake, "not-woken", "body %u was not woken by a change to its group", i);
                    if (!b.was_asleep) sim::probe("fell asleep");
                }
                b.expect_awake = false; b.was_asleep = asleep; b.at = p;
            }
            for (unsigned i = 0; i < bs.size(); ++i) if (bs[i].alive) { double last = 0, moved = 0; bool no = false;
                for (unsigned k : group(i)) { last = std::max({last, bs[k].moved, bs[k].edited, bs[k].woken}); moved = std::max({moved, bs[k].moved, bs[k].woken}); no |= bs[k].nosleep; }
                if (no) SIM_CHECK(!bs[i].was_asleep, "sleep-disabled", "body %u sleeps although sleeping is disabled in its group", i);
                else if (t - last > 2 + 5 * dt) SIM_CHECK(bs[i].was_asleep, "never-sleeps", "body %u is still awake %g s after its group became still", i, t - last);
                if (t - moved < 2 - 2 * dt) SIM_CHECK(!bs[i].was_asleep, "sleeps-early", "body %u sleeps %g s after its group was moving or woken", i, t - moved);
            }
        }
        unsigned i = sim::pick(unsigned(bs.size())); if (!bs[i].alive) continue;
        switch (sim::pick(7)) {
        case 0: touch(i, true); wake_up_entity(reg, bs[i].e); sim::probe("wake one"); for (unsigned k : group(i)) SIM_CHECK(!reg.all_of<sleeping_tag>(bs[k].e), "not-woken", "waking one body left body %u of its group asleep", k); break;
        case 1: { unsigned k = sim::pick(unsigned(bs.size())); if (k == i || !bs[k].alive) break; joint(i, k); touch(i, true); sim::probe("connect"); break; }
        case 2: for (auto &j : js) if (j.alive) { touch(j.a, true); j.alive = false; reg.destroy(j.e); touch(j.a, true); touch(j.b, true); sim::probe("disconnect"); break; } break;
        case 3: { if (bs.size() < 3) break; touch(i, true); auto g = group(i); reg.destroy(bs[i].e); bs[i].alive = false; for (auto &j : js) if (j.a == i || j.b == i) j.alive = false; for (unsigned k : g) if (k != i) touch(k, true); sim::probe("destroy"); break; }
        case 4: touch(i, true); reg.get<linvel>(bs[i].e) = {0, scalar(sim::pick(2)), 0}; reg.patch<linvel>(bs[i].e); wake_up_entity(reg, bs[i].e); break;
        case 5: { auto d = w::ball({scalar(4 * i), scalar(1.2) + reg.get<position>(bs[i].e).y, reg.get<position>(bs[i].e).z}); d.gravity = vector3_zero; d.linvel = {0, -3, 0}; make_rigidbody(reg, d); sim::probe("struck"); r = rounds; // something flies into a sleeping group
            for (int s = 0; s < 6; ++s) { t += dt + 1e-7; update(reg, t); sim::state(isl::check(reg)); } SIM_CHECK(!reg.all_of<sleeping_tag>(bs[i].e), "not-woken", "body hit by another is still asleep");
            for (unsigned k : group(i)) SIM_CHECK(!reg.all_of<sleeping_tag>(bs[k].e), "not-woken", "body %u of a group that was hit is still asleep", k); break; }
        case 6: if (anchor != entt::null && i == 0) { touch(0, true); reg.destroy(anchor); anchor = entt::null; sim::probe("destroy anchor"); } break;
        }
    }
    detach(reg); w::finish(); h::check_no_threads("after detach");
}
