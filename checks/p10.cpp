// P10: in asynchronous mode application and simulation agree once edits stop.
#include "async.hpp"
using namespace edyn;
namespace {
as::Snap g_worker; bool g_taken; int g_inits, g_deinits;
void on_init(entt::registry &) { ++g_inits; }
void on_deinit(entt::registry &r) { g_worker = as::snapshot(r, "the simulation"); g_taken = true; ++g_deinits; }
void nap(unsigned ms) { sim::sleep_ns(uint64_t(1000000) * ms); }
}
SIM_SCENARIO(edits_converge, 1) {
    sim::set_step_budget(60000000); sim::enable_stalls(true); sim::ignore_silent_stores(true); g_worker = {}; g_taken = false; g_inits = g_deinits = 0;
    sc::Meshes ms; sc::World wd; wd.ms = &ms; sc::Plan plan; plan.max_bodies = sim::range(2, 7); plan.span = sim::pick(2) ? 2 : 4; auto &r = wd.reg;
    init_config c; c.execution_mode = execution_mode::asynchronous; c.num_worker_threads = sim::range(1, 2); c.fixed_dt = sim::pick(2) ? scalar(1.0 / 30) : scalar(1.0 / 8); attach(r, c);
    set_init_callback(r, &on_init); set_deinit_callback(r, &on_deinit); register_external_components<as::uid>(r);
    unsigned next = 1; bool paused = false, reused = false; unsigned n = sim::range(1, 12);
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = sim::pick(5);
        for (unsigned j = 0; j < k; ++j) if (auto o = plan.next()) {
            if (o->k == sc::CLEAR_BODY) for (int q = 0; q < 4; ++q) { nap(60); update(r); } // nothing of the former body may be in flight when its entity is used again
            reused |= o->k == sc::CLEAR_BODY || o->k == sc::DEL_BODY; sim::probe(sc::name(o->k)); sim::tracef("%s a=%u b=%u t=%u f=%d", sc::name(o->k), o->a, o->b, o->t, o->f); wd.apply(*o);
            if (o->k == sc::ADD_BODY || (o->k == sc::CLEAR_BODY && o->f)) { r.emplace_or_replace<as::uid>(wd.body.back(), as::uid{next++}); sim::tracef("  body uid %u entity %x", next - 1, as::id(wd.body.back())); }
            else if (o->k == sc::ADD_JOINT) r.emplace<as::uid>(wd.joint.back(), as::uid{next++});
            else if (o->k == sc::CLEAR_BODY) r.remove<as::uid>(wd.body[o->a]);
        }
        unsigned op = sim::pick(10);
        if (op == 8) { paused = !paused; set_paused(r, paused); } else if (op == 9 && paused) step_simulation(r);
        if (sim::pick(4)) nap(sim::range(1, 60)); update(r);
    }
    if (paused) set_paused(r, false);
    sim::stop_faults(); for (int i = 0; i < 8; ++i) { nap(60); update(r); }
    set_paused(r, true); for (int i = 0; i < 8; ++i) { nap(60); update(r); }
    auto m = as::snapshot(r, "the application"); sim::state(h::mixh(h::mixh(m.bodies.size(), m.joints.size()), h::mixh(m.contacts.size() * 64 + m.points, m.islands)));
    if (m.contacts.size()) sim::probe("contacts compared"); if (m.joints.size()) sim::probe("constraints compared");
    detach(r); SIM_CHECK(g_taken && g_inits == 1 && g_deinits == 1, "callbacks", "%d initialization and %d finalization calls", g_inits, g_deinits);
    as::compare(m, g_worker, !reused); w::finish(); h::check_no_threads("after detach");
}
