// P13: multithreaded stepping gives the same world whatever the threads do, and the same as sequential stepping.
#include "islands.hpp"
using namespace edyn;
namespace {
struct BodyState { vector3 p; quaternion q; vector3 v, w; bool asleep; };
struct Frame { std::vector<BodyState> b; std::vector<std::array<unsigned, 3>> contacts; };
struct Program { std::vector<std::vector<sc::Op>> ops; std::vector<double> t; std::vector<char> toggles; double dt = 1.0 / 60; unsigned vit = 8, pit = 3, rit = 8; };

Program make(unsigned max_bodies, unsigned frames, bool crowd, double dt = 1.0 / 60) {
    Program pr; pr.dt = dt; sc::Plan plan; plan.max_bodies = max_bodies; plan.span = sim::pick(2) ? 2 : 4; double t = 0;
    if (crowd) { pr.ops.emplace_back(); pr.t.push_back(t += dt + 1e-7); pr.toggles.push_back(0); unsigned k = sim::range(6, max_bodies); while (plan.live() < k) if (auto o = plan.body()) pr.ops.back().push_back(*o); }
    for (unsigned i = 0; i < frames; ++i) {
        pr.ops.emplace_back(); unsigned k = dt > 0.1 ? sim::pick(8) == 7 : sim::pick(4);
        for (unsigned j = 0; j < k; ++j) if (auto o = plan.next()) { sim::probe(sc::name(o->k)); pr.ops.back().push_back(*o); }
        t += dt * (sim::pick(6) == 5 ? sim::range(2, 5) : 1) + 1e-7; pr.t.push_back(t); pr.toggles.push_back(sim::pick(12) == 11);
    }
    if (sim::pick(3) == 0) { pr.vit = sim::pick(30) == 29 ? 300 : sim::range(1, 12); pr.pit = sim::pick(5); pr.rit = sim::pick(6); }
    return pr;
}
std::vector<Frame> play(const Program &pr, execution_mode mode, unsigned workers, sc::Meshes &ms) {
    sc::World wd; wd.ms = &ms; std::vector<Frame> out; bool paused = false;
    init_config c; c.execution_mode = mode; c.num_worker_threads = workers; c.timestamp = 0.0; c.fixed_dt = scalar(pr.dt); attach(wd.reg, c);
    set_solver_velocity_iterations(wd.reg, pr.vit); set_solver_position_iterations(wd.reg, pr.pit); set_solver_restitution_iterations(wd.reg, pr.rit);
    for (size_t i = 0; i < pr.ops.size(); ++i) {
        for (auto &o : pr.ops[i]) wd.apply(o);
        if (pr.toggles[i]) { paused = !paused; set_paused(wd.reg, paused); }
        update(wd.reg, pr.t[i]);
        Frame f; std::map<entt::entity, unsigned> slot;
        for (unsigned k = 0; k < wd.body.size(); ++k) { auto e = wd.body[k]; if (!wd.reg.valid(e) || !wd.reg.all_of<position>(e)) { f.b.push_back({}); continue; } slot[e] = k;
            BodyState s{wd.reg.get<position>(e), wd.reg.get<orientation>(e), {}, {}, wd.reg.all_of<sleeping_tag>(e)}; if (auto *v = wd.reg.try_get<linvel>(e)) s.v = *v; if (auto *v = wd.reg.try_get<angvel>(e)) s.w = *v; f.b.push_back(s); }
        for (auto [e, m, st] : wd.reg.view<contact_manifold, contact_manifold_state>().each()) { unsigned a = slot.count(m.body[0]) ? slot[m.body[0]] : ~0u, b = slot.count(m.body[1]) ? slot[m.body[1]] : ~0u; if (a > b) std::swap(a, b); f.contacts.push_back({a, b, st.num_points}); }
        if (f.contacts.size() > 4) sim::probe("more than 4 contacts"); if (f.contacts.size() > 24) sim::probe("more than 24 contacts"); { size_t sl = 0; for (auto e : wd.reg.view<contact_manifold, sleeping_tag>()) { (void)e; ++sl; } if (sl) sim::probe("sleeping contacts"); if (sl && f.contacts.size() - sl > 4) sim::probe("sleeping contacts next to many awake"); }
        std::sort(f.contacts.begin(), f.contacts.end()); out.push_back(std::move(f));
    }
    detach(wd.reg); w::finish(); h::check_no_threads("after detach"); return out;
}
bool same(const BodyState &a, const BodyState &b) { return !std::memcmp(&a.p, &b.p, sizeof a.p) && !std::memcmp(&a.q, &b.q, sizeof a.q) && !std::memcmp(&a.v, &b.v, sizeof a.v) && !std::memcmp(&a.w, &b.w, sizeof a.w) && a.asleep == b.asleep; }
void compare(const std::vector<Frame> &a, const std::vector<Frame> &b, const char *what) {
    for (size_t i = 0; i < a.size(); ++i) {
        SIM_CHECK(a[i].contacts == b[i].contacts, "contacts-differ", "%s: contact pairs differ after update %zu (%zu and %zu)", what, i, a[i].contacts.size(), b[i].contacts.size());
        for (size_t k = 0; k < a[i].b.size(); ++k) SIM_CHECK(same(a[i].b[k], b[i].b[k]), "state-differs", "%s: body %zu differs after update %zu: (%.9g %.9g %.9g)%s and (%.9g %.9g %.9g)%s", what, k, i, a[i].b[k].p.x, a[i].b[k].p.y, a[i].b[k].p.z, a[i].b[k].asleep ? " asleep" : "", b[i].b[k].p.x, b[i].b[k].p.y, b[i].b[k].p.z, b[i].b[k].asleep ? " asleep" : "");
        uint64_t hsh = a[i].contacts.size(); for (auto &s : a[i].b) { uint32_t u; std::memcpy(&u, &s.p.y, 4); hsh = h::mixh(hsh, u); } sim::state(hsh);
    }
}
}
SIM_SCENARIO(threads_do_not_matter, 3) {
    sim::set_step_budget(80000000); sim::ignore_silent_stores(true); sc::Meshes ms;
    auto pr = make(sim::range(6, 14), sim::range(1, 8), sim::pick(3) != 0);
    unsigned wa = sim::range(1, 3), wb = sim::range(1, 5);
    auto a = play(pr, execution_mode::sequential_multithreaded, wa, ms), b = play(pr, execution_mode::sequential_multithreaded, wb, ms);
    compare(a, b, "two multithreaded runs");
}
SIM_SCENARIO(same_as_sequential, 3) {
    sim::set_step_budget(80000000); sim::ignore_silent_stores(true); sc::Meshes ms;
    auto pr = make(sim::range(6, 14), sim::range(1, 8), sim::pick(3) != 0);
    auto a = play(pr, execution_mode::sequential, 1, ms), b = play(pr, execution_mode::sequential_multithreaded, sim::range(1, 5), ms);
    compare(a, b, "sequential and multithreaded");
}
// Some groups come to rest and fall asleep while others go on colliding.
SIM_SCENARIO(some_groups_asleep, 1) {
    sim::set_step_budget(80000000); sim::ignore_silent_stores(true); sc::Meshes ms;
    auto pr = make(sim::range(8, 12), 2, false, 0.125); pr.ops.clear(); pr.t.clear(); pr.toggles.clear(); double t = 0; unsigned slots = 0;
    auto frame = [&](unsigned n) { pr.ops.emplace_back(); t += pr.dt * n + 1e-7; pr.t.push_back(t); pr.toggles.push_back(0); };
    auto body = [&](unsigned kind, unsigned shp, vector3 p, vector3 v, bool grav) { sc::Op o{sc::ADD_BODY}; o.a = slots++; o.t = kind; o.b = shp; o.p = p; o.v = v; o.f = !grav; o.s = 1; pr.ops.back().push_back(o); return o.a; };
    frame(1); body(2, 8, {0, 0, 0}, {}, false);                                                                    // floor
    unsigned still = sim::range(1, 3); for (unsigned i = 0; i < still; ++i) body(0, sim::pick(2), {scalar(-10 - 3 * int(i)), scalar(0.5), 0}, {}, true);
    unsigned act = sim::range(3, 6); std::vector<unsigned> busy; for (unsigned i = 0; i < act; ++i) busy.push_back(body(0, sim::pick(2) ? 1 : 0, {scalar(i) * scalar(0.9), scalar(0.5), 0}, {scalar(sim::pick(3)), 0, scalar(sim::pick(3))}, true));
    unsigned n = sim::range(18, 30);
    for (unsigned i = 0; i < n; ++i) { frame(1); if (i % 4 == 0) for (unsigned b : busy) { sc::Op o{sc::SET_VEL}; o.a = b; o.v = {scalar(sim::pick(5)) - 2, 0, scalar(sim::pick(5)) - 2}; pr.ops.back().push_back(o); } if (i > 16 && sim::pick(6) == 5) { sc::Op o{sc::WAKE}; o.a = 1; pr.ops.back().push_back(o); } }
    auto a = play(pr, execution_mode::sequential, 1, ms), b = play(pr, execution_mode::sequential_multithreaded, sim::range(1, 4), ms);
    compare(a, b, "sequential and multithreaded");
}
// Many bodies in a few groups: work inside one group is divided as well.
SIM_SCENARIO(large_groups, 1) {
    sim::set_step_budget(200000000); sim::ignore_silent_stores(true); sc::Meshes ms; Program pr; unsigned slots = 0; double t = 0;
    auto frame = [&] { pr.ops.emplace_back(); t += pr.dt + 1e-7; pr.t.push_back(t); pr.toggles.push_back(0); };
    auto body = [&](unsigned kind, unsigned shp, vector3 p, vector3 v) { sc::Op o{sc::ADD_BODY}; o.a = slots++; o.t = kind; o.b = shp; o.p = p; o.v = v; o.s = 1; pr.ops.back().push_back(o); return o.a; };
    frame(); unsigned g = sim::range(2, 3);
    if (sim::pick(2)) for (unsigned k = 0; k < g; ++k) { unsigned n = sim::range(60, 75), prev = 0;
        for (unsigned i = 0; i < n; ++i) { unsigned b = body(0, 0, {scalar(2 * i), 0, scalar(20 * k)}, {0, scalar(i % 5), 0}); if (i) { sc::Op o{sc::ADD_JOINT}; o.a = prev; o.b = b; o.t = 0; pr.ops.back().push_back(o); } prev = b; } }
    else { body(2, 8, {0, 0, 0}, {}); unsigned n = sim::range(34, 40); for (unsigned i = 0; i < n; ++i) body(0, 1, {scalar(i % 8) * scalar(1.5), scalar(0.39), scalar(i / 8) * scalar(1.5)}, {scalar(sim::pick(2)), 0, 0}); }
    unsigned n = sim::range(1, 2); for (unsigned i = 0; i < n; ++i) frame();
    auto a = play(pr, execution_mode::sequential, 1, ms), b = play(pr, execution_mode::sequential_multithreaded, sim::range(1, 4), ms);
    compare(a, b, "sequential and multithreaded");
}
