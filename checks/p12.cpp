// P12: attaching and detaching at any moment ends cleanly and leaves nothing behind.
#include "async.hpp"
#include <edyn/collision/raycast.hpp>
#include <edyn/comp/rotated_mesh_list.hpp>
#include <edyn/comp/tree_resident.hpp>
#include <edyn/comp/child_list.hpp>
#include <edyn/simulation/stepper_sequential.hpp>
#include <edyn/simulation/stepper_async.hpp>
#include <edyn/collision/contact_manifold_map.hpp>
#include <edyn/collision/broadphase.hpp>
#include <edyn/comp/delta_linvel.hpp>
#include <edyn/comp/delta_angvel.hpp>
#include <edyn/parallel/message_dispatcher.hpp>
using namespace edyn;
namespace {
int g_init, g_deinit, g_pre, g_post; bool g_detached; unsigned g_late;
void on_init(entt::registry &) { SIM_CHECK(!g_detached, "late-callback", "initialization callback after the simulation was detached"); ++g_init; }
void on_deinit(entt::registry &) { SIM_CHECK(!g_detached, "late-callback", "finalization callback after the simulation was detached"); ++g_deinit; SIM_CHECK(g_pre == g_post, "callbacks", "simulation ended inside of a step (%d begun, %d ended)", g_pre, g_post); }
void on_pre(entt::registry &) { SIM_CHECK(!g_detached, "late-callback", "step callback after the simulation was detached"); ++g_pre; SIM_CHECK(g_pre == g_post + 1, "callbacks", "step began inside of another"); }
void on_post(entt::registry &) { SIM_CHECK(!g_detached, "late-callback", "step callback after the simulation was detached"); ++g_post; SIM_CHECK(g_pre == g_post, "callbacks", "step ended that had not begun"); }
void on_ray(raycast_id_type, const raycast_result &, vector3, vector3) { if (g_detached) ++g_late; }
void nap(unsigned ms) { sim::sleep_ns(uint64_t(1000000) * ms); }
}
SIM_SCENARIO(attach_detach, 1) {
    sim::set_step_budget(60000000); sim::enable_stalls(true); sim::ignore_silent_stores(true); g_late = 0;
    unsigned cycles = sim::range(1, 3); sc::Meshes ms; sc::World wd; wd.ms = &ms; auto &r = wd.reg; auto mine = r.create(); r.emplace<as::uid>(mine, as::uid{7});
    for (unsigned c = 0; c < cycles; ++c) {
        g_init = g_deinit = g_pre = g_post = 0; g_detached = false; wd.body.clear(); wd.joint.clear(); sc::Plan plan; plan.max_bodies = sim::range(1, 8); plan.span = sim::pick(2) ? 2 : 4;
        unsigned mode = sim::pick(3); init_config k; k.execution_mode = mode == 2 ? execution_mode::sequential_multithreaded : mode == 1 ? execution_mode::sequential : execution_mode::asynchronous; k.num_worker_threads = sim::range(1, 2); k.fixed_dt = sim::pick(2) ? scalar(1.0 / 30) : scalar(1.0 / 8); attach(r, k);
        sim::tracef("attached, mode %u", mode); bool cb = sim::pick(2); if (cb) { set_init_callback(r, &on_init); set_deinit_callback(r, &on_deinit); set_pre_step_callback(r, &on_pre); set_post_step_callback(r, &on_post); } if (sim::pick(2)) register_external_components<as::uid>(r);
        bool settle = cb && sim::pick(2), paused = false; unsigned n = sim::pick(7);
        for (unsigned i = 0; i < n; ++i) {
            unsigned e = sim::pick(5); for (unsigned j = 0; j < e; ++j) if (auto o = plan.next()) { if (mode == 0 && o->k == sc::CLEAR_BODY) for (int q = 0; q < 4; ++q) { nap(60); update(r); } sim::tracef("%s a=%u b=%u t=%u", sc::name(o->k), o->a, o->b, o->t); wd.apply(*o); }
            if (mode == 0 && sim::pick(3) == 0) raycast_async(r, sc::pt(4), sc::pt(4) + vector3{scalar(0.01), 0, 0}, raycast_delegate_type(entt::connect_arg<&on_ray>));
            if (sim::pick(6) == 0) { paused = !paused; set_paused(r, paused); } if (sim::pick(8) == 0) set_fixed_dt(r, scalar(1.0 / sim::range(8, 60)));
            if (sim::pick(3)) nap(sim::range(1, 90)); update(r);
        }
        if (settle) for (int i = 0; i < 4; ++i) { nap(50); update(r); }
        if (sim::pick(2)) for (auto b : wd.body) if (r.valid(b) && sim::pick(2)) r.destroy(b);
        sim::tracef("detach"); detach(r); g_detached = true;
        if (mode == 0) { SIM_CHECK(g_init == g_deinit || (g_init == 0 && g_deinit <= 1), "callbacks", "%d initialization and %d finalization callbacks", g_init, g_deinit); if (settle) SIM_CHECK(g_deinit == 1, "callbacks", "%d finalization callbacks", g_deinit); }
        SIM_CHECK(mode == 0 || g_pre == g_post, "callbacks", "%d steps begun, %d ended", g_pre, g_post); SIM_CHECK(g_late == 0, "late-callback", "ray answered after the simulation was detached");
        SIM_CHECK(!r.ctx().contains<settings>() && !r.ctx().contains<entity_graph>() && !r.ctx().contains<broadphase>() && !r.ctx().contains<stepper_async>() && !r.ctx().contains<stepper_sequential>() && !r.ctx().contains<contact_manifold_map>(), "context", "registry still holds context of the simulation after detaching");
        std::apply([&](auto... t) { auto one = [&](auto t) { using T = decltype(t); SIM_CHECK(r.storage<T>().empty(), "left-behind", "%u entities still have %s after detaching", unsigned(r.storage<T>().size()), as::tname<T>().c_str()); }; (one(t), ...); }, std::tuple_cat(shared_components_t{}, std::tuple<graph_node, graph_edge, tree_resident, island_tag>{}));
        SIM_CHECK(r.storage<rotated_mesh_list>().empty(), "left-behind", "rotated meshes left behind"); SIM_CHECK(r.valid(mine) && r.get<as::uid>(mine).v == 7, "app-entity", "an entity of the application was changed");
        if (ms.hull) SIM_CHECK(ms.hull.use_count() == 1, "mesh-reference", "%ld references to a convex mesh remain after detaching", ms.hull.use_count() - 1); if (ms.ground) SIM_CHECK(ms.ground.use_count() == 1, "mesh-reference", "%ld references to a triangle mesh remain after detaching", ms.ground.use_count() - 1);
        if (sim::pick(2)) { w::finish(); h::check_no_threads("after detaching and stopping the workers"); }
        if (sim::pick(2)) for (auto b : wd.body) if (r.valid(b)) r.destroy(b);
        sim::state(h::mixh(h::mixh(mode, n), h::mixh(g_pre, g_init)));
    }
    w::finish(); h::check_no_threads("after detaching and stopping the workers");
}
