// P11: queries sent to the simulation thread are answered exactly once, and correctly.
#include "async.hpp"
#include <edyn/collision/raycast.hpp>
#include <edyn/collision/query_aabb.hpp>
#include <edyn/math/geom.hpp>
#include <edyn/util/aabb_util.hpp>
using namespace edyn;
namespace {
struct Ray { vector3 p0, p1; std::vector<entt::entity> ignore; unsigned answers = 0; bool settled = false, stale = false; };
struct Query { AABB box; bool proc, np, isl, interest; unsigned answers = 0; bool settled = false; };
struct State { entt::registry *r; std::map<unsigned, Ray> rays; std::map<unsigned, Query> queries; std::set<entt::entity> touched; std::map<entt::entity, entt::entity> island_of; std::map<entt::entity, AABB> was; scalar dt; bool reentrant = false; unsigned extra = 0, cur_ray = ~0u; };
State *g;
void nap(unsigned ms) { sim::sleep_ns(uint64_t(1000000) * ms); }
bool shaped(entt::registry &r, entt::entity e) { return r.all_of<rigidbody_tag, shape_index, AABB>(e); }
vector3 place(entt::registry &r, entt::entity e) { return r.all_of<center_of_mass>(e) ? vector3(get_rigidbody_origin(r, e)) : vector3(r.get<position>(e)); }
// The bounds kept by the application are not refreshed by the simulation thread, so they are worked out here.
AABB bounds(entt::registry &r, entt::entity e) { AABB b{}; auto p = place(r, e); auto q = r.get<orientation>(e); visit_shape(r, e, [&](auto &&s) { b = shape_aabb(s, p, q); }); return b; }
shape_raycast_result cast(entt::registry &r, entt::entity e, vector3 p0, vector3 p1) {
    vector3 pos = place(r, e); raycast_context c{pos, r.get<orientation>(e), p0, p1}; shape_raycast_result res;
    visit_shape(r, e, [&](auto &&s) { res = shape_raycast(s, c); }); return res;
}
// Bounds are indexed at the start of a step and islands one step after they come into being.
void note(entt::registry &r) { g->island_of.clear(); g->was.clear(); for (auto [e, i] : r.view<island_resident>().each()) g->island_of[e] = i.island_entity; for (auto e : r.view<rigidbody_tag>()) if (shaped(r, e)) g->was[e] = bounds(r, e); }
bool calm(entt::registry &r, entt::entity e) {
    auto it = g->was.find(e); if (it == g->was.end() || r.any_of<kinematic_tag>(e) || g->touched.count(e)) return false; auto b = bounds(r, e);
    return r.any_of<plane_shape>(e) || (w::dist(b.min, it->second.min) < 0.05 && w::dist(b.max, it->second.max) < 0.05);
}
bool settled_island(entt::registry &r, entt::entity e) { auto it = g->island_of.find(e); return it != g->island_of.end() && r.get<island_resident>(e).island_entity == it->second; }
bool has(const std::vector<entt::entity> &v, entt::entity e) { return std::find(v.begin(), v.end(), e) != v.end(); }
// Against every body of the registry, one by one. Bodies that moved fast since the bounds were last refreshed may or may not be found.
void check_ray(entt::registry &r, const Ray &q, const raycast_result &res, const char *how) {
    if (res.entity != entt::null) {
        SIM_CHECK(r.valid(res.entity) && shaped(r, res.entity), "ray-entity", "%s hit entity %x which is no body", how, as::id(res.entity)); SIM_CHECK(!has(q.ignore, res.entity), "ray-ignored", "%s hit a body it was told to ignore", how);
        auto own = cast(r, res.entity, q.p0, q.p1); if (calm(r, res.entity)) SIM_CHECK(std::abs(own.fraction - res.fraction) < 1e-4, "ray-fraction", "%s hit body %x at %g, which lies at %g", how, as::id(res.entity), double(res.fraction), double(own.fraction)); sim::probe("ray hit a body");
    } else sim::probe("ray hit nothing");
    for (auto e : r.view<rigidbody_tag>()) if (shaped(r, e) && calm(r, e) && !has(q.ignore, e)) {
        auto b = bounds(r, e); if (!intersect_segment_aabb(q.p0, q.p1, b.min, b.max)) continue;
        auto own = cast(r, e, q.p0, q.p1); if (own.fraction < EDYN_SCALAR_MAX && (res.entity == entt::null || res.fraction > own.fraction + 1e-4)) sim::tracef("ray (%g %g %g)-(%g %g %g), body bounds (%g %g %g)-(%g %g %g)", q.p0.x, q.p0.y, q.p0.z, q.p1.x, q.p1.y, q.p1.z, b.min.x, b.min.y, b.min.z, b.max.x, b.max.y, b.max.z);
        if (own.fraction < EDYN_SCALAR_MAX) SIM_CHECK(res.entity != entt::null && res.fraction <= own.fraction + 1e-4, "ray-missed", "%s missed body %x at %g (answer: %g)", how, as::id(e), double(own.fraction), double(res.fraction));
    }
}
void on_ray(raycast_id_type id, const raycast_result &res, vector3 p0, vector3 p1) {
    auto it = g->rays.find(id); SIM_CHECK(it != g->rays.end(), "ray-unknown", "answer to ray %u which was never cast", id); auto &q = it->second;
    SIM_CHECK(++q.answers == 1, "ray-twice", "ray %u was answered twice", id);
    SIM_CHECK(p0.x == q.p0.x && p0.y == q.p0.y && p0.z == q.p0.z && p1.x == q.p1.x && p1.y == q.p1.y && p1.z == q.p1.z, "ray-mixed-up", "answer to ray %u came with the points of another", id);
    if (res.entity != entt::null) { SIM_CHECK(g->r->valid(res.entity), "ray-entity", "ray %u hit an entity that does not exist", id); SIM_CHECK(!has(q.ignore, res.entity), "ray-ignored", "ray %u hit a body it was told to ignore", id); }
    if (q.settled) { sim::probe("settled ray"); check_ray(*g->r, q, res, "ray in the simulation thread"); }
    if (g->reentrant && g->extra) { --g->extra; Ray n = q; n.answers = 0; auto k = raycast_async(*g->r, n.p0, n.p1, raycast_delegate_type(entt::connect_arg<&on_ray>), n.ignore); SIM_CHECK(!g->rays.count(k), "ray-id", "ray number %u given out twice", k); g->rays[k] = n; }
}
void check_query(entt::registry &r, const Query &q, const query_aabb_result &res) {
    for (auto *v : {&res.procedural_entities, &res.non_procedural_entities, &res.island_entities}) { std::set<entt::entity> u(v->begin(), v->end()); SIM_CHECK(u.size() == v->size(), "query-twice", "an entity is listed twice in a query result"); for (auto e : *v) SIM_CHECK(r.valid(e), "query-entity", "query result contains an entity that does not exist"); }
    if (!q.interest) { SIM_CHECK((q.proc || res.procedural_entities.empty()) && (q.np || res.non_procedural_entities.empty()) && (q.isl || res.island_entities.empty()), "query-kind", "query result has entities that were not asked for"); }
    if (!q.settled) return; sim::probe("settled query");
    std::set<entt::entity> p(res.procedural_entities.begin(), res.procedural_entities.end()), n(res.non_procedural_entities.begin(), res.non_procedural_entities.end()), is(res.island_entities.begin(), res.island_entities.end());
    for (auto e : p) if (r.all_of<rigidbody_tag>(e)) SIM_CHECK(r.all_of<procedural_tag>(e), "query-kind", "fixed body %x listed as moving", as::id(e)); else SIM_CHECK(q.interest, "query-kind", "entity %x which is no body listed", as::id(e));
    for (auto e : n) SIM_CHECK(r.all_of<rigidbody_tag>(e) && !r.all_of<procedural_tag>(e), "query-kind", "body %x listed as not moving", as::id(e));
    for (auto e : is) SIM_CHECK(r.all_of<island_tag>(e), "query-kind", "entity %x listed as island", as::id(e));
    auto near = q.box.inset(vector3_one * scalar(-1)); auto joints = isl::edges(r);
    for (auto e : r.view<rigidbody_tag>()) if (shaped(r, e) && calm(r, e)) {
        auto b = bounds(r, e); bool proc = r.all_of<procedural_tag>(e), want = proc ? q.proc || q.interest : q.np || q.interest; auto &s = proc ? p : n; if (!want) continue;
        if (intersect(b, q.box) && (!q.interest || !proc || settled_island(r, e))) { SIM_CHECK(s.count(e), "query-missed", "body %x overlaps the queried box but is not in the answer", as::id(e)); sim::probe("body found by query"); }
        else if (!q.interest && !intersect(b, q.box) && !intersect(b, near)) SIM_CHECK(!s.count(e), "query-extra", "body %x is more than a meter away from the queried box but in the answer", as::id(e));
        if (proc && (q.interest || q.isl) && settled_island(r, e) && intersect(b, q.box)) { auto ie = r.get<island_resident>(e).island_entity; SIM_CHECK(is.count(ie), "query-missed", "island of body %x is not in the answer", as::id(e));
            if (q.interest) { for (auto o : r.view<procedural_tag, island_resident>()) if (r.get<island_resident>(o).island_entity == ie) SIM_CHECK(p.count(o), "query-missed", "body %x is in an island of interest but not in the answer", as::id(o));
                for (auto &[k, i] : joints) if (!r.all_of<contact_manifold>(k) && (i.a == e || i.b == e)) SIM_CHECK(p.count(k), "query-missed", "constraint %x is in an island of interest but not in the answer", as::id(k)); } }
    }
}
void on_query(query_aabb_id_type id, const query_aabb_result &res) {
    auto it = g->queries.find(id); SIM_CHECK(it != g->queries.end(), "query-unknown", "answer to query %u which was never made", id); SIM_CHECK(++it->second.answers == 1, "query-twice", "query %u was answered twice", id); check_query(*g->r, it->second, res);
}
void ask(sc::World &wd, bool settled, scalar span) {
    auto &r = wd.reg; unsigned n = 1 + sim::pick(sim::pick(3) ? 3 : 9);
    for (unsigned i = 0; i < n; ++i) {
        if (sim::pick(3)) {
            Ray q; q.p0 = sc::pt(span * 2); q.p1 = sim::pick(2) ? q.p0 * scalar(-1) + sc::pt(scalar(0.5)) : sc::pt(span * 2); if (q.p0 == q.p1) q.p1.x += 1; q.settled = settled; for (auto b : wd.body) if (r.valid(b) && sim::pick(5) == 0) q.ignore.push_back(b);
            auto id = raycast_async(r, q.p0, q.p1, raycast_delegate_type(entt::connect_arg<&on_ray>), q.ignore); SIM_CHECK(!g->rays.count(id), "ray-id", "ray number %u given out twice", id); g->rays[id] = q;
        } else {
            Query q{}; auto a = sc::pt(span), b = a + vector3{scalar(sim::range(1, 8)) / 4, scalar(sim::range(1, 8)) / 4, scalar(sim::range(1, 8)) / 4}; q.box = {a, b}; q.settled = settled; unsigned k = sim::pick(9); q.interest = k == 8; q.proc = k & 1; q.np = k & 2; q.isl = k & 4;
            query_aabb_delegate_type d(entt::connect_arg<&on_query>); auto id = q.interest ? query_aabb_of_interest_async(r, q.box, d) : query_aabb_async(r, q.box, d, q.proc, q.np, q.isl);
            SIM_CHECK(!g->queries.count(id), "query-id", "query number %u given out twice", id); g->queries[id] = q;
        }
    }
}
void all_answered() {
    for (auto &[id, q] : g->rays) SIM_CHECK(q.answers == 1, "ray-unanswered", "ray %u was answered %u times although the simulation thread had plenty of time", id, q.answers);
    for (auto &[id, q] : g->queries) SIM_CHECK(q.answers == 1, "query-unanswered", "query %u was answered %u times although the simulation thread had plenty of time", id, q.answers);
}
}
SIM_SCENARIO(queries_answered, 3) {
    sim::set_step_budget(60000000); sim::enable_stalls(true); sim::ignore_silent_stores(true); State st; g = &st;
    sc::Meshes ms; sc::World wd; wd.ms = &ms; st.r = &wd.reg; sc::Plan plan; plan.max_bodies = sim::range(2, 9); plan.span = sim::pick(2) ? 2 : 4; plan.kinds &= ~(1u << sc::CLEAR_BODY); auto &r = wd.reg;
    init_config c; c.execution_mode = execution_mode::asynchronous; c.num_worker_threads = sim::range(1, 3); c.fixed_dt = st.dt = sim::pick(2) ? scalar(1.0 / 30) : scalar(1.0 / 8); attach(r, c); set_init_callback(r, +[](entt::registry &) {});
    bool paused = false; st.reentrant = sim::pick(3) == 0; st.extra = 5; unsigned n = sim::range(1, 8); bool still = sim::pick(2); if (still) set_gravity(r, vector3_zero);
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = sim::pick(5); for (unsigned j = 0; j < k; ++j) if (auto o = plan.next()) { if (still && o->k == sc::ADD_BODY) o->v = vector3_zero, o->f = true; sim::tracef("%s a=%u b=%u t=%u", sc::name(o->k), o->a, o->b, o->t); if (o->k == sc::SET_KIND) st.touched.insert(wd.body[o->a]); /* a body moved and made fixed before the next step keeps its former bounds */ wd.apply(*o); }
        if (sim::pick(2)) { sim::tracef("ask"); ask(wd, false, plan.span); }
        if (sim::pick(8) == 0) { paused = !paused; set_paused(r, paused); }
        if (sim::pick(4)) nap(sim::range(1, 60)); update(r);
    }
    if (paused) set_paused(r, false);
    sim::stop_faults(); for (int i = 0; i < 6; ++i) { nap(150); update(r); if (i == 2) note(r); }
    set_paused(r, true); for (int i = 0; i < 4; ++i) { nap(60); update(r); }
    unsigned rounds = sim::range(1, 3);
    for (unsigned i = 0; i < rounds; ++i) { sim::tracef("ask settled"); ask(wd, true, plan.span); nap(sim::range(1, 60)); update(r); }
    for (int i = 0; i < 20; ++i) { nap(60); update(r); }
    all_answered(); sim::state(h::mixh(st.rays.size(), h::mixh(st.queries.size(), wd.body.size()))); detach(r); w::finish(); h::check_no_threads("after detach");
}
SIM_SCENARIO(queries_in_place, 1) {
    sim::set_step_budget(60000000); sim::ignore_silent_stores(true); State st; g = &st; sc::Meshes ms; sc::World wd; wd.ms = &ms; st.r = &wd.reg; sc::Plan plan; plan.max_bodies = sim::range(2, 14); plan.span = sim::pick(2) ? 2 : 5; auto &r = wd.reg;
    st.dt = scalar(1.0 / 60); w::attach(r, sim::pick(2) ? execution_mode::sequential : execution_mode::sequential_multithreaded, sim::range(1, 2), st.dt); unsigned n = sim::range(1, 8); double t = 0;
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = sim::pick(6); for (unsigned j = 0; j < k; ++j) if (auto o = plan.next()) { sim::tracef("%s a=%u b=%u t=%u", sc::name(o->k), o->a, o->b, o->t); if (o->k == sc::SET_KIND) st.touched.insert(wd.body[o->a]); /* a body moved and made fixed before the next step keeps its former bounds */ wd.apply(*o); }
        unsigned m = sim::range(4, 9); for (unsigned j = 0; j < m; ++j) { if (j + 3 == m) note(r); update(r, t += st.dt); }
        for (int q = 0; q < 4; ++q) { Ray y; y.p0 = sc::pt(plan.span * 2); y.p1 = sim::pick(2) ? y.p0 * scalar(-1) + sc::pt(scalar(0.5)) : sc::pt(plan.span * 2); if (y.p0 == y.p1) y.p1.x += 1; for (auto b : wd.body) if (r.valid(b) && sim::pick(5) == 0) y.ignore.push_back(b); check_ray(r, y, raycast(r, y.p0, y.p1, y.ignore), "ray"); }
        for (int q = 0; q < 3; ++q) { Query y{}; auto a = sc::pt(plan.span), b = a + vector3{scalar(sim::range(1, 8)) / 4, scalar(sim::range(1, 8)) / 4, scalar(sim::range(1, 8)) / 4}; y.box = {a, b}; y.proc = y.np = y.isl = true; y.settled = true; query_aabb_result res;
            query_procedural_aabb(r, y.box, [&](entt::entity e) { res.procedural_entities.push_back(e); }); query_non_procedural_aabb(r, y.box, [&](entt::entity e) { res.non_procedural_entities.push_back(e); }); query_island_aabb(r, y.box, [&](entt::entity e) { res.island_entities.push_back(e); }); check_query(r, y, res); }
    }
    sim::state(h::mixh(wd.body.size(), n)); detach(r); w::finish();
}
