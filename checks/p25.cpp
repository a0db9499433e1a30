// P25: whatever valid edits are made in whatever order, the world stays consistent.
#include "islands.hpp"
#include <edyn/collision/contact_manifold_map.hpp>
#include <edyn/collision/contact_point.hpp>
#include <edyn/comp/aabb.hpp>
#include <edyn/comp/center_of_mass.hpp>
#include <edyn/comp/collision_filter.hpp>
#include <edyn/comp/inertia.hpp>
#include <edyn/comp/mass.hpp>
#include <edyn/comp/origin.hpp>
#include <edyn/comp/shape_index.hpp>
#include <edyn/util/contact_manifold_util.hpp>
#include <edyn/util/aabb_util.hpp>
#include <edyn/config/constants.hpp>
using namespace edyn;
namespace {
using isl::id;
std::pair<entt::entity, entt::entity> key(entt::entity a, entt::entity b) { return id(a) < id(b) ? std::make_pair(a, b) : std::make_pair(b, a); }
using Pairs = std::set<std::pair<entt::entity, entt::entity>>;
Pairs manifolds(entt::registry &r) { Pairs s; for (auto [e, m] : r.view<contact_manifold>().each()) s.insert(key(m.body[0], m.body[1])); return s; }

void contacts(entt::registry &r) {
    Pairs seen; std::set<entt::entity> listed;
    for (auto [e, m, st] : r.view<contact_manifold, contact_manifold_state>().each()) {
        SIM_CHECK(r.valid(m.body[0]) && r.valid(m.body[1]) && r.all_of<rigidbody_tag>(m.body[0]) && r.all_of<rigidbody_tag>(m.body[1]), "stale-contact", "contact %u refers to a body that is gone", id(e));
        SIM_CHECK(r.all_of<procedural_tag>(m.body[0]) || r.all_of<procedural_tag>(m.body[1]), "fixed-contact", "contact %u is between two bodies that do not react", id(e));
        SIM_CHECK(seen.insert(key(m.body[0], m.body[1])).second, "two-manifolds", "two contacts for bodies %u and %u", id(m.body[0]), id(m.body[1]));
        SIM_CHECK(manifold_exists(r, m.body[0], m.body[1]) && manifold_exists(r, m.body[1], m.body[0]) && get_manifold_entity(r, m.body[1], m.body[0]) == e, "lookup", "contact of bodies %u and %u is not found by lookup", id(m.body[0]), id(m.body[1]));
        unsigned n = 0;
        for (auto c = st.contact_entity; c != entt::null; ++n) {
            SIM_CHECK(n < max_contacts && r.valid(c) && (r.all_of<contact_point_list, contact_point, contact_point_geometry>(c)), "point-list", "list of points of contact %u is damaged after %u points", id(e), n);
            SIM_CHECK(r.get<contact_point_list>(c).parent == e, "point-list", "point of contact %u belongs to another contact", id(e));
            SIM_CHECK(listed.insert(c).second, "point-list", "point %u is listed twice", id(c));
            auto &cp = r.get<contact_point>(c); SIM_CHECK(w::finite(cp.pivotA) && w::finite(cp.pivotB) && w::finite(cp.normal) && std::fabs(length(cp.normal) - 1) < 1e-3, "point", "contact point has normal (%g %g %g)", cp.normal.x, cp.normal.y, cp.normal.z);
            c = r.get<contact_point_list>(c).next;
        }
        SIM_CHECK(n == st.num_points, "point-list", "contact %u has %u points but claims %u", id(e), n, unsigned(st.num_points));
    }
    for (auto [e, l] : r.view<contact_point_list>().each()) SIM_CHECK(listed.count(e), "orphan-point", "contact point %u is in no contact", id(e));
    for (auto e : r.view<contact_point>()) SIM_CHECK(listed.count(e), "orphan-point", "contact point %u is in no contact", id(e));
}
void bodies(entt::registry &r, bool stepped) {
    unsigned shapes = 0;
    for (auto e : r.view<rigidbody_tag>()) {
        auto p = vector3(r.get<position>(e)); auto q = quaternion(r.get<orientation>(e));
        SIM_CHECK(w::finite(p) && std::isfinite(q.x) && std::isfinite(q.w), "not-finite", "body %u is at (%g %g %g)", id(e), p.x, p.y, p.z);
        SIM_CHECK(std::fabs(length(q) - 1) < 1e-3, "not-finite", "orientation of body %u has length %g", id(e), length(q));
        if (auto *v = r.try_get<linvel>(e)) SIM_CHECK(w::finite(*v) && w::finite(r.get<angvel>(e)), "not-finite", "velocity of body %u is (%g %g %g)", id(e), v->x, v->y, v->z);
        SIM_CHECK(r.all_of<center_of_mass>(e) == r.all_of<origin>(e), "origin", "body %u %s center of mass but %s origin", id(e), r.all_of<center_of_mass>(e) ? "has a" : "has no", r.all_of<origin>(e) ? "has an" : "has no");
        auto og = get_rigidbody_origin(r, e); if (auto *o = r.try_get<origin>(e); stepped && o && r.all_of<dynamic_tag>(e) && !r.all_of<sleeping_tag>(e)) SIM_CHECK(w::dist(*o, og) < 1e-3 * (1 + length(og)), "origin", "origin of body %u is off by %g", id(e), w::dist(*o, og));
        SIM_CHECK(r.all_of<shape_index>(e) == r.all_of<AABB>(e), "shape", "body %u %s shape but %s bounds", id(e), r.all_of<shape_index>(e) ? "has a" : "has no", r.all_of<AABB>(e) ? "has" : "has no");
        if (r.all_of<shape_index>(e)) { unsigned n = 0; std::apply([&](auto... sh) { ((n += r.all_of<std::decay_t<decltype(sh)>>(e)), ...); }, shapes_tuple); SIM_CHECK(n == 1, "shape", "body %u has %u shapes", id(e), n); ++shapes;
            visit_shape(r, e, [&](auto &&sh) { SIM_CHECK(r.all_of<std::decay_t<decltype(sh)>>(e), "shape", "shape of body %u is not the one indicated", id(e)); });
            auto &bb = r.get<AABB>(e); if (stepped && !r.all_of<static_tag>(e) && !(r.all_of<dynamic_tag, sleeping_tag>(e))) visit_shape(r, e, [&](auto &&sh) { (void)sh; auto c = bb.center(); (void)c; SIM_CHECK(bb.min.x <= bb.max.x && bb.min.y <= bb.max.y && bb.min.z <= bb.max.z && w::dist(c, og) < 4, "bounds", "bounds of body %u are centered %g away from it", id(e), w::dist(c, og)); }); }
        SIM_CHECK(unsigned(r.all_of<dynamic_tag>(e)) + r.all_of<kinematic_tag>(e) + r.all_of<static_tag>(e) == 1, "kind", "body %u has no single kind", id(e));
        if (auto *m = r.try_get<mass>(e)) SIM_CHECK(std::fabs(double(*m) * r.get<mass_inv>(e) - 1) < 1e-3, "mass", "mass %g and its inverse %g of body %u do not match", double(*m), double(r.get<mass_inv>(e)), id(e));
    }
}
}
SIM_SCENARIO(any_edits, 4) {
    sim::set_step_budget(60000000); sim::ignore_silent_stores(true);
    sc::Meshes ms; sc::World wd; wd.ms = &ms; sc::Plan plan; plan.max_bodies = sim::range(2, 12); plan.span = sim::pick(2) ? 2 : 4; auto &r = wd.reg;
    bool mt = sim::pick(4) == 3; double t = 0; init_config c; c.execution_mode = mt ? execution_mode::sequential_multithreaded : execution_mode::sequential; c.num_worker_threads = sim::range(1, 3); c.timestamp = 0.0; bool calm = sim::pick(3) == 2; if (calm) c.fixed_dt = scalar(0.25); attach(r, c);
    const double dt = get_fixed_dt(r); unsigned n = sim::range(2, 20); bool paused = false;
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = calm && i > 3 ? sim::pick(4) == 3 : sim::pick(5);
        for (unsigned j = 0; j < k; ++j) if (auto o = plan.next()) { sim::probe(sc::name(o->k)); sim::tracef("%s a=%u b=%u t=%u f=%d p=(%g,%g,%g) v=(%g,%g,%g)", sc::name(o->k), o->a, o->b, o->t, o->f, o->p.x, o->p.y, o->p.z, o->v.x, o->v.y, o->v.z); wd.apply(*o);
            if (o->k == sc::ADD_BODY && sim::pick(8) == 7) { auto &f = r.emplace<collision_filter>(wd.body.back()); f.group = 1ull << sim::pick(2); f.mask = sim::pick(2) ? ~0ull : 1ull << sim::pick(2); sim::probe("filter"); } }
        if (calm && sim::pick(3) == 2) for (unsigned b = 0; b < plan.bodies.size(); ++b) if (plan.bodies[b].alive && r.all_of<sleeping_tag>(wd.body[b])) { wd.apply(plan.clear(b)); sim::probe("clear sleeping body"); break; }
        if (sim::pick(14) == 13) { paused = !paused; set_paused(r, paused); }
        auto before = manifolds(r); Pairs must, mustnot; std::vector<entt::entity> bs; for (auto e : r.view<rigidbody_tag, AABB>()) bs.push_back(e);
        for (size_t a = 0; a < bs.size(); ++a) for (size_t b = a + 1; b < bs.size(); ++b) {
            auto x = bs[a], y = bs[b]; bool awake = (r.all_of<procedural_tag>(x) && !r.all_of<sleeping_tag>(x)) || (r.all_of<procedural_tag>(y) && !r.all_of<sleeping_tag>(y));
            bool may = should_collide_default(r, x, y) && (r.all_of<procedural_tag>(x) || r.all_of<procedural_tag>(y)); auto &A = r.get<AABB>(x), &B = r.get<AABB>(y);
            if (may && awake && intersect(A, B)) must.insert(key(x, y));
            if (awake && !intersect(A.inset(vector3_one * scalar(-1)), B)) mustnot.insert(key(x, y));
            if (!may && !before.count(key(x, y))) mustnot.insert(key(x, y));
        }
        unsigned steps = sim::pick(6) == 5 || (calm && sim::pick(2)) ? sim::range(2, 6) : 1; bool one = false;
        if (paused && sim::pick(2)) { step_simulation(r, t += dt); one = true; } else { t += dt * steps + 1e-7; update(r, t); one = steps == 1 && !paused; }
        contacts(r); bodies(r, one || !paused); auto now = manifolds(r); uint64_t hs = isl::check(r);
        if (one) {
            for (auto &p : must) { SIM_CHECK(now.count(p), "missed-contact", "bodies %u and %u overlap but no contact was created", id(p.first), id(p.second)); }
            for (auto &p : mustnot) SIM_CHECK(!now.count(p), "false-contact", "bodies %u and %u are apart or must not collide but are in contact", id(p.first), id(p.second));
            if (!must.empty()) sim::probe("overlap checked");
        }
        for (auto e : r.view<rigidbody_tag, sleeping_tag>()) { (void)e; sim::probe("asleep"); break; }
        sim::state(h::mixh(hs, now.size()));
    }
    if (sim::pick(3) == 0) {   // remove everything: nothing may stay behind
        if (paused) set_paused(r, false);
        for (unsigned k = 0; k < plan.bodies.size(); ++k) if (plan.bodies[k].alive) { if (sim::pick(4) == 3) { clear_rigidbody(r, wd.body[k]); } else r.destroy(wd.body[k]); plan.drop_body(k); }
        for (int k = 0; k < 2; ++k) update(r, t += dt + 1e-7);
        SIM_CHECK(r.view<contact_manifold>().size() == 0 && r.view<contact_point>().size() == 0 && r.view<island>().size() == 0 && r.view<graph_edge>().size() == 0 && r.view<graph_node>().size() == 0, "leftovers", "after destroying all bodies %zu contacts, %zu points, %zu islands, %zu edges, %zu nodes remain", size_t(r.view<contact_manifold>().size()), size_t(r.view<contact_point>().size()), size_t(r.view<island>().size()), size_t(r.view<graph_edge>().size()), size_t(r.view<graph_node>().size()));
        sim::probe("all destroyed");
    }
    detach(r); w::finish(); h::check_no_threads("after detach");
}
