// P26: bodies that only act on each other keep their common momentum.
#include "islands.hpp"
#include <edyn/comp/mass.hpp>
#include <edyn/comp/inertia.hpp>
#include <edyn/constraints/cone_constraint.hpp>
#include <edyn/constraints/cvjoint_constraint.hpp>
using namespace edyn;
namespace {
struct V { double x = 0, y = 0, z = 0; };
scalar sc01() { return scalar(sim::pick(5)) / 4; }
entt::entity joint(entt::registry &r, entt::entity a, entt::entity b, unsigned k) {
    scalar p1 = sc01(), p2 = sc01();
    switch (k) {
    case 0: return make_constraint<distance_constraint>(r, a, b, [&](auto &c) { c.pivot[0] = {0, scalar(0.2) * p1, 0}; c.pivot[1] = {0, 0, 0}; c.distance = 1 + p2; });
    case 1: return make_constraint<point_constraint>(r, a, b, [&](auto &c) { c.pivot[0] = {1, 0, 0}; c.pivot[1] = {-1, 0, 0}; c.friction_torque = p1; });
    case 2: return make_constraint<soft_distance_constraint>(r, a, b, [&](auto &c) { c.pivot[0] = c.pivot[1] = vector3_zero; c.distance = 1 + p1; c.stiffness = 20 + 100 * p2; c.damping = 4; });
    case 3: return make_constraint<hinge_constraint>(r, a, b, [&](auto &c) { c.pivot[0] = {1, 0, 0}; c.pivot[1] = {-1, 0, 0}; c.set_axes({0, 1, 0}, {0, 1, 0}); if (sim::pick(2)) { c.angle_min = -p1; c.angle_max = p2; c.limit_restitution = p1; } if (sim::pick(2)) { c.torque = 5 * p1; c.speed = 3 * p2; } if (sim::pick(2)) { c.stiffness = 10 * p1; c.damping = p2; } if (sim::pick(2)) { c.bump_stop_angle = scalar(0.1); c.bump_stop_stiffness = 20; } });
    case 4: return make_constraint<generic_constraint>(r, a, b, [&](auto &c) { c.pivot[0] = {1, 0, 0}; c.pivot[1] = {-1, 0, 0}; for (auto &d : c.linear_dofs) { d.limit_enabled = sim::pick(2); d.offset_min = -p1; d.offset_max = p2; d.spring_stiffness = 20 * p1; d.damping = p2; d.friction_force = p1; } for (auto &d : c.angular_dofs) { d.limit_enabled = sim::pick(2); d.angle_min = -p1; d.angle_max = p2; d.friction_torque = p1; d.damping = p2; } });
    case 5: return make_constraint<cone_constraint>(r, a, b, [&](auto &c) { c.pivot[0] = {0, 0, 0}; c.pivot[1] = {1, 0, 0}; c.span_tan = {scalar(0.5) + p1, scalar(0.5) + p2}; c.restitution = p1; if (sim::pick(2)) { c.bump_stop_length = scalar(0.1); c.bump_stop_stiffness = 50; } });
    case 6: return make_constraint<cvjoint_constraint>(r, a, b, [&](auto &c) { c.pivot[0] = {1, 0, 0}; c.pivot[1] = {-1, 0, 0}; c.twist_min = -p1; c.twist_max = p2; c.twist_friction_torque = p1; c.rest_direction = {1, 0, 0}; c.bend_stiffness = 5 * p2; c.bend_friction_torque = p1; c.bend_damping = p2; });
    default: return make_constraint<gravity_constraint>(r, a, b);
    }
}
}
SIM_SCENARIO(isolated_groups, 1) {
    sim::set_step_budget(60000000); sim::ignore_silent_stores(true); sc::Meshes ms; entt::registry r; bool mt = sim::pick(4) == 3;
    init_config c; c.execution_mode = mt ? execution_mode::sequential_multithreaded : execution_mode::sequential; c.num_worker_threads = sim::range(1, 3); c.timestamp = 0.0; attach(r, c);
    if (sim::pick(3) == 0) { set_solver_restitution_iterations(r, 0); } if (sim::pick(4) == 3) set_solver_position_iterations(r, 0);
    unsigned n = sim::range(2, 8); std::vector<entt::entity> b; double scale = 1;
    for (unsigned i = 0; i < n; ++i) {
        rigidbody_def d; d.shape = sc::shape(sim::pick(2) ? sim::pick(sc::dyn_shapes) : 0, ms); d.mass = scalar(1 + sim::pick(8)) / 2; d.gravity = vector3_zero; d.position = sc::pt(scalar(1.8), 24); d.linvel = sc::pt(3); if (sim::pick(2)) d.angvel = sc::pt(2);
        d.material->restitution = sc01(); d.material->friction = sc01(); if (sim::pick(4) == 3) { d.material->stiffness = 2000; d.material->damping = 50; } if (sim::pick(4) == 3) { d.material->roll_friction = scalar(0.02); d.material->spin_friction = scalar(0.02); }
        if (sim::pick(5) == 4) d.center_of_mass = sc::pt(scalar(0.2)); if (sim::pick(4) == 3) d.orientation = quaternion_axis_angle({1, 0, 0}, scalar(0.3) * (1 + sim::pick(8)));
        b.push_back(make_rigidbody(r, d)); scale += d.mass * length(d.linvel);
    }
    unsigned nj = sim::pick(n); std::vector<entt::entity> js; for (unsigned k = 0; k < nj; ++k) { unsigned x = sim::pick(n), y = sim::pick(n); if (x == y) continue; unsigned t = sim::pick(8); static const char *nm[] = {"distance", "point", "soft distance", "hinge", "generic", "cone", "cvjoint", "gravity"}; sim::probe(nm[t]); js.push_back(joint(r, b[x], b[y], t)); }
    auto total = [&](double &speed) { V p; speed = 0; for (auto e : b) { double m = r.get<mass>(e); auto &v = r.get<linvel>(e); p.x += m * v.x; p.y += m * v.y; p.z += m * v.z; speed = std::max(speed, m * double(length(v))); } return p; };
    double s; V p0 = total(s); double t = 0; const double dt = get_fixed_dt(r); unsigned steps = sim::range(1, 14);
    for (unsigned i = 0; i < steps; ++i) {
        if (sim::pick(5) == 4) { auto e = b[sim::pick(n)]; auto J = sc::pt(2); rigidbody_apply_impulse(r, e, J, sc::pt(scalar(0.3))); p0.x += J.x; p0.y += J.y; p0.z += J.z; scale += length(J); }
        if (sim::pick(8) == 7 && !js.empty()) { unsigned k = sim::pick(unsigned(js.size())); r.destroy(js[k]); js.erase(js.begin() + k); }
        t += dt + 1e-7; update(r, t); V p = total(s); double big = std::max(scale, s * n);
        if (r.view<contact_point>().size()) sim::probe("in contact");
        double err = std::max({std::fabs(p.x - p0.x), std::fabs(p.y - p0.y), std::fabs(p.z - p0.z)}); scale = std::max(scale, s);
        SIM_CHECK(std::isfinite(s) && err <= 2e-4 * big * (1 + i), "momentum", "momentum changed by %g after %u steps, from (%g %g %g) to (%g %g %g), largest part %g", err, i + 1, p0.x, p0.y, p0.z, p.x, p.y, p.z, s);
    }
    uint32_t u; float f = float(s); std::memcpy(&u, &f, 4); sim::state(h::mixh(u, r.view<contact_point>().size()));
    detach(r); w::finish(); h::check_no_threads("after detach");
}
