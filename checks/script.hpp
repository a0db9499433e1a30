// A scripted world: the same sequence of edits can be played into any number of
// registries (sequential, multithreaded, asynchronous) and the results compared.
#ifndef VERIF_SCRIPT_HPP
#define VERIF_SCRIPT_HPP
#include "world.hpp"
#include <edyn/shapes/convex_mesh.hpp>
#include <edyn/shapes/triangle_mesh.hpp>
#include <edyn/util/shape_util.hpp>
#include <edyn/util/exclude_collision.hpp>
#include <edyn/comp/collision_exclusion.hpp>
#include <edyn/comp/graph_node.hpp>
#include <edyn/comp/graph_edge.hpp>

namespace sc {
using namespace edyn;

enum Kind { ADD_BODY, ADD_JOINT, DEL_BODY, DEL_JOINT, SET_VEL, IMPULSE, WAKE, SET_KIND, FRICTION, EXCLUDE, MOVE, SHAPE, MASS, GRAVITY, CLEAR_BODY, COM, KIN_MOVE };
struct Op { Kind k; unsigned a = 0, b = 0, t = 0; vector3 p{}, v{}; scalar s = 0; bool f = false; };

inline vector3 pt(scalar span, unsigned res = 16) { auto c = [&] { return (scalar(sim::pick(res + 1)) / res - scalar(0.5)) * 2 * span; }; scalar x = c(), y = c(), z = c(); return {x, y, z}; }

inline std::shared_ptr<convex_mesh> box_hull(vector3 h) {
    auto m = std::make_shared<convex_mesh>();
    make_box_mesh(h, m->vertices, m->indices, m->faces); m->initialize(); return m;
}
inline std::shared_ptr<triangle_mesh> ground_mesh() {
    std::vector<vector3> v; std::vector<uint32_t> ix;
    make_plane_mesh(16, 16, 3, 3, v, ix);
    auto m = std::make_shared<triangle_mesh>(); m->insert_vertices(v.begin(), v.end()); m->insert_indices(ix.begin(), ix.end()); m->initialize(); return m;
}
// Meshes are shared by all registries of a run, as an application would.
struct Meshes { std::shared_ptr<convex_mesh> hull; std::shared_ptr<triangle_mesh> ground; };

inline shapes_variant_t shape(unsigned t, Meshes &ms) {
    switch (t) {
    case 1: return box_shape{vector3{scalar(0.5), scalar(0.4), scalar(0.6)}};
    case 2: return capsule_shape{scalar(0.3), scalar(0.4)};
    case 3: return cylinder_shape{scalar(0.4), scalar(0.5)};
    case 4: if (!ms.hull) ms.hull = box_hull({scalar(0.5), scalar(0.5), scalar(0.5)}); { polyhedron_shape q; q.mesh = ms.hull; return q; }
    case 5: { compound_shape c; c.add_shape(sphere_shape{scalar(0.3)}, {scalar(-0.4), 0, 0}, quaternion_identity); c.add_shape(box_shape{vector3{scalar(0.3), scalar(0.3), scalar(0.3)}}, {scalar(0.4), 0, 0}, quaternion_identity);
              if (!ms.hull) ms.hull = box_hull({scalar(0.5), scalar(0.5), scalar(0.5)}); { polyhedron_shape q; q.mesh = ms.hull; c.add_shape(q, {0, scalar(0.5), 0}, quaternion_identity); } c.finish(); return c; }
    case 8: return plane_shape{{0, 1, 0}, 0};
    case 9: if (!ms.ground) ms.ground = ground_mesh(); { mesh_shape q; q.trimesh = ms.ground; return q; }
    default: return sphere_shape{scalar(0.5)};
    }
}
constexpr unsigned dyn_shapes = 6;

// What the script knows about the world it builds (slots, not entities).
struct Plan {
    struct Body { bool alive = true, dynamic = true; unsigned kind = 0; unsigned shape = 0; unsigned joints = 0; bool cleared = false; };
    struct Joint { bool alive = true; unsigned a, b; };
    std::vector<Body> bodies; std::vector<Joint> joints; unsigned max_bodies = 8; bool contacts = true; scalar span = 3;
    unsigned kinds = ~0u;                  // bit set of op kinds allowed
    bool allow(Kind k) const { return kinds >> k & 1; }
    int pick_body(bool dynamic_only) {
        std::vector<unsigned> c; for (unsigned i = 0; i < bodies.size(); ++i) if (bodies[i].alive && (!dynamic_only || bodies[i].dynamic)) c.push_back(i);
        return c.empty() ? -1 : int(c[sim::pick(unsigned(c.size()))]);
    }
    unsigned live() const { unsigned n = 0; for (auto &b : bodies) n += b.alive; return n; }
    void drop_body(unsigned i) { bodies[i].alive = false; for (auto &j : joints) if (j.alive && (j.a == i || j.b == i)) { j.alive = false; --bodies[j.a].joints; --bodies[j.b].joints; } }
    std::optional<Op> body() {
        Op o{ADD_BODY}; o.a = unsigned(bodies.size()); unsigned kk = sim::pick(8); o.t = kk < 6 ? 0 : kk == 6 ? 2 : 1;    // dynamic, static, kinematic
        o.b = o.t == 2 ? (sim::pick(3) ? 8 + sim::pick(2) : sim::pick(dyn_shapes)) : (sim::pick(2) ? sim::pick(dyn_shapes) : 0);
        o.p = pt(span); if (o.b >= 8) o.p = {0, -1, 0};
        if (sim::pick(2)) o.v = pt(2);
        o.f = sim::pick(4) == 0;                                                                                       // no gravity
        o.s = scalar(1 + sim::pick(4)) / 2;
        bodies.push_back({true, o.t == 0, o.t, o.b, 0}); return o;
    }
    Op clear(unsigned a) {
        Op o{CLEAR_BODY}; o.a = a; o.f = sim::pick(3) != 0; drop_body(o.a);
        if (o.f) { { unsigned kk = sim::pick(5); o.t = kk == 3 ? 2 : kk == 4 ? 1 : 0; } o.b = sim::pick(dyn_shapes); o.p = pt(span); o.s = 1; bodies.push_back({true, o.t == 0, o.t, o.b, 0}); }
        return o;
    }
    std::optional<Op> next() {
        for (int tries = 0; tries < 12; ++tries) {
            unsigned r = sim::pick(22);
            if (live() < 2 || (r < 5 && live() < max_bodies)) return body();
            if (r < 8 && allow(ADD_JOINT)) {
                int a = pick_body(true), b = pick_body(false); if (a < 0 || b < 0 || a == b) continue;
                Op o{ADD_JOINT}; o.a = unsigned(a); o.b = unsigned(b); o.t = sim::pick(5); joints.push_back({true, o.a, o.b}); ++bodies[a].joints; ++bodies[b].joints; return o;
            }
            if (r == 8 && allow(DEL_BODY)) { int a = pick_body(false); if (a < 0) continue; Op o{DEL_BODY}; o.a = unsigned(a); drop_body(o.a); return o; }
            if (r == 9 && allow(DEL_JOINT)) { std::vector<unsigned> c; for (unsigned i = 0; i < joints.size(); ++i) if (joints[i].alive) c.push_back(i); if (c.empty()) continue;
                Op o{DEL_JOINT}; o.a = c[sim::pick(unsigned(c.size()))]; auto &j = joints[o.a]; j.alive = false; --bodies[j.a].joints; --bodies[j.b].joints; return o; }
            if (r == 10 && allow(SET_VEL)) { int a = pick_body(true); if (a < 0) continue; Op o{SET_VEL}; o.a = unsigned(a); o.v = pt(3); return o; }
            if (r == 11 && allow(IMPULSE)) { int a = pick_body(true); if (a < 0) continue; Op o{IMPULSE}; o.a = unsigned(a); o.v = pt(2); o.p = pt(scalar(0.3)); return o; }
            if (r == 12 && allow(WAKE)) { int a = pick_body(true); if (a < 0) continue; Op o{WAKE}; o.a = unsigned(a); return o; }
            if (r == 13 && allow(SET_KIND)) {
                int a = pick_body(false); if (a < 0 || bodies[a].joints || bodies[a].kind != 0) continue;
                Op o{SET_KIND}; o.a = unsigned(a); o.t = bodies[a].dynamic ? 1 + sim::pick(2) : 0; bodies[a].dynamic = o.t == 0; return o;
            }
            if (r == 14 && allow(FRICTION)) { int a = pick_body(false); if (a < 0) continue; Op o{FRICTION}; o.a = unsigned(a); o.s = scalar(sim::pick(8)) / 8; return o; }
            if (r == 15 && allow(EXCLUDE)) { int a = pick_body(true), b = pick_body(true); if (a < 0 || b < 0 || a == b) continue; Op o{EXCLUDE}; o.a = unsigned(a); o.b = unsigned(b); o.f = sim::pick(3) == 0; return o; }
            if (r == 16 && allow(MOVE)) { int a = pick_body(true); if (a < 0) continue; Op o{MOVE}; o.a = unsigned(a); o.p = pt(span); return o; }
            if (r == 17 && allow(SHAPE)) { int a = pick_body(true); if (a < 0) continue; Op o{SHAPE}; o.a = unsigned(a); o.t = sim::pick(dyn_shapes + 1); return o; }
            if (r == 18 && allow(MASS)) { int a = pick_body(true); if (a < 0) continue; Op o{MASS}; o.a = unsigned(a); o.s = scalar(1 + sim::pick(8)) / 2; return o; }
            if (r == 19 && allow(COM)) { int a = pick_body(true); if (a < 0) continue; Op o{COM}; o.a = unsigned(a); o.p = sim::pick(4) ? pt(scalar(0.2)) : vector3_zero; return o; }
            if (r == 20 && allow(CLEAR_BODY)) {     // the entity stays, and may become a new body at once
                int a = pick_body(false); if (a < 0) continue; return clear(unsigned(a));
            }
            if (r == 21 && allow(KIN_MOVE)) {
                std::vector<unsigned> c; for (unsigned i = 0; i < bodies.size(); ++i) if (bodies[i].alive && bodies[i].kind == 1) c.push_back(i); if (c.empty()) continue;
                Op o{KIN_MOVE}; o.a = c[sim::pick(unsigned(c.size()))]; o.p = pt(span); return o;
            }
        }
        return {};
    }
};

// One registry the script is played into.
struct World {
    entt::registry reg; std::vector<entt::entity> body, joint; Meshes *ms = nullptr;
    void apply(const Op &o) {
        switch (o.k) {
        case ADD_BODY: {
            rigidbody_def d; d.kind = o.t == 0 ? rigidbody_kind::rb_dynamic : o.t == 1 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static;
            d.shape = shape(o.b, *ms); d.position = o.p; d.mass = o.s > 0 ? o.s : 1; if (o.t != 2) d.linvel = o.v;
            if (o.f) d.gravity = vector3_zero;
            d.material->restitution = o.s / 4; body.push_back(make_rigidbody(reg, d)); break;
        }
        case ADD_JOINT: {
            auto a = body[o.a], b = body[o.b]; entt::entity e = entt::null;
            switch (o.t) {
            case 0: e = make_constraint<distance_constraint>(reg, a, b, [](auto &c) { c.distance = 2; }); break;
            case 1: e = make_constraint<point_constraint>(reg, a, b, [](auto &c) { c.pivot[0] = {1, 0, 0}; c.pivot[1] = {-1, 0, 0}; }); break;
            case 2: e = make_constraint<soft_distance_constraint>(reg, a, b, [](auto &c) { c.distance = 2; c.stiffness = 50; c.damping = 5; }); break;
            case 3: e = make_constraint<hinge_constraint>(reg, a, b, [](auto &c) { c.pivot[0] = {1, 0, 0}; c.pivot[1] = {-1, 0, 0}; c.set_axes({0, 1, 0}, {0, 1, 0}); }); break;
            default: e = make_constraint<null_constraint>(reg, a, b); break;
            }
            joint.push_back(e); break;
        }
        case CLEAR_BODY: {
            clear_rigidbody(reg, body[o.a]); if (!o.f) break;
            rigidbody_def d; d.kind = o.t == 0 ? rigidbody_kind::rb_dynamic : o.t == 1 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static; d.shape = shape(o.b, *ms); d.position = o.p; d.mass = o.s;
            make_rigidbody(body[o.a], reg, d); body.push_back(body[o.a]); break;
        }
        case KIN_MOVE: set_kinematic_position(reg, body[o.a], o.p, scalar(1.0 / 60)); break;
        case DEL_BODY: reg.destroy(body[o.a]); break;
        case DEL_JOINT: reg.destroy(joint[o.a]); break;
        case SET_VEL: reg.patch<linvel>(body[o.a], [&](linvel &v) { v = o.v; }); wake_up_entity(reg, body[o.a]); break;
        case IMPULSE: rigidbody_apply_impulse(reg, body[o.a], o.v, o.p); wake_up_entity(reg, body[o.a]); break;
        case WAKE: wake_up_entity(reg, body[o.a]); break;
        case SET_KIND: rigidbody_set_kind(reg, body[o.a], o.t == 0 ? rigidbody_kind::rb_dynamic : o.t == 1 ? rigidbody_kind::rb_kinematic : rigidbody_kind::rb_static); break;
        case FRICTION: set_rigidbody_friction(reg, body[o.a], o.s); break;
        case EXCLUDE: if (o.f) { if (reg.all_of<collision_exclusion>(body[o.a]) && reg.all_of<collision_exclusion>(body[o.b])) remove_collision_exclusion(reg, body[o.a], body[o.b]); } else exclude_collision(reg, body[o.a], body[o.b]); break;
        case MOVE: set_rigidbody_origin(reg, body[o.a], o.p); wake_up_entity(reg, body[o.a]); break;
        case SHAPE: if (o.t == dyn_shapes) rigidbody_set_shape(reg, body[o.a], {}); else rigidbody_set_shape(reg, body[o.a], shape(o.t, *ms)); wake_up_entity(reg, body[o.a]); break;
        case MASS: set_rigidbody_mass(reg, body[o.a], o.s); break;
        case COM: set_center_of_mass(reg, body[o.a], o.p); wake_up_entity(reg, body[o.a]); break;
        default: break;
        }
    }
};
inline const char *name(Kind k) {
    static const char *n[] = {"add body", "add joint", "destroy body", "destroy joint", "set velocity", "impulse", "wake", "set kind", "friction", "exclude", "move", "shape", "mass", "gravity", "clear body", "center of mass", "move kinematic"};
    return n[k];
}
}
#endif
