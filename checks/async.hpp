// Helpers for runs in which the simulation has its own thread: an identity that
// travels with entities, snapshots of either registry and their comparison.
#ifndef VERIF_ASYNC_HPP
#define VERIF_ASYNC_HPP
#include "islands.hpp"
#include <edyn/replication/register_external.hpp>
#include <edyn/comp/shared_comp.hpp>
#include <edyn/collision/contact_manifold.hpp>
#include <edyn/collision/contact_point.hpp>
#include <edyn/context/step_callback.hpp>
namespace as {
using namespace edyn; using isl::id;
// An application component, replicated like any other.
struct uid { unsigned v = 0; };
template<typename A> void serialize(A &a, uid &u) { a(u.v); }
struct Body { std::map<std::string, std::vector<double>> vals; std::set<std::string> has; std::vector<unsigned> group; };
struct Contact { unsigned points = 0; bool asleep = false; };
struct Snap { std::map<unsigned, Body> bodies; std::map<unsigned, std::pair<unsigned, unsigned>> joints; std::map<std::pair<unsigned, unsigned>, Contact> contacts; unsigned points = 0, islands = 0; };
template<typename T> std::string tname() { return std::string(entt::type_id<T>().name()); }
inline void put(std::vector<double> &o, const vector3 &v) { o.push_back(v.x); o.push_back(v.y); o.push_back(v.z); }
inline Snap snapshot(entt::registry &r, const char *who) {
    Snap s; std::map<entt::entity, unsigned> ids; std::map<entt::entity, std::vector<unsigned>> groups;
    for (auto [e, u] : r.view<uid>().each()) ids[e] = u.v;
    for (auto [e, u] : r.view<uid>().each()) if (r.all_of<rigidbody_tag>(e)) {
        SIM_CHECK(!s.bodies.count(u.v), "duplicate", "%s has body %u twice", who, u.v); auto &b = s.bodies[u.v];
        std::apply([&](auto... c) { ((r.all_of<decltype(c)>(e) ? void(b.has.insert(tname<decltype(c)>())) : void()), ...); }, shared_components_t{});
        auto vec = [&](const char *n, auto *p) { if (p) put(b.vals[n], *p); }; auto num = [&](const char *n, auto *p) { if (p) b.vals[n].push_back(double(*p)); };
        auto mat = [&](const char *n, auto *p) { if (p) for (auto &row : p->row) put(b.vals[n], row); };
        vec("position", r.try_get<position>(e)); vec("linvel", r.try_get<linvel>(e)); vec("angvel", r.try_get<angvel>(e)); vec("gravity", r.try_get<gravity>(e)); vec("center of mass", r.try_get<center_of_mass>(e));
        if (auto *q = r.try_get<orientation>(e)) b.vals["orientation"] = {q->x, q->y, q->z, q->w};
        num("mass", r.try_get<mass>(e)); num("inverse mass", r.try_get<mass_inv>(e)); mat("inertia", r.try_get<inertia>(e)); mat("inverse inertia", r.try_get<inertia_inv>(e));
        if (auto *m = r.try_get<material>(e)) b.vals["material"] = {double(m->id), m->restitution, m->friction, m->spin_friction, m->roll_friction, m->stiffness, m->damping};
        if (auto *i = r.try_get<shape_index>(e)) b.vals["shape"].push_back(double(i->value));
        if (auto *f = r.try_get<collision_filter>(e)) b.vals["filter"] = {double(f->group), double(f->mask)};
        if (auto *x = r.try_get<collision_exclusion>(e)) { std::set<unsigned> o; for (unsigned k = 0; k < x->num_entities(); ++k) if (ids.count(x->entity[k])) o.insert(ids[x->entity[k]]); for (auto k : o) b.vals["exclusions"].push_back(k); }
        if (auto *ir = r.try_get<island_resident>(e); ir && r.all_of<procedural_tag>(e)) groups[ir->island_entity].push_back(u.v);
    }
    for (auto &[e, g] : groups) { std::sort(g.begin(), g.end()); for (auto u : g) s.bodies[u].group = g; }
    s.islands = unsigned(r.view<island_tag>().size());
    for (auto &[e, i] : isl::edges(r)) if (!r.any_of<contact_manifold, contact_point>(e)) {
        SIM_CHECK(ids.count(e), "unknown-joint", "%s has a constraint nobody made", who);
        SIM_CHECK(ids.count(i.a) && ids.count(i.b) && r.all_of<rigidbody_tag>(i.a) && r.all_of<rigidbody_tag>(i.b), "dangling", "constraint %u in %s refers to bodies that do not exist", ids[e], who); s.joints[ids[e]] = {ids[i.a], ids[i.b]};
    }
    std::set<entt::entity> listed;
    for (auto [e, m, st] : r.view<contact_manifold, contact_manifold_state>().each()) {
        SIM_CHECK(r.valid(m.body[0]) && r.valid(m.body[1]) && ids.count(m.body[0]) && ids.count(m.body[1]), "dangling", "contact in %s refers to bodies that do not exist", who);
        auto k = std::minmax(ids[m.body[0]], ids[m.body[1]]); SIM_CHECK(!s.contacts.count(k), "duplicate", "%s has two contacts between bodies %u and %u", who, k.first, k.second);
        auto &c = s.contacts[k]; c.asleep = r.all_of<sleeping_tag>(e); unsigned n = 0;
        for (auto p = st.contact_entity; p != entt::null; ++n) { SIM_CHECK(n < max_contacts && r.valid(p) && (r.all_of<contact_point_list, contact_point>(p)), "point-list", "contact between bodies %u and %u in %s claims %u points, but the list breaks after %u", k.first, k.second, who, unsigned(st.num_points), n); listed.insert(p); p = r.get<contact_point_list>(p).next; }
        SIM_CHECK(n == st.num_points, "point-list", "contact between bodies %u and %u in %s claims %u points but has %u", k.first, k.second, who, unsigned(st.num_points), n); c.points = n;
    }
    for (auto e : r.view<contact_point>()) SIM_CHECK(listed.count(e), "orphan-point", "contact point in %s belongs to no contact", who);
    s.points = unsigned(listed.size()); return s;
}
// Exclusions refer to entities, so they are only compared if no entity was destroyed or reused.
inline void compare(const Snap &m, const Snap &w, bool exclusions) {
    for (auto &[u, b] : m.bodies) SIM_CHECK(w.bodies.count(u), "missing-body", "body %u of the application does not exist in the simulation", u);
    for (auto &[u, b] : w.bodies) SIM_CHECK(m.bodies.count(u), "leftover-body", "body %u was destroyed but still exists in the simulation", u);
    for (auto &[u, j] : m.joints) SIM_CHECK(w.joints.count(u) && w.joints.at(u) == j, "missing-joint", "constraint %u of the application does not exist in the simulation", u);
    for (auto &[u, j] : w.joints) SIM_CHECK(m.joints.count(u), "leftover-joint", "constraint %u was destroyed but still exists in the simulation", u);
    for (auto &[u, b] : m.bodies) {
        auto &x = w.bodies.at(u);
        for (auto &h : b.has) SIM_CHECK(x.has.count(h), "component", "body %u has %s in the application but not in the simulation", u, h.c_str());
        for (auto &h : x.has) SIM_CHECK(b.has.count(h), "component", "body %u has %s in the simulation but not in the application", u, h.c_str());
        static const std::vector<double> none; for (auto &[n, v] : b.vals) { if (n == "exclusions" && !exclusions) continue; auto it = x.vals.find(n); auto &y = it == x.vals.end() ? none : it->second; for (size_t i = 0; i < std::max(v.size(), y.size()); ++i) SIM_CHECK(i < v.size() && i < y.size() && v[i] == y[i], "value", "%s[%zu] of body %u is %.9g in the application and %.9g in the simulation", n.c_str(), i, u, i < v.size() ? v[i] : -1, i < y.size() ? y[i] : -1); }
        SIM_CHECK(b.group == x.group, "island", "body %u is in an island of %zu bodies in the application and of %zu in the simulation", u, b.group.size(), x.group.size());
    }
    for (auto &[k, c] : w.contacts) { SIM_CHECK(m.contacts.count(k), "missing-contact", "contact between bodies %u and %u in the simulation is not in the application", k.first, k.second); SIM_CHECK(m.contacts.at(k).points == c.points, "contact-points", "contact between bodies %u and %u has %u points in the simulation and %u in the application", k.first, k.second, c.points, m.contacts.at(k).points); SIM_CHECK(m.contacts.at(k).asleep == c.asleep, "contact-asleep", "contact between bodies %u and %u is asleep on one side only", k.first, k.second); }
    for (auto &[k, c] : m.contacts) SIM_CHECK(w.contacts.count(k), "leftover-contact", "contact between bodies %u and %u in the application is not in the simulation", k.first, k.second);
    SIM_CHECK(m.islands == w.islands, "islands", "the application has %u islands, the simulation %u", m.islands, w.islands);
}
}
#endif
