// P15: what clients see converges to what the server holds.
#include "net.hpp"
#include <edyn/util/island_util.hpp>
using namespace edyn; using net::uid;
namespace {
struct Body { bool alive = true; entt::entity e; unsigned u; int owner = 0; int cell; unsigned kind; std::vector<uint64_t> changed; bool owner_safe = true; };
struct Joint { bool alive = true; entt::entity e; unsigned u; unsigned a, b; int owner; };
entt::entity find(entt::registry &r, unsigned u) { for (auto [e, x] : r.view<uid>().each()) if (x.v == u) return e; return entt::null; }
unsigned ms() { return unsigned(sim::now_ns() / 1000000); }
struct World {
    net::Net n; std::vector<Body> bodies; std::vector<Joint> joints; unsigned next = 1; std::set<int> used; std::vector<uint64_t> cut; bool asked_less = false;
    std::map<int, AABB> interest; std::map<int, uint64_t> edited; std::vector<uint64_t> removed; // clients drop updates of entities that are gone, with all that comes with them
     std::vector<unsigned> ever;
    vector3 at(int cell) const { return {scalar(cell % 10 - 5) * 8, scalar(cell / 10) * 8, 0}; }
    int cell() { for (int i = 0; i < 20; ++i) { int c = int(sim::pick(60)); if (used.insert(c).second) return c; } return -1; }
    entt::registry &reg(int o) { return o ? n.clients[o - 1]->reg : n.reg; }
    bool online(int o) { return !o || (n.clients[o - 1]->connected && reg(o).ctx().get<client_network_context>().client_entity != entt::null); }
    void add(int o) {
        int k = cell(); if (k < 0) return; rigidbody_def d = w::ball(at(k), scalar(0.5), scalar(sim::range(1, 4))); if (sim::pick(3) == 0) d.shape = box_shape{vector3{scalar(0.5), scalar(0.4), scalar(0.6)}}; d.networked = true; d.gravity = vector3_zero; d.material->friction = scalar(sim::pick(8)) / 8; unsigned kind = sim::pick(5); if (kind == 3) d.kind = rigidbody_kind::rb_kinematic; else if (kind == 4) d.kind = rigidbody_kind::rb_static; else kind = 0;
        if (sim::pick(3) == 0) d.sleeping_disabled = true;
        auto &r = reg(o); net::At a(o); Body b; b.u = next++; b.owner = o; b.cell = k; b.kind = kind; b.e = r.create(); r.emplace<uid>(b.e, uid{b.u}); make_rigidbody(b.e, r, d); bodies.push_back(b); sim::tracef("%u: node %d makes body %u kind %u in cell %d", ms(), b.owner, b.u, kind, k);
    }
    int some(int o, bool dyn, bool any = false) { std::vector<int> v; for (unsigned i = 0; i < bodies.size(); ++i) if (bodies[i].alive && (any || bodies[i].owner == o) && (!dyn || bodies[i].kind == 0) && find(reg(o), bodies[i].u) != entt::null) v.push_back(int(i)); return v.empty() ? -1 : v[sim::pick(unsigned(v.size()))]; }
    // Bodies that ever were connected, in any way.
    std::set<unsigned> around(unsigned i) { std::set<unsigned> s{i}; for (bool more = true; more;) { more = false; for (auto &j : joints) if (s.count(j.a) != s.count(j.b)) { s.insert(j.a); s.insert(j.b); more = true; } } return s; }
    // A client that is allowed to takes over the islands it is in: what the server
    // changes in them in the meantime is not specified.
    bool mixed(unsigned i) { std::set<int> owners; for (auto k : around(i)) owners.insert(bodies[k].owner); return owners.size() > 1; }
    bool pristine(unsigned i) { for (auto k : around(i)) if (!bodies[k].changed.empty()) return false; return true; }
    void join(int o) {
        if (o && interest.count(o)) return; // as in destroy
        edited[o] = sim::now_ns();
        int a = some(o, true), b = some(o, false, sim::pick(3) == 0); if (a < 0 || b < 0 || a == b) return; if ((bodies[b].owner != o || mixed(a) || mixed(b)) && (!pristine(a) || !pristine(b))) return; auto &r = reg(o); net::At at(o); Joint j; j.u = next++; j.a = a; j.b = b; j.owner = o; auto ea = find(r, bodies[a].u), eb = find(r, bodies[b].u);
        j.e = r.create(); r.emplace<uid>(j.e, uid{j.u}); r.emplace<networked_tag>(j.e); auto &pa = r.get<position>(ea), &pb = r.get<position>(eb); scalar len = scalar(w::dist(pa, pb));
        if (sim::pick(2)) make_constraint<distance_constraint>(r, j.e, ea, eb, [&](distance_constraint &c) { c.distance = len; }); else make_constraint<null_constraint>(r, j.e, ea, eb);
        if (bodies[b].owner != o) sim::probe("joined to a body of another node"); joints.push_back(j); sim::tracef("%u: node %d joins bodies %u and %u as %u", ms(), o, bodies[a].u, bodies[b].u, j.u); sim::probe("joined");
    }
    void destroy(int o, bool joint) {
        if (o && interest.count(o)) return; // see the known finding below
        edited[o] = sim::now_ns();
        auto &r = reg(o); net::At at(o); removed.push_back(sim::now_ns());
        if (joint) { for (auto &j : joints) if (j.alive && j.owner == o && sim::pick(2) == 0) { auto e = find(r, j.u); if (e == entt::null) continue; j.alive = false; sim::tracef("%u: node %d destroys joint %u", ms(), o, j.u); r.destroy(e); return; } return; }
        int i = some(o, false); if (i < 0) return; auto &b = bodies[i]; b.alive = false; sim::tracef("%u: node %d destroys body %u", ms(), o, b.u); r.destroy(find(r, b.u)); for (auto &j : joints) if (j.alive && (int(j.a) == i || int(j.b) == i)) j.alive = false;
    }
    void change(int o) {
        int i = some(o, false); if (i < 0 || mixed(i)) return; auto &b = bodies[i]; auto &r = reg(o); net::At at(o); auto e = find(r, b.u); b.changed.push_back(sim::now_ns());
        switch (sim::pick(3)) {
        case 0: if (b.kind == 0) { sim::tracef("%u: node %d sets velocity of body %u", ms(), o, b.u); r.replace<linvel>(e, vector3{0, 0, scalar(sim::range(1, 3))}); wake_up_entity(r, e); sim::probe("velocity changed"); } break;
        case 1: { sim::tracef("%u: node %d sets friction of body %u", ms(), o, b.u); auto m = r.get<material>(e); m.friction = scalar(sim::pick(16)) / 16; r.replace<material>(e, m); wake_up_entity(r, e); sim::probe("friction changed"); break; }
        default: if (b.kind == 0) { sim::tracef("%u: node %d sets mass of body %u", ms(), o, b.u); set_rigidbody_mass(r, e, scalar(sim::range(1, 9))); wake_up_entity(r, e); sim::probe("mass changed"); } break;
        }
    }
    void look(net::Client &c) {
        if (edited.count(c.id) && sim::now_ns() < edited[c.id] + 4000000000ull) { if (sim::pick(2)) return; n.run(4000000000ull); if (!c.connected) return; } // see the known finding below
        AABB b{{-500, -500, -500}, {500, 500, 500}}; if (sim::pick(3)) { b.min.x = scalar(int(sim::pick(10)) - 5) * 8 - 4; b.max.x = b.min.x + 8 * scalar(sim::range(1, 9)); }
        interest[c.id] = b; packet::set_aabb_of_interest p; p.min = b.min; p.max = b.max; c.packet_out(packet::edyn_packet{p}); sim::tracef("%u: client %d looks at x %g..%g", ms(), c.id, b.min.x, b.max.x); sim::probe("interest changed");
    }
    // 1 if the client has to see it, 0 if it must not, -1 if both are right.
    int visible(net::Client &c, unsigned i, const std::vector<unsigned> &group) {
        auto it = interest.find(c.id); if (it == interest.end()) return 1; auto &b = it->second; bool any = false, all_out = true;
        for (unsigned k = 0; k < bodies.size(); ++k) if (bodies[k].alive && (bodies[i].kind == 0 && bodies[k].kind == 0 ? group[k] == group[i] : k == i)) { scalar x = at(bodies[k].cell).x; if (x > b.min.x + 1 && x < b.max.x - 1) any = true; if (x > b.min.x - 2 && x < b.max.x + 2) all_out = false; }
        // the bounds of an island cover the space between its bodies, and the tree that is searched does not shrink them
        if (bodies[i].kind == 0) { scalar lo = 1e9, hi = -1e9; for (unsigned k = 0; k < bodies.size(); ++k) if (bodies[k].kind == 0 && ever[k] == ever[i]) { scalar x = at(bodies[k].cell).x; lo = std::min(lo, x); hi = std::max(hi, x); } if (hi + 2 > b.min.x && lo - 2 < b.max.x) all_out = false; }
        for (unsigned k = 0; k < bodies.size(); ++k) if (bodies[k].alive && bodies[k].owner == c.id && (k == i || group[k] == group[i])) all_out = false; // its own stay until they enter and leave
        if (bodies[i].kind != 0) for (auto &j : joints) if (j.alive && (j.a == i || j.b == i)) { unsigned k = j.a == i ? j.b : j.a; if (bodies[k].kind == 0 && visible(c, k, group) != 0) all_out = false; } // part of that island too
        return any ? 1 : all_out ? 0 : -1;
    }
};
}
SIM_SCENARIO(clients_converge, 1) {
    sim::set_step_budget(400000000); sim::ignore_silent_stores(true); World w; auto &n = w.n; scalar dt = scalar(1.0 / 20); bool wild = sim::pick(3) == 0;
    for (auto &o : net::offset) o = 100 + sim::pick(100000) * 1e-2;
    auto connect = [&] { auto &c = n.connect(dt, sim::pick(3) != 0, uint64_t(sim::range(1, 120)) * 1000000, sim::pick(2) ? 20000000 : 0, wild); sim::tracef("%u: client %d connects, %s", ms(), c.id, c.full ? "full ownership" : "input only"); if (sim::pick(2)) { net::At a(c.id); set_network_client_extrapolation_enabled(c.reg, false); } };
    n.start_server(dt); unsigned nc = sim::range(1, 2); for (unsigned i = 0; i < nc; ++i) connect();
    unsigned steps = sim::range(1, 24);
    for (unsigned i = 0; i < steps; ++i) {
        int o = int(sim::pick(unsigned(n.clients.size()) + 2)) - 1; if (o < 0) o = 0; if (!w.online(o)) o = 0;
        switch (sim::pick(12)) {
        case 0: case 1: w.add(o); break;
        case 2: for (unsigned k = sim::range(1, 6); k--;) w.add(o); for (unsigned k = sim::pick(3); k--;) w.join(o); sim::probe("several made at once"); break;
        case 3: case 4: w.join(o); break;
        case 5: w.destroy(o, false); break;
        case 6: w.destroy(o, true); break;
        case 7: case 8: w.change(o); break;
        case 9: if (o && w.online(o)) w.look(*n.clients[o - 1]); break;
        case 10: if (n.clients.size() < 3 && sim::pick(2)) { connect(); sim::probe("late connection"); } break;
        default: if (o && sim::pick(3) == 0 && sim::fault(sim::F_DISCONNECT, 1, 1)) { sim::tracef("%u: client %d disconnects", ms(), o); w.removed.push_back(sim::now_ns()); n.disconnect(*n.clients[o - 1]); for (auto &b : w.bodies) if (b.owner == o && b.alive) { b.alive = false; for (auto &j : w.joints) if (&w.bodies[j.a] == &b || &w.bodies[j.b] == &b) j.alive = false; } for (auto &j : w.joints) if (j.owner == o) j.alive = false; sim::probe("disconnected"); } break;
        }
        if (sim::pick(4) || i + 1 == steps) n.run(uint64_t(sim::range(1, 400)) * 1000000);
    }
    sim::stop_faults(); n.stalls = false; for (auto &c : n.clients) c->up.dark_until = c->down.dark_until = 0;
    n.run(1500000000ull);
    for (auto &b : w.bodies) if (b.alive && b.kind == 0) for (int o : {0, b.owner}) { auto &r = w.reg(o); net::At a(o); auto e = find(r, b.u); if (e != entt::null) { r.replace<linvel>(e, vector3_zero); r.replace<angvel>(e, vector3_zero); wake_up_entity(r, e); } }
    n.run(2500000000ull);
    auto connected = [&](bool dead) {
        std::vector<unsigned> group(w.bodies.size()); for (unsigned i = 0; i < group.size(); ++i) group[i] = i;
        for (bool more = true; more;) { more = false; for (auto &j : w.joints) if ((dead || j.alive) && w.bodies[j.a].kind == 0 && w.bodies[j.b].kind == 0) { auto g = std::min(group[j.a], group[j.b]); if (group[j.a] != g || group[j.b] != g) { group[j.a] = group[j.b] = g; more = true; } } }
        return group;
    };
    auto group = connected(false); w.ever = connected(true);
    for (auto &b : w.bodies) { auto se = find(n.reg, b.u); if (b.alive) SIM_CHECK(se != entt::null, "missing-on-server", "body %u made by node %d does not exist on the server", b.u, b.owner); else SIM_CHECK(se == entt::null, "leftover-on-server", "body %u of node %d was destroyed but still exists on the server", b.u, b.owner); }
    for (auto &j : w.joints) { auto se = find(n.reg, j.u); if (j.alive) SIM_CHECK(se != entt::null && n.reg.all_of<graph_edge>(se), "missing-on-server", "constraint %u made by node %d does not exist on the server", j.u, j.owner); else SIM_CHECK(se == entt::null || !n.reg.all_of<graph_edge>(se), "leftover-on-server", "constraint %u of node %d was destroyed but still exists on the server", j.u, j.owner); }
    for (auto &c : n.clients) if (c->connected) {
        std::map<unsigned, entt::entity> seen; for (auto [e, x] : c->reg.view<uid>().each()) { SIM_CHECK(!seen.count(x.v), "duplicate", "client %d has entity %u twice", c->id, x.v); seen[x.v] = e; }
        auto &ctx = c->reg.ctx().get<client_network_context>(); unsigned shown = 0;
        for (unsigned i = 0; i < w.bodies.size(); ++i) {
            auto &b = w.bodies[i]; auto se = find(n.reg, b.u); bool has = seen.count(b.u);
            if (!b.alive) { SIM_CHECK(!has, "leftover-on-client", "body %u of node %d was destroyed but still exists on client %d", b.u, b.owner, c->id); continue; }
            int v = w.visible(*c, i, group); if (v == 1) SIM_CHECK(has, "missing-on-client", "body %u made by node %d is of interest to client %d but does not exist there", b.u, b.owner, c->id); if (v == 0) SIM_CHECK(!has, "unwanted-on-client", "body %u made by node %d is not of interest to client %d but exists there", b.u, b.owner, c->id);
            if (!has) continue; ++shown; auto ce = seen[b.u]; auto &p = n.reg.get<position>(se), &q = c->reg.get<position>(ce); bool told = v == 1 || b.owner != c->id || c->full; if (told) SIM_CHECK(w::dist(p, q) < (w.around(i).size() > 1 ? 2e-2 : 1e-3), "position", "body %u is at (%g %g %g) on the server and at (%g %g %g) on client %d", b.u, p.x, p.y, p.z, q.x, q.y, q.z, c->id);
            SIM_CHECK((c->reg.all_of<dynamic_tag>(ce) == (b.kind == 0) && c->reg.all_of<kinematic_tag>(ce) == (b.kind == 3) && c->reg.all_of<static_tag>(ce) == (b.kind == 4) && c->reg.all_of<rigidbody_tag, graph_node, networked_tag>(ce)), "component", "body %u has components on client %d unlike those on the server", b.u, c->id);
            auto *ow = c->reg.try_get<entity_owner>(ce); auto *so = n.reg.try_get<entity_owner>(se); SIM_CHECK(bool(ow) == (b.owner != 0) && bool(so) == (b.owner != 0), "owner", "body %u of node %d %s an owner on client %d and %s one on the server", b.u, b.owner, ow ? "has" : "does not have", c->id, so ? "has" : "does not have");
            if (b.owner) { SIM_CHECK(so->client_entity == n.clients[b.owner - 1]->on_server, "owner", "body %u belongs to client %d but not on the server", b.u, b.owner); SIM_CHECK((ow->client_entity == ctx.client_entity) == (b.owner == c->id), "owner", "body %u belongs to client %d, client %d sees it %s", b.u, b.owner, c->id, ow->client_entity == ctx.client_entity ? "as its own" : "as someone else's"); }
            bool safe = !wild && (b.owner == 0 || (b.owner == c->id)); auto risky = [&](net::Link &l) { for (auto t : b.changed) for (auto x : l.lost_at) if (x >= t && x <= t + 700000000ull) return true; for (auto t : b.changed) for (auto x : w.removed) if (x + 700000000ull >= t && x <= t + 1500000000ull) return true; return false; };
            if (safe && !risky(c->down) && !risky(c->up)) { auto &m = n.reg.get<material>(se), &k = c->reg.get<material>(ce); if (b.owner == 0 || c->full) { SIM_CHECK(m.friction == k.friction, "material", "body %u has friction %g on the server and %g on client %d", b.u, m.friction, k.friction, c->id); if (b.kind == 0) SIM_CHECK(double(scalar(n.reg.get<edyn::mass>(se))) == double(scalar(c->reg.get<edyn::mass>(ce))), "mass", "body %u has mass %g on the server and %g on client %d", b.u, double(scalar(n.reg.get<edyn::mass>(se))), double(scalar(c->reg.get<edyn::mass>(ce))), c->id); sim::probe("values compared"); } }
        }
        for (auto &j : w.joints) {
            bool has = seen.count(j.u) && c->reg.all_of<graph_edge>(seen[j.u]); if (!j.alive) { SIM_CHECK(!has, "leftover-on-client", "constraint %u of node %d was destroyed but still exists on client %d", j.u, j.owner, c->id); continue; }
            unsigned i = w.bodies[j.a].kind == 0 ? j.a : j.b; int v = w.visible(*c, i, group); if (w.bodies[j.a].kind != 0 || w.bodies[j.b].kind != 0) { unsigned k = i == j.a ? j.b : j.a; if (w.visible(*c, k, group) != v) continue; }
            if (v == 1) SIM_CHECK(has, "missing-on-client", "constraint %u made by node %d is of interest to client %d but does not exist there", j.u, j.owner, c->id); if (v == 0) SIM_CHECK(!has, "unwanted-on-client", "constraint %u is not of interest to client %d but exists there", j.u, c->id);
        }
        sim::state(h::mixh(h::mixh(shown, seen.size()), h::mixh(c->id * 4 + c->full * 2 + wild, w.joints.size())));
    }
    for (auto &c : n.clients) n.close(*c); n.stop(); h::check_no_threads("after the nodes ended");
}

// Known finding: the server forgets which entity is meant when it leaves the area
// of interest of the client that owns it, and then cannot destroy it.
SIM_SCENARIO(owner_destroys_entity_leaving_its_interest, 0) {
    sim::set_step_budget(400000000); sim::ignore_silent_stores(true); sim::stop_faults(); World w; auto &n = w.n; n.stalls = false; scalar dt = scalar(1.0 / 20);
    n.start_server(dt); auto &c = n.connect(dt, false, 100000000, 0, false); n.run(1000000000ull); { net::At a(1); set_network_client_extrapolation_enabled(c.reg, false); }
    entt::entity e; { net::At a(1); rigidbody_def d = w::ball({30, 0, 0}, scalar(0.5), 1); d.networked = true; d.gravity = vector3_zero; e = c.reg.create(); c.reg.emplace<uid>(e, uid{1}); make_rigidbody(e, c.reg, d); }
    n.run(1500000000ull); SIM_CHECK(find(n.reg, 1) != entt::null, "missing-on-server", "the body does not exist on the server");
    packet::set_aabb_of_interest p; p.min = {-10, -10, -10}; p.max = {10, 10, 10}; c.packet_out(packet::edyn_packet{p}); n.run(80000000ull);
    { net::At a(1); SIM_CHECK(c.reg.valid(e), "unwanted", "the body was removed before the server knew of the change"); c.reg.destroy(e); } n.run(2000000000ull);
    SIM_CHECK(find(n.reg, 1) == entt::null, "leftover-on-server", "body destroyed by its owner while it left the area of interest of that client still exists on the server");
    n.close(c); n.stop(); h::check_no_threads("after the nodes ended");
}
