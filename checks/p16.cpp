// P16: a client cannot alter or destroy what it does not own, whatever it sends.
#include "net.hpp"
#include <edyn/networking/packet/create_entity.hpp>
#include <edyn/networking/packet/destroy_entity.hpp>
using namespace edyn; using net::uid;
namespace {
struct hand : network_input { double v = 0; };
template<typename A> void serialize(A &a, hand &x) { a(x.v); }
struct Body { entt::entity server; unsigned u; int owner; vector3 pos; scalar mass, friction; double input; };
entt::entity find(entt::registry &r, unsigned u) { for (auto [e, x] : r.view<uid>().each()) if (x.v == u) return e; return entt::null; }
struct World {
    net::Net n; std::vector<Body> bodies; unsigned next = 1;
    entt::entity make(entt::registry &r, int owner) {
        Body b{entt::null, next++, owner, vector3{scalar(bodies.size()) * 10, 0, 0}, scalar(sim::range(1, 5)), scalar(sim::pick(8)) / 8, 0}; rigidbody_def d = w::ball(b.pos, scalar(0.5), b.mass); d.networked = true; d.gravity = vector3_zero; d.material->friction = b.friction; d.sleeping_disabled = sim::pick(2);
        auto e = r.create(); r.emplace<uid>(e, uid{b.u}); r.emplace<hand>(e); make_rigidbody(e, r, d); bodies.push_back(b); return e;
    }
    void check(const char *when) {
        for (auto &b : bodies) {
            auto e = b.server; if (e == entt::null) continue; SIM_CHECK((n.reg.valid(e) && n.reg.all_of<uid, position>(e) && n.reg.get<uid>(e).v == b.u), "destroyed", "body %u of node %d does not exist anymore on the server, %s", b.u, b.owner, when);
            auto &p = n.reg.get<position>(e); SIM_CHECK(w::dist(p, b.pos) < 1e-3, "moved", "body %u of node %d moved to (%g %g %g) on the server, %s", b.u, b.owner, p.x, p.y, p.z, when);
            SIM_CHECK(scalar(n.reg.get<edyn::mass>(e)) == b.mass && n.reg.get<material>(e).friction == b.friction && n.reg.get<linvel>(e) == vector3_zero, "altered", "mass, friction or velocity of body %u of node %d changed on the server, %s", b.u, b.owner, when);
            SIM_CHECK(n.reg.get<hand>(e).v == b.input, "input", "input of body %u of node %d is %g instead of %g, %s", b.u, b.owner, n.reg.get<hand>(e).v, b.input, when);
            auto *o = n.reg.try_get<entity_owner>(e); SIM_CHECK(bool(o) == (b.owner != 0) && (!o || o->client_entity == n.clients[b.owner - 1]->on_server), "owner", "body %u of node %d changed owner on the server, %s", b.u, b.owner, when);
        }
    }
};
}
SIM_SCENARIO(cheating_client, 1) {
    sim::set_step_budget(400000000); sim::ignore_silent_stores(true); World w; auto &n = w.n; scalar dt = scalar(1.0 / 20); bool wild = sim::pick(2); n.stalls = false;
    for (auto &o : net::offset) o = 100 + sim::pick(100000) * 1e-2;
    n.start_server<hand>(dt); unsigned nc = sim::range(1, 2); for (unsigned i = 0; i < nc; ++i) { auto &c = n.connect<hand>(dt, sim::pick(2), uint64_t(sim::range(1, 60)) * 1000000, 0, wild); net::At a(c.id); set_network_client_extrapolation_enabled(c.reg, false); }
    n.run(600000000ull); unsigned k = sim::range(1, 2); { net::At a(0); for (unsigned i = 0; i < k; ++i) w.make(n.reg, 0); }
    for (auto &c : n.clients) for (unsigned i = 0, m = sim::range(0, 2); i < m; ++i) { net::At a(c->id); w.make(c->reg, c->id); }
    n.run(2500000000ull); for (auto &b : w.bodies) { b.server = find(n.reg, b.u); }
    w.check("before anything forged was sent");
    auto &c = *n.clients[sim::pick(nc)]; auto &ctx = c.reg.ctx().get<client_network_context>(); unsigned steps = sim::range(1, 8); bool honest_input = false; (void)honest_input;
    for (unsigned s = 0; s < steps; ++s) {
        std::vector<entt::entity> chosen; bool own = false; for (auto &b : w.bodies) if (auto e = find(c.reg, b.u); e != entt::null && sim::pick(2)) { if (b.owner == c.id) { if (c.full) continue; own = true; } chosen.push_back(e); }
        if (chosen.empty()) { n.run(100000000); continue; } net::At a(c.id); packet::edyn_packet out; const char *what = ""; double stamp = net::clocks[c.id]() - sim::pick(3) * 0.1;
        // the cheater edits its replicas behind the back of the library
        ctx.snapshot_exporter->set_observer_enabled(false);
        std::vector<vector3> was; for (auto e : chosen) { was.push_back(c.reg.get<position>(e)); c.reg.get<position>(e).y += scalar(sim::range(1, 50)); c.reg.get<linvel>(e).z = 3; c.reg.get<edyn::mass>(e).s = 7.5; c.reg.get<material>(e).friction = scalar(0.3); bool mine = false; for (auto &b : w.bodies) if (b.owner == c.id && find(c.reg, b.u) == e) mine = true; if (!mine) c.reg.get<hand>(e).v = 99; }
        switch (sim::pick(4)) {
        case 0: { packet::registry_snapshot p; p.timestamp = stamp; ctx.snapshot_exporter->export_all(p, chosen); out.var = p; what = "after a forged snapshot"; sim::probe("forged snapshot"); break; }
        case 1: { packet::create_entity p; p.timestamp = stamp; ctx.snapshot_exporter->export_all(p, chosen); out.var = p; what = "after its creation was requested again"; sim::probe("forged creation"); break; }
        case 2: { packet::destroy_entity p; p.timestamp = stamp; for (auto e : chosen) { bool mine = false; for (auto &b : w.bodies) if (b.owner == c.id && find(c.reg, b.u) == e) mine = true; if (!mine) p.entities.push_back(e); } out.var = p; what = "after a forged destruction"; sim::probe("forged destruction"); break; }
        default: { // claims other bodies as its own
            if (own) break; for (auto e : chosen) { if (c.reg.all_of<entity_owner>(e)) c.reg.get<entity_owner>(e).client_entity = ctx.client_entity; else { ctx.importing_entities = true; c.reg.emplace<entity_owner>(e, ctx.client_entity); ctx.importing_entities = false; } }
            packet::registry_snapshot p; p.timestamp = stamp; ctx.snapshot_exporter->export_all(p, chosen); out.var = p; what = "after a claim of ownership"; sim::probe("forged owner");
            break; }
        }
        ctx.snapshot_exporter->set_observer_enabled(true); sim::tracef("client %d %s: %zu entities", c.id, what, chosen.size()); if (*what) c.packet_out(out);
        for (unsigned i = 0; i < chosen.size(); ++i) if (c.reg.valid(chosen[i])) c.reg.get<position>(chosen[i]) = position{was[i]};
        n.run(uint64_t(sim::range(20, 700)) * 1000000); w.check(*what ? what : "while nothing was sent"); sim::state(h::mixh(s, h::mixh(chosen.size(), sim::pick(1) + (*what ? what[8] : 0))));
    }
    sim::stop_faults(); n.run(1000000000ull); w.check("in the end");
    // what an honest client is allowed to do still works: its input reaches the server
    for (auto &o : n.clients) for (auto &b : w.bodies) if (b.owner == o->id && o.get() != &c) { auto e = find(o->reg, b.u); net::At a(o->id); o->reg.patch<hand>(e, [&](hand &x) { x.v = b.u + 0.5; }); b.input = b.u + 0.5; sim::probe("honest input"); }
    n.run(1200000000ull); w.check("after honest input");
    for (auto &o : n.clients) n.close(*o); n.stop(); h::check_no_threads("after the nodes ended");
}
