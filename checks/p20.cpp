// P20: an action performed in a client is executed exactly once by the server.
#include "net.hpp"
#include <edyn/comp/action_list.hpp>
#include <edyn/replication/register_external.hpp>
#include <edyn/networking/comp/action_history.hpp>
#include <edyn/networking/context/client_network_context.hpp>
using namespace edyn; using net::uid;
namespace {
struct jump { unsigned id = 0; }; struct shoot { unsigned id = 0; };
template<typename A> void serialize(A &a, jump &x) { a(x.id); }
template<typename A> void serialize(A &a, shoot &x) { a(x.id); }
struct Done { unsigned id; int client; unsigned body; uint64_t at; bool executed = false; };
entt::entity find(entt::registry &r, unsigned u) { for (auto [e, x] : r.view<uid>().each()) if (x.v == u) return e; return entt::null; }
struct World {
    net::Net n; std::vector<Done> acts; std::map<std::pair<unsigned, int>, unsigned> latest; unsigned next = 1, executed = 0;
    template<typename A> void collect(int type) {
        for (auto [e, list, u] : n.reg.view<action_list<A>, uid>().each()) {
            for (auto &a : list.actions) {
                SIM_CHECK(a.id >= 1 && a.id <= acts.size(), "invented", "action %u was executed but never performed", a.id); auto &d = acts[a.id - 1];
                SIM_CHECK(d.body == u.v, "misdirected", "action %u on entity %u was executed on entity %u", a.id, d.body, u.v); SIM_CHECK(!d.executed, "repeated", "action %u of client %d on entity %u, performed at %.3f s, was executed again at %.3f s", a.id, d.client, d.body, d.at * 1e-9, sim::now_ns() * 1e-9);
                auto &l = latest[{u.v, type}]; SIM_CHECK(a.id > l, "order", "action %u on entity %u was executed after action %u", a.id, d.body, l); l = a.id; d.executed = true; ++executed;
            }
            list.actions.clear();
        }
    }
};
World *world;
void after_server_frame() { world->collect<jump>(0); world->collect<shoot>(1); }
}
SIM_SCENARIO(actions, 1) {
    sim::set_step_budget(400000000); sim::ignore_silent_stores(true); World w; world = &w; auto &n = w.n; scalar dt = scalar(1.0 / 50); bool wild = sim::pick(2); n.stalls = sim::pick(2); n.after_server = &after_server_frame;
    for (auto &o : net::offset) o = 100 + sim::pick(100000) * 1e-2; auto acts = std::tuple<jump, shoot>{};
    n.start_server<>(dt, acts); { net::At a(0); register_external_components<uid>(n.reg, acts); } unsigned nc = sim::range(1, 2);
    for (unsigned i = 0; i < nc; ++i) { auto &c = n.connect<>(dt, sim::pick(2), uint64_t(sim::range(1, 100)) * 1000000, sim::pick(2) ? 30000000 : 0, wild, acts); net::At a(c.id); set_network_client_extrapolation_enabled(c.reg, false); register_external_components<uid>(c.reg, acts); }
    n.run(700000000ull); std::vector<std::pair<int, unsigned>> bodies;
    for (auto &c : n.clients) for (unsigned i = 0, m = sim::range(1, 3); i < m; ++i) {
        net::At a(c->id); unsigned u = unsigned(bodies.size()) + 1; auto e = c->reg.create(); c->reg.emplace<uid>(e, uid{u}); rigidbody_def d = w::ball({scalar(u) * 5, 0, 0}, scalar(0.5), 1); d.networked = true; d.gravity = vector3_zero; c->reg.emplace<action_list<jump>>(e); c->reg.emplace<action_list<shoot>>(e); c->reg.emplace<action_history>(e); make_rigidbody(e, c->reg, d); bodies.push_back({c->id, u});
    }
    n.run(1500000000ull); unsigned steps = sim::range(1, 20);
    for (unsigned s = 0; s < steps; ++s) {
        unsigned k = sim::range(1, 3);
        for (unsigned i = 0; i < k; ++i) {
            auto [o, u] = bodies[sim::pick(unsigned(bodies.size()))]; auto &r = n.clients[o - 1]->reg; net::At a(o); auto e = find(r, u); if (e == entt::null || !r.all_of<action_list<jump>>(e)) continue;
            unsigned id = w.next++; w.acts.push_back({id, o, u, sim::now_ns()}); sim::tracef("%u ms: client %d acts on entity %u: action %u", unsigned(sim::now_ns() / 1000000), o, u, id); if (sim::pick(2)) r.patch<action_list<jump>>(e, [&](auto &l) { l.actions.push_back({id}); }); else r.patch<action_list<shoot>>(e, [&](auto &l) { l.actions.push_back({id}); });
        }
        n.run(uint64_t(sim::range(1, 400)) * 1000000);
    }
    sim::stop_faults(); n.stalls = false; n.run(4000000000ull);
    for (auto &d : w.acts) {
        auto &c = *n.clients[d.client - 1]; unsigned lost = 0; for (auto t : c.up.lost_at) if (t >= d.at && t <= d.at + 1200000000ull) ++lost; // resent during a second
        bool late = false; for (auto &f : c.late) if (f >= d.at && f <= d.at + 1500000000ull) late = true;
        if (!lost && !late) { SIM_CHECK(d.executed, "lost", "action %u of client %d on entity %u, performed at %.3f s, was never executed although no packet of that client was lost", d.id, d.client, d.body, d.at * 1e-9); sim::probe("required"); }
    }
    sim::state(h::mixh(w.executed, h::mixh(w.acts.size(), bodies.size()))); if (w.executed) sim::probe("executed");
    for (auto &o : n.clients) n.close(*o); n.stop(); h::check_no_threads("after the nodes ended");
}

// Known finding: the frames of a client are shorter than its steps, in sequential mode.
SIM_SCENARIO(frames_shorter_than_steps, 0) {
    sim::set_step_budget(400000000); sim::ignore_silent_stores(true); World w; world = &w; auto &n = w.n; scalar dt = scalar(1.0 / 10); n.stalls = false; n.after_server = &after_server_frame; for (auto &o : net::offset) o = 100;
    auto acts = std::tuple<jump, shoot>{}; n.start_server<>(dt, acts); { net::At a(0); register_external_components<uid>(n.reg, acts); } auto &c = n.connect<>(dt, true, 5000000, 0, false, acts); { net::At a(1); set_network_client_extrapolation_enabled(c.reg, false); register_external_components<uid>(c.reg, acts); }
    sim::stop_faults(); n.run(700000000ull); entt::entity e; { net::At a(1); e = c.reg.create(); c.reg.emplace<uid>(e, uid{1}); rigidbody_def d = w::ball({0, 0, 0}, scalar(0.5), 1); d.networked = true; d.gravity = vector3_zero; c.reg.emplace<action_list<jump>>(e); c.reg.emplace<action_list<shoot>>(e); c.reg.emplace<action_history>(e); make_rigidbody(e, c.reg, d); }
    n.run(1500000000ull);
    for (unsigned i = 0; i < 5; ++i) { { net::At a(1); unsigned id = w.next++; w.acts.push_back({id, 1, 1, sim::now_ns()}); c.reg.patch<action_list<jump>>(e, [&](auto &l) { l.actions.push_back({id}); }); } n.run(370000000ull); }
    n.run(2000000000ull); n.close(c); n.stop(); h::check_no_threads("after the nodes ended");
}
