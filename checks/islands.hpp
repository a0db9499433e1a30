// Island invariants of a registry in which the simulation runs.
#ifndef VERIF_ISLANDS_HPP
#define VERIF_ISLANDS_HPP
#include "script.hpp"
#include <edyn/constraints/constraint.hpp>
#include <edyn/core/entity_graph.hpp>
#include <map>
#include <set>
namespace isl {
using namespace edyn;
struct EdgeInfo { entt::entity e, a, b; };
template<typename T> void collect(entt::registry &r, std::map<entt::entity, EdgeInfo> &m) {
    for (auto [e, c] : r.view<T>().each()) m[e] = {e, c.body[0], c.body[1]};
}
inline std::map<entt::entity, EdgeInfo> edges(entt::registry &r) {
    std::map<entt::entity, EdgeInfo> m;
    std::apply([&](auto... c) { (collect<decltype(c)>(r, m), ...); }, constraints_tuple);
    collect<null_constraint>(r, m); collect<contact_manifold>(r, m); return m;
}
inline unsigned id(entt::entity e) { return unsigned(entt::to_integral(e)); }
// Everything connected is in one island, everything else is apart, and islands sleep as a whole.
inline void dump(entt::registry &r) {
    for (auto [ie, is] : r.view<island>().each()) { std::string s; for (auto b : is.nodes) s += " " + std::to_string(id(b)); s += " |"; for (auto e : is.edges) s += " " + std::to_string(id(e)); sim::tracef("island %u%s:%s", id(ie), r.all_of<sleeping_tag>(ie) ? " asleep" : "", s.c_str()); }
}
inline uint64_t check(entt::registry &r) {
    auto ed = edges(r); std::map<entt::entity, entt::entity> parent;
    std::function<entt::entity(entt::entity)> find = [&](entt::entity x) { while (parent[x] != x) x = parent[x]; return x; };
    for (auto e : r.view<procedural_tag, graph_node>()) parent[e] = e;
    for (auto &[e, i] : ed) {
        SIM_CHECK(r.valid(i.a) && r.valid(i.b), "dangling-edge", "edge %u refers to a body that no longer exists", id(e));
        SIM_CHECK(r.all_of<rigidbody_tag>(i.a) && r.all_of<rigidbody_tag>(i.b), "dangling-edge", "edge %u refers to an entity that is not a body", id(e));
        if (parent.count(i.a) && parent.count(i.b)) parent[find(i.a)] = find(i.b);
    }
    std::map<entt::entity, entt::entity> root_island, island_root; uint64_t nisl = 0, nsleep = 0;
    for (auto &[b, _] : parent) {
        auto *res = r.try_get<island_resident>(b); SIM_CHECK(res, "no-island", "body %u has no island residency", id(b));
        SIM_CHECK(res->island_entity != entt::null && r.valid(res->island_entity) && r.all_of<island>(res->island_entity), "no-island", "body %u is in no valid island", id(b));
        SIM_CHECK(r.get<island>(res->island_entity).nodes.contains(b), "not-listed", "body %u is not listed in its island", id(b));
        auto rt = find(b);
        auto it = root_island.emplace(rt, res->island_entity).first; SIM_CHECK(it->second == res->island_entity, "split", "connected bodies are in different islands (%u and %u)", id(it->second), id(res->island_entity));
        auto jt = island_root.emplace(res->island_entity, rt).first; SIM_CHECK(jt->second == rt, "merged", "unconnected bodies %u and %u share island %u", id(rt), id(jt->second), id(res->island_entity));
    }
    for (auto &[e, i] : ed) {
        auto *res = r.try_get<island_resident>(e); SIM_CHECK(res, "edge-island", "constraint or contact %u has no island residency", id(e));
        auto body = parent.count(i.a) ? i.a : i.b; if (!parent.count(body)) continue;
        SIM_CHECK(res->island_entity == r.get<island_resident>(body).island_entity, "edge-island", "constraint or contact %u is not in the island of its body", id(e));
        SIM_CHECK(r.get<island>(res->island_entity).edges.contains(e), "edge-island", "constraint or contact %u is not listed in its island", id(e));
        for (auto np : {i.a, i.b}) if (!parent.count(np)) {
            auto *mr = r.try_get<multi_island_resident>(np); SIM_CHECK(mr, "fixed-body", "fixed body %u has no residency", id(np));
            SIM_CHECK(mr->island_entities.contains(res->island_entity) && r.get<island>(res->island_entity).nodes.contains(np), "fixed-body", "fixed body %u is not in an island it touches", id(np));
        }
    }
    for (auto [ie, is] : r.view<island>().each()) {
        ++nisl; unsigned proc = 0; bool sl = r.all_of<sleeping_tag>(ie); nsleep += sl;
        for (auto b : is.nodes) {
            SIM_CHECK(r.valid(b), "stale-node", "island %u lists a body that no longer exists", id(ie));
            if (parent.count(b)) {
                ++proc; SIM_CHECK(r.get<island_resident>(b).island_entity == ie, "stale-node", "island %u lists a body of another island", id(ie));
                SIM_CHECK(r.all_of<sleeping_tag>(b) == sl, "partly-asleep", "body %u is %s while its island is %s", id(b), sl ? "awake" : "asleep", sl ? "asleep" : "awake");
            } else { auto *mr = r.try_get<multi_island_resident>(b); SIM_CHECK(mr && mr->island_entities.contains(ie), "fixed-body", "island %u lists fixed body %u which does not list it", id(ie), id(b)); bool touches = false; for (auto e : is.edges) if (auto it = ed.find(e); it != ed.end() && (it->second.a == b || it->second.b == b)) touches = true; SIM_CHECK(touches, "fixed-body", "island %u lists fixed body %u which it does not touch", id(ie), id(b)); }
        }
        for (auto e : is.edges) {
            SIM_CHECK(r.valid(e) && ed.count(e), "stale-edge", "island %u lists a constraint or contact that no longer exists", id(ie));
            SIM_CHECK(r.all_of<sleeping_tag>(e) == sl, "partly-asleep", "constraint or contact %u is %s while its island is %s", id(e), sl ? "awake" : "asleep", sl ? "asleep" : "awake");
        }
        SIM_CHECK(proc > 0, "empty-island", "island %u has no moving body", id(ie));
    }
    for (auto [e, mr] : r.view<multi_island_resident>().each()) for (auto ie : mr.island_entities) SIM_CHECK(r.valid(ie) && r.all_of<island>(ie), "fixed-body", "fixed body %u lists an island that no longer exists", id(e));
    return h::mixh(h::mixh(nisl, nsleep), h::mixh(parent.size(), ed.size()));
}
}
#endif
