// P17: packets survive the trip unchanged, and damaged ones are harmless to decode.
#include "net.hpp"
#include <edyn/networking/util/pool_snapshot.hpp>
using namespace edyn; using net::uid;
namespace {
struct Seen { std::vector<std::vector<uint8_t>> bytes; void server(entt::entity, const packet::edyn_packet &p) { add(p); } void client(const packet::edyn_packet &p) { add(p); } void add(const packet::edyn_packet &p) { if (bytes.size() < 400) bytes.push_back(net::encode(p)); } };
void pools_fine(const packet::registry_snapshot &s) {
    for (auto &p : s.pools) { SIM_CHECK(p.ptr, "pool", "a decoded packet has a pool of components without contents"); for (auto i : p.ptr->entity_indices) SIM_CHECK(i < s.entities.size(), "pool", "a decoded packet has a component for entity number %u of %zu", unsigned(i), s.entities.size()); }
}
void fine(const packet::edyn_packet &p) {
    std::visit([](auto &k) { using T = std::decay_t<decltype(k)>; if constexpr (std::is_base_of_v<packet::registry_snapshot, T>) pools_fine(k); if constexpr (std::is_same_v<T, packet::entity_entered>) for (auto &e : k.entry) pools_fine(e); }, p.var);
}
bool read(const std::vector<uint8_t> &b, packet::edyn_packet &p) { std::unique_ptr<uint8_t[]> q(new uint8_t[b.size() + 1]); std::unique_ptr<uint8_t[]> exact(new uint8_t[b.size() ? b.size() : 1]); if (!b.empty()) std::memcpy(exact.get(), b.data(), b.size()); memory_input_archive i(exact.get(), b.size()); i(p); return !i.failed(); }
}
namespace {
// Damaged meshes are a known finding (below), left out of the search.
std::unique_ptr<pool_snapshot_data> (*real_make)(component_index_type);
std::unique_ptr<pool_snapshot_data> make_but_meshes(component_index_type i) { auto p = real_make(i); if (p && (p->get_type_id() == entt::type_id<polyhedron_shape>().hash() || p->get_type_id() == entt::type_id<compound_shape>().hash())) p.reset(); return p; }
}
SIM_SCENARIO(packets_in_transit, 1) {
    sim::set_step_budget(400000000); sim::ignore_silent_stores(true); net::Net n; Seen seen; scalar dt = scalar(1.0 / 20); n.stalls = false;
    n.start_server(dt); network_server_packet_sink(n.reg).connect<&Seen::server>(seen); auto &c = n.connect(dt, true, 5000000, 0, false); network_client_packet_sink(c.reg).connect<&Seen::client>(seen); { net::At a(1); set_network_client_extrapolation_enabled(c.reg, false); }
    real_make = g_make_pool_snapshot_data; g_make_pool_snapshot_data = &make_but_meshes;
    n.run(300000000); entt::entity first = entt::null, last = entt::null;
    for (int o : {0, 1}) { auto &r = o ? c.reg : n.reg; net::At a(o); last = entt::null; for (unsigned i = 0, m = sim::range(1, 3); i < m; ++i) { rigidbody_def d = w::ball({scalar(i) * 5, 0, scalar(o) * 9}, scalar(0.5), 1 + scalar(i)); if (sim::pick(2)) d.shape = box_shape{vector3{1, 1, 1}}; d.networked = true; d.gravity = vector3_zero; auto e = r.create(); r.emplace<uid>(e, uid{i}); make_rigidbody(e, r, d); if (last != entt::null) { auto j = r.create(); r.emplace<networked_tag>(j); make_constraint<distance_constraint>(r, j, last, e, [&](distance_constraint &x) { x.distance = 5; }); } last = e; first = first == entt::null ? e : first; } }
    n.run(900000000); { net::At a(1); if (c.reg.valid(last)) c.reg.destroy(last); } n.run(300000000);
    // packets the run does not produce by itself
    { packet::query_entity q; q.id = sim::pick(9999); q.entities = {{first, {0, 8, 9}}, {last, {1}}}; seen.add(packet::edyn_packet{q}); packet::entity_response r; r.id = 77; { net::At a(0); n.reg.ctx().get<server_network_context>().snapshot_exporter->export_comp_index(r, first, {6, 7, 8, 9}); } seen.add(packet::edyn_packet{r}); packet::asset_sync y; y.id = sim::pick(9999); y.entity = first; seen.add(packet::edyn_packet{y}); packet::entity_exited x; x.entities = {first, last}; seen.add(packet::edyn_packet{x}); packet::set_playout_delay z{0.25}; seen.add(packet::edyn_packet{z});
      packet::asset_sync_response s; s.id = 5; s.entity = first; s.entities = r.entities; s.pools = r.pools; seen.add(packet::edyn_packet{s}); packet::entity_entered e; auto &info = e.entry.emplace_back(); info.entity = first; info.owner = last; info.asset.id = 9; info.asset.entity_map[3] = first; info.entities = r.entities; info.pools = r.pools; seen.add(packet::edyn_packet{e}); }
    std::set<size_t> kinds;
    for (auto &b : seen.bytes) { // unharmed
        packet::edyn_packet p; SIM_CHECK(read(b, p), "rejected", "an intact packet was not decoded"); fine(p); kinds.insert(p.var.index()); auto again = net::encode(p); SIM_CHECK(again == b, "changed", "packet of kind %zu differs after being decoded and encoded again: %zu and %zu bytes", p.var.index(), b.size(), again.size());
        if (auto *q = std::get_if<packet::query_entity>(&p.var)) { SIM_CHECK(q->entities.size() == 2 && q->entities[0].first == first && q->entities[0].second.size() == 3, "changed", "query differs"); auto x = *q; x.id = x.id + 1; packet::edyn_packet u; SIM_CHECK(read(net::encode(packet::edyn_packet{x}), u) && std::get<packet::query_entity>(u.var).id == x.id, "changed", "the id of a query was lost"); }
    }
    for (auto k : kinds) { static const char *names[] = {"registry_snapshot", "create_entity", "destroy_entity", "update_entity_map", "client_created", "set_playout_delay", "time_request", "time_response", "server_settings", "set_aabb_of_interest", "query_entity", "entity_response", "entity_entered", "entity_exited", "asset_sync", "asset_sync_response"}; sim::probe(names[k]); }
    unsigned m = sim::range(20, 200);
    for (unsigned i = 0; i < m; ++i) {
        if (!sim::fault(sim::F_NET_CORRUPT, 9, 10)) continue; auto b = seen.bytes[sim::pick(unsigned(seen.bytes.size()))]; unsigned k = sim::range(1, 4);
        for (unsigned j = 0; j < k && !b.empty(); ++j) switch (sim::pick(5)) {
        case 0: b.resize(sim::pick(unsigned(b.size()))); break;
        case 1: b[sim::pick(unsigned(b.size()))] ^= uint8_t(1u << sim::pick(8)); break;
        case 2: b[sim::pick(unsigned(b.size()))] = sim::pick(2) ? 255 : uint8_t(sim::pick(256)); break;
        case 3: { auto at = sim::pick(unsigned(b.size())); b.erase(b.begin() + at); break; }
        default: { auto at = sim::pick(unsigned(b.size())); b.insert(b.begin() + at, uint8_t(sim::pick(256))); break; }
        }
        packet::edyn_packet p; bool ok = read(b, p); fine(p); sim::probe(ok ? "damaged, decoded" : "damaged, rejected"); 
    }
    sim::state(seen.bytes.size()); n.close(c); n.stop(); h::check_no_threads("after the nodes ended");
}

SIM_SCENARIO(damaged_mesh, 0) {
    sim::set_step_budget(400000000); net::Net n; n.start_server(scalar(1.0 / 20)); component_index_type index = 0; for (component_index_type i = 0; i < std::tuple_size_v<networked_components_t>; ++i) if (auto p = (*g_make_pool_snapshot_data)(i); p->get_type_id() == entt::type_id<compound_shape>().hash()) index = i;
    packet::registry_snapshot s; s.timestamp = 1; s.entities = {entt::entity{3}}; auto *pool = new pool_snapshot_data_impl<compound_shape>; pool->entity_indices = {0}; pool->components.resize(1); s.pools.push_back({index, std::shared_ptr<pool_snapshot_data>(pool)});
    packet::edyn_packet p; bool ok = read(net::encode(packet::edyn_packet{s}), p); SIM_CHECK(ok || !ok, "none", "none"); n.stop();
}
