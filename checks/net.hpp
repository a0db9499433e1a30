// Several nodes in one process: a server and clients, each with its registry,
// clock, message queues and threads, connected by a simulated network.
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP
#include "world.hpp"
#include <edyn/networking/networking.hpp>
#include <edyn/networking/networking_external.hpp>
#include <edyn/networking/sys/client_side.hpp>
#include <edyn/networking/sys/server_side.hpp>
#include <edyn/networking/comp/aabb_of_interest.hpp>
#include <edyn/networking/comp/entity_owner.hpp>
#include <edyn/networking/comp/remote_client.hpp>
#include <edyn/networking/packet/edyn_packet.hpp>
#include <edyn/networking/packet/set_aabb_of_interest.hpp>
#include <edyn/parallel/message_dispatcher.hpp>
#include <edyn/serialization/memory_archive.hpp>
#include <edyn/serialization/s11n.hpp>
#include <edyn/comp/material.hpp>
#include <edyn/comp/graph_node.hpp>
#include <edyn/comp/graph_edge.hpp>
#include <deque>
#include <map>
#include <set>

namespace net {
using namespace edyn;
constexpr int max_nodes = 4;
inline thread_local int self = 0;
inline double offset[max_nodes];
template<int I> double clock() { return double(sim::now_ns()) * 1e-9 + offset[I]; }
inline double (*const clocks[max_nodes])() = {&clock<0>, &clock<1>, &clock<2>, &clock<3>};
inline message_dispatcher &dispatcher(int n) { static message_dispatcher d[max_nodes]; return d[n]; }
struct At { int was; explicit At(int n) : was(self) { self = n; } ~At() { self = was; } };
inline void start_thread(void (*f)(void *), void *a) { int n = self; std::thread([=] { self = n; f(a); }).detach(); }
inline void run_now(task_delegate_t t, unsigned n) { t(0, n); }
inline void run_later(task_delegate_t t, unsigned n, task_completion_delegate_t c) { t(0, n); if (c) c(); }

// An application component that travels with the entities: their identity.
struct uid { unsigned v = 0; };
template<typename A> void serialize(A &a, uid &u) { a(u.v); }

struct Parcel { uint64_t at; std::vector<uint8_t> bytes; bool reliable; uint64_t seq; };
// One direction of a connection: reliable packets arrive once and in order; the
// others may be lost. Unless wild, they are also sequenced (late ones are dropped
// and they stay behind reliable ones), as over a single channel of ENet.
struct Link {
    std::vector<Parcel> q; uint64_t latency = 0, jitter = 0, last_reliable = 0, seq = 0, newest = 0; uint64_t dark_until = 0; bool wild = false; unsigned lost = 0; std::vector<uint64_t> lost_at; void lose() { ++lost; lost_at.push_back(sim::now_ns()); }
    void send(std::vector<uint8_t> b, bool reliable) {
        auto now = sim::now_ns(); auto at = now + latency + (jitter ? sim::pick_on(sim::STREAM_NET, 16) * jitter / 16 : 0); ++seq;
        if (sim::fault(sim::F_NET_DELAY, 1, 12)) at += uint64_t(sim::range(1, 400)) * 1000000;
        if (now < dark_until) { if (!reliable) { sim::fault(sim::F_NET_PARTITION, 1, 1); lose(); return; } at = std::max(at, dark_until + latency); }
        if (reliable) { at = std::max(at, last_reliable); last_reliable = at; q.push_back({at, std::move(b), true, seq}); return; }
        if (sim::fault(sim::F_NET_LOSS, 1, 6)) { lose(); return; }
        if (!wild) at = std::max(at, last_reliable);
        if (wild && sim::fault(sim::F_NET_DUP, 1, 8)) q.push_back({at + sim::pick_on(sim::STREAM_NET, 300) * 1000000ull, b, false, seq});
        if (wild && sim::fault(sim::F_NET_REORDER, 1, 8)) at += sim::pick_on(sim::STREAM_NET, 300) * 1000000ull;
        q.push_back({at, std::move(b), false, seq});
    }
    bool next(Parcel &p) {
        for (;;) {
            size_t best = q.size(); for (size_t i = 0; i < q.size(); ++i) if (q[i].at <= sim::now_ns() && (best == q.size() || q[i].at < q[best].at || (q[i].at == q[best].at && q[i].seq < q[best].seq))) best = i;
            if (best == q.size()) return false;
            p = std::move(q[best]); q.erase(q.begin() + best);
            if (!p.reliable && !wild) { if (p.seq < newest) { lose(); continue; } newest = p.seq; }
            return true;
        }
    }
};
inline std::vector<uint8_t> encode(const packet::edyn_packet &p) { auto copy = p; std::vector<uint8_t> b; memory_output_archive o(b); o(copy); return b; }
inline bool decode(const std::vector<uint8_t> &b, packet::edyn_packet &p) { memory_input_archive i(b.data(), b.size()); i(p); return !i.failed(); }

struct Net;
struct Client {
    Net *net = nullptr; int id = 0; entt::registry reg; entt::entity on_server{entt::null}; Link up, down; bool connected = false; uint64_t next_frame = 0; bool full = true; unsigned packets = 0; std::vector<uint64_t> late;
    void packet_out(const packet::edyn_packet &p) { ++packets; if (connected) up.send(encode(p), should_send_reliably(p)); }
};
struct Net {
    entt::registry reg; std::vector<std::unique_ptr<Client>> clients; uint64_t next_frame = 0, frame = 40000000; bool stalls = true;
    void (*after_server)() = nullptr;
    Client *by_server_entity(entt::entity e) { for (auto &c : clients) if (c->connected && c->on_server == e) return c.get(); return nullptr; }
    void packet_out(entt::entity to, const packet::edyn_packet &p) { auto *c = by_server_entity(to); SIM_CHECK(c, "wrong-destination", "server sends a packet to a client that is not connected"); c->down.send(encode(p), should_send_reliably(p)); }

    template<typename... Ext> void open(entt::registry &r, int node, scalar dt) {
        dispatcher(node).clear_queues();
        At at(node); init_config k; k.execution_mode = execution_mode::sequential; k.fixed_dt = dt; k.enqueue_task = &run_later; k.enqueue_task_wait = &run_now; k.start_thread_func = &start_thread; k.timestamp = clocks[node](); edyn::attach(r, k); set_time_source(r, clocks[node]); set_gravity(r, vector3_zero);
    }
    template<typename... Ext, typename... Act> void start_server(scalar dt, std::tuple<Act...> act = {}) { open(reg, 0, dt); At at(0); init_network_server(reg); register_networked_components<uid, Ext...>(reg, act); network_server_packet_sink(reg).connect<&Net::packet_out>(*this); }
    template<typename... Ext, typename... Act> Client &connect(scalar dt, bool full, uint64_t latency, uint64_t jitter, bool wild, std::tuple<Act...> act = {}) {
        int n = int(clients.size()) + 1; auto c = std::make_unique<Client>(); c->net = this; c->id = n; c->full = full; auto &r = c->reg;
        for (auto *l : {&c->up, &c->down}) { l->latency = latency; l->jitter = jitter; l->wild = wild; }
        open(r, n, dt); { At at(n); init_network_client(r); register_networked_components<uid, Ext...>(r, act); network_client_packet_sink(r).connect<&Client::packet_out>(*c); set_network_client_round_trip_time(r, 2e-9 * latency); }
        { At at(0); c->connected = true; c->on_server = server_make_client(reg, full); server_set_client_round_trip_time(reg, c->on_server, 2e-9 * latency); }
        clients.push_back(std::move(c)); return *clients.back();
    }
    void close(Client &c) { { At at(c.id); deinit_network_client(c.reg); detach(c.reg); } }
    void disconnect(Client &c) { At at(0); server_destroy_client(reg, c.on_server); c.connected = false; c.up.q.clear(); c.down.q.clear(); }
    void deliver(Client &c, bool to_server) {
        Parcel p; auto &l = to_server ? c.up : c.down;
        while (c.connected && l.next(p)) {
            packet::edyn_packet k; SIM_CHECK(decode(p.bytes, k), "encoding", "a packet sent by the other end could not be decoded");
            if (to_server) { At at(0); server_receive_packet(reg, c.on_server, k); } else { At at(c.id); client_receive_packet(c.reg, k); }
        }
    }
    bool ready(uint64_t &next) { if (sim::now_ns() < next) return false; next = sim::now_ns() + frame; if (stalls && sim::fault(sim::F_SLOW_NODE, 1, 150)) next += uint64_t(sim::range(1, 600)) * 1000000; return true; }
    // Lets time pass; every node runs its frames.
    void run(uint64_t ns) {
        auto end = sim::now_ns() + ns;
        while (sim::now_ns() < end) {
            for (auto &c : clients) if (!sim::faults_stopped() && c->connected && sim::fault(sim::F_NET_PARTITION, 1, 400)) { auto d = sim::now_ns() + uint64_t(sim::range(1, 15)) * 100000000; c->up.dark_until = c->down.dark_until = d; c->late.push_back(d); }
            if (ready(next_frame)) { for (auto &c : clients) if (c->connected) deliver(*c, true); At at(0); update_network_server(reg); if (after_server) after_server(); update(reg); }
            for (auto &c : clients) if (c->connected && ready(c->next_frame)) { deliver(*c, false); At at(c->id); update_network_client(c->reg); update(c->reg); }
            sim::sleep_ns(frame / 2);
        }
    }
    void stop() { { At at(0); deinit_network_server(reg); detach(reg); } }
};
}
// In place of the dispatcher of the library, which serves a whole process.
edyn::message_dispatcher &edyn::message_dispatcher::global() { return net::dispatcher(net::self); }
#endif
