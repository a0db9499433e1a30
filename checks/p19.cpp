// P19: actions sent redundantly over a lossy channel reach the other side
// exactly once, in time order.
#include "common.hpp"
#include "edyn/serialization/std_s11n.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/networking/comp/action_history.hpp"
#include <algorithm>
#include <map>
#include <set>
using namespace edyn;
namespace {
struct Id { double t; uint8_t kind; bool operator<(const Id &o) const { return t != o.t ? t < o.t : kind < o.kind; } bool operator==(const Id &o) const { return t == o.t && kind == o.kind; } };
std::vector<uint8_t> body(double t, uint8_t kind) { uint64_t b; std::memcpy(&b, &t, 8); std::vector<uint8_t> d((b >> 7) % 13 + kind % 3 + (b % 97 == 5 ? 300 : 0)); for (size_t i = 0; i < d.size(); ++i) d[i] = uint8_t((b >> (i % 8 * 5)) + kind * 17 + i); return d; }
struct Packet { std::vector<uint8_t> bytes; std::vector<Id> ids; uint64_t at; uint64_t seq; };
}
SIM_SCENARIO(actions_exactly_once, 1) {
    double time = 1 + sim::pick(1000), max_age = 0.05 + 0.05 * sim::pick(12), playout = 0.02 * sim::pick(8), delta = (int(sim::pick(2001)) - 1000) * 0.25;
    if (time + delta < 1) delta = 1 - time; // both clocks count up from zero
    unsigned steps = sim::range(5, 80), send_every = sim::range(1, 4); bool burst = sim::pick(20) == 7, fine = sim::pick(3) == 2;
    action_history client, server; std::vector<Packet> wire; std::set<Id> recorded, carried; std::vector<Id> executed; uint64_t seq = 0;
    // reference model of the receiving side: newest action time merged so far, and what is expected
    double newest = 0; bool any = false; std::vector<Id> expected; std::vector<Id> all; unsigned partition = 0;
    for (unsigned s = 0; s < steps + 40; ++s) {
        bool draining = s >= steps; if (s == steps) sim::stop_faults();
        double dt = fine && sim::pick(2) ? 3e-6 * sim::range(1, 300) : 0.004 * sim::range(1, 8); time += dt;
        // -- client
        if (!draining || all.size() < 3) {
            double cutoff = time - max_age; auto before = client.entries.size(); std::vector<Id> keep;
            for (auto &e : client.entries) if (e.timestamp >= cutoff) keep.push_back({e.timestamp, e.action_index});
            client.erase_until(cutoff);
            SIM_CHECK(client.entries.size() == keep.size(), "retention-wrong", "%zu of %zu actions kept, %zu are younger than the retention time", client.entries.size(), before, keep.size());
            for (size_t i = 0; i < keep.size(); ++i) SIM_CHECK(keep[i] == (Id{client.entries[i].timestamp, client.entries[i].action_index}), "retention-wrong", "wrong action kept");
        }
        if (!draining) {
            unsigned n = burst ? sim::pick(40) : sim::pick(3);
            for (unsigned k = 0; k < n; ++k) { client.entries.emplace_back(time, uint8_t(k), body(time, uint8_t(k))); recorded.insert({time, uint8_t(k)}); all.push_back({time, uint8_t(k)}); }
        }
        if (s % send_every == 0 && !client.empty()) {
            Packet p; auto copy = client; memory_output_archive out(p.bytes); out(copy);
            size_t lim = std::min<size_t>(client.entries.size(), 255); if (client.entries.size() > 255) sim::probe("history_longer_than_a_packet");
            for (size_t i = 0; i < lim; ++i) p.ids.push_back({client.entries[i].timestamp, client.entries[i].action_index});
            p.seq = ++seq; p.at = s + sim::pick_on(sim::STREAM_NET, 2);
            if (!partition && !draining) if (uint32_t m = sim::fault_mag(sim::F_NET_PARTITION, 1, 25, 12)) partition = m;
            bool lost = partition > 0 || sim::fault(sim::F_NET_LOSS, 1, 4); if (partition) --partition;
            if (!lost) {
                if (uint32_t m = sim::fault_mag(sim::F_NET_DELAY, 1, 4, 12)) p.at += m;
                wire.push_back(p);
                if (sim::fault(sim::F_NET_DUP, 1, 5)) { p.at += sim::pick_on(sim::STREAM_NET, 10); wire.push_back(p); sim::probe("duplicate_packet"); }
            }
        }
        // -- deliveries, possibly out of order
        for (;;) {
            std::vector<size_t> due; for (size_t i = 0; i < wire.size(); ++i) if (wire[i].at <= s) due.push_back(i);
            if (due.empty()) break;
            size_t k = due[sim::fault(sim::F_NET_REORDER, 1, 3) ? sim::pick_on(sim::STREAM_NET, uint32_t(due.size())) : 0];
            Packet p = wire[k]; wire.erase(wire.begin() + long(k));
            action_history in; std::unique_ptr<uint8_t[]> exact(new uint8_t[p.bytes.size()]); std::memcpy(exact.get(), p.bytes.data(), p.bytes.size());
            memory_input_archive ar(exact.get(), p.bytes.size()); ar(in);
            SIM_CHECK(!ar.failed() && in.entries.size() == p.ids.size(), "packet-damaged", "update with %zu actions decoded to %zu", p.ids.size(), in.entries.size());
            if (in.empty()) continue;
            in.sort();
            for (size_t i = 0; i + 1 < in.entries.size(); ++i) SIM_CHECK(in.entries[i].timestamp <= in.entries[i + 1].timestamp, "not-sorted", "sorted history is out of order");
            for (auto &e : in.entries) { SIM_CHECK(e.data == body(e.timestamp, e.action_index), "action-damaged", "contents of an action changed in transit"); e.timestamp += delta; }
            bool old = any && !p.ids.empty() && p.ids.back().t + delta <= newest; if (old) sim::probe("stale_packet_delivered");
            server.merge(in);
            for (auto &id : p.ids) if (!any || id.t + delta > newest) expected.push_back(id);
            if (!p.ids.empty() && (!any || p.ids.back().t + delta > newest)) { newest = p.ids.back().t + delta; any = true; }
            for (size_t i = 0; i + 1 < server.entries.size(); ++i) SIM_CHECK(server.entries[i].timestamp <= server.entries[i + 1].timestamp, "out-of-order", "merged history is out of time order");
        }
        // -- server executes what is due and forgets it
        double exec_until = draining && s + 1 == steps + 40 ? 1e300 : time + delta - playout;
        auto it = server.entries.begin();
        for (; it != server.entries.end() && it->timestamp <= exec_until; ++it) executed.push_back({it->timestamp - delta, it->action_index});
        server.entries.erase(server.entries.begin(), it);
        if (draining && wire.empty() && server.empty() && s > steps + 20) break;
    }
    std::set<Id> seen;
    for (size_t i = 0; i < executed.size(); ++i) {
        auto &e = executed[i]; // the shift is exact in binary for these values up to rounding: match by nearest recorded
        auto it = recorded.end(); for (auto &r : recorded) if (r.kind == e.kind && std::abs(r.t - e.t) < 1e-6) { it = recorded.find(r); break; }
        SIM_CHECK(it != recorded.end(), "invented-action", "an action at time %.6f was executed that nobody issued", e.t);
        SIM_CHECK(seen.insert(*it).second, "action-repeated", "the action issued at time %.6f was executed twice", it->t);
        if (i) SIM_CHECK(executed[i - 1].t <= e.t + 1e-6, "out-of-order", "actions executed out of order");
    }
    std::set<Id> want(expected.begin(), expected.end());
    for (auto &w : want) SIM_CHECK(seen.count(w), "action-lost", "the action issued at time %.6f arrived in time but was not executed", w.t);
    SIM_CHECK(seen.size() == want.size(), "action-repeated", "%zu actions executed, %zu expected", seen.size(), want.size());
    sim::state(h::mixh(seen.size(), recorded.size()));
    if (seen.size() < recorded.size()) sim::probe("action_never_delivered"); else sim::probe("all_actions_delivered");
}
// The estimate of the offset between the clocks changes from packet to packet: every action is still executed once, in order.
SIM_SCENARIO(actions_with_changing_offset, 1) {
    double time = 1 + sim::pick(1000), max_age = 0.1 + 0.05 * sim::pick(12); unsigned steps = sim::range(5, 60); action_history client, server; std::vector<Packet> wire; std::vector<Id> executed, expected; double newest = 0; bool any = false; uint64_t seq = 0;
    for (unsigned s = 0; s < steps + 30; ++s) {
        bool draining = s >= steps; if (s == steps) sim::stop_faults(); time += 0.004 * sim::range(1, 8); client.erase_until(time - max_age);
        if (!draining) for (unsigned k = 0, n = sim::pick(3); k < n; ++k) client.entries.emplace_back(time, uint8_t(k), body(time, uint8_t(k)));
        if (!client.empty()) {
            Packet p; auto copy = client; memory_output_archive out(p.bytes); out(copy); for (auto &e : client.entries) p.ids.push_back({e.timestamp, e.action_index}); p.seq = ++seq; p.at = s + sim::pick_on(sim::STREAM_NET, 2);
            if (!sim::fault(sim::F_NET_LOSS, 1, 4)) { if (uint32_t m = sim::fault_mag(sim::F_NET_DELAY, 1, 4, 12)) p.at += m; wire.push_back(p); if (sim::fault(sim::F_NET_DUP, 1, 5)) wire.push_back(p); }
        }
        for (size_t k = 0; k < wire.size();) {
            if (wire[k].at > s) { ++k; continue; } Packet p = wire[k]; wire.erase(wire.begin() + long(k)); action_history in; memory_input_archive ar(p.bytes.data(), p.bytes.size()); ar(in); if (in.empty()) continue; in.sort();
            double delta = 5000 + (int(sim::pick(2001)) - 1000) * (sim::pick(2) ? 1e-5 : 1e-3); auto before = server.entries.size(); server.merge(in, delta); // the estimate of the moment
            std::vector<Id> fresh; for (auto &id : p.ids) if (!any || id.t > newest) fresh.push_back(id); if (!p.ids.empty() && (!any || p.ids.back().t > newest)) { newest = p.ids.back().t; any = true; } else sim::probe("stale_packet_delivered");
            SIM_CHECK(server.entries.size() == before + fresh.size(), fresh.size() < server.entries.size() - before ? "action-repeated" : "action-lost", "an update with %zu new actions added %zd", fresh.size(), ssize_t(server.entries.size()) - ssize_t(before));
            for (size_t i = 0; i < fresh.size(); ++i) { // actions of one instant may come in any order
                auto &e = server.entries[before + i]; SIM_CHECK(std::abs(e.timestamp - (fresh[i].t + delta)) < 1e-9, "time", "action of time %.6f was added with time %.6f instead of %.6f", fresh[i].t, e.timestamp, fresh[i].t + delta);
                unsigned k = 0; for (size_t j = before; j < server.entries.size(); ++j) if (server.entries[j].action_index == fresh[i].kind && server.entries[j].data == body(fresh[i].t, fresh[i].kind) && std::abs(server.entries[j].timestamp - (fresh[i].t + delta)) < 1e-9) ++k;
                SIM_CHECK(k == 1, "action-damaged", "an action of time %.6f was added %u times unchanged", fresh[i].t, k); expected.push_back(fresh[i]);
            }
        }
        if (sim::pick(3)) server.entries.clear(); // executed
    }
    sim::state(expected.size()); if (expected.size() > 2) sim::probe("offset_changed");
}
