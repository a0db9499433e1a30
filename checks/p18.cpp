// P18: clock synchronisation over a lossy, reordering, duplicating network with
// drifting clocks: the estimate is never further off than the causal bound
// allows, requests do not storm, and synchronisation completes once the
// network behaves.
#include "values.hpp"
#include "edyn/networking/util/clock_sync.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include <algorithm>
#include <cmath>
using namespace edyn;
namespace {
struct Flight { double at; bool to_server; uint32_t id; double stamp; double sent_true; };
struct Net {
    clock_sync_data cs; double t = 0, offset, drift, lat, jit; std::vector<Flight> q; unsigned sent = 0; double last_sent_true = -1e9; bool faulty = true; bool part = false; double part_until = 0;
    std::vector<uint32_t> ids; std::vector<double> id_sent;
    double local() const { return t * (1 + drift) + 1000; }
    double remote() const { return t + offset; }
    double truth() const { return local() - remote(); }
    double oneway(bool) { double d = lat; if (faulty && sim::fault(sim::F_NET_DELAY, 1, 6)) d += sim::range(1, 400) * 1e-3; if (jit > 0) d += jit * sim::pick_on(sim::STREAM_NET, 1000) * 1e-3; return d; }
    void put(Flight f) {
        if (faulty && t < part_until) { sim::fault(sim::F_NET_PARTITION, 1, 1); return; }
        if (faulty && sim::fault(sim::F_NET_LOSS, 1, 6)) return;
        f.at = t + oneway(f.to_server); q.push_back(f);
        if (faulty && sim::fault(sim::F_NET_DUP, 1, 8)) { f.at = t + oneway(f.to_server) + sim::pick_on(sim::STREAM_NET, 300) * 1e-3; q.push_back(f); }
    }
    void on_send(const packet::edyn_packet &p) {
        ++sent; SIM_CHECK(std::holds_alternative<packet::time_request>(p.var), "wrong-packet", "clock synchronisation sent something other than a time request");
        auto r = std::get<packet::time_request>(p.var); ids.push_back(r.id); id_sent.push_back(t); put({0, true, r.id, 0, t});
    }
};
}
static void run(bool two) {
    (void)two; sim::set_step_budget(2000000); Net n; n.offset = double(int(sim::pick(200001)) - 100000) * (sim::pick(2) ? 1e-3 : 1.0); n.drift = (int(sim::pick(401)) - 200) * 1e-6 * sim::pick(2); n.lat = sim::range(1, 250) * 1e-3; n.jit = sim::pick(2) ? sim::range(1, 60) * 1e-3 : 0;
    auto &cs = n.cs; cs.send_packet.connect<&Net::on_send>(n); if (sim::pick(8)) cs.period = sim::range(5, 40); else sim::probe("default_period");
    double tick = sim::range(4, 50) * 1e-3, avg = 2 * n.lat, phase = sim::range(2, 60); unsigned last_count = 0; double bound = 0; std::vector<double> errs; double done_at = -1; unsigned samples = 0; double last_delta = 0;
    auto step = [&](double until) {
        while (n.t < until) {
            // deliver in order of arrival; ties in a random order are irrelevant
            double next = n.t + tick; if (n.faulty && sim::fault(sim::F_SLOW_NODE, 1, 200)) { next += sim::range(1, 800) * 1e-3; }
            for (;;) {
                auto it = std::min_element(n.q.begin(), n.q.end(), [](auto &a, auto &b) { return a.at < b.at; });
                if (it == n.q.end() || it->at > next) break;
                auto f = *it; n.q.erase(it); n.t = std::max(n.t, f.at);
                if (f.to_server) { n.put({0, false, f.id, n.remote(), f.sent_true}); continue; }
                // through the real packet encoding
                packet::time_response res{f.id, f.stamp}; std::vector<uint8_t> b; { memory_output_archive o(b); o(res); } packet::time_response got{}; { memory_input_archive i(b.data(), b.size()); i(got); SIM_CHECK(!i.failed(), "encoding", "time response could not be decoded"); }
                auto before = cs.time_delta_sample_count; auto cnt = cs.count; bool stale = n.ids.empty() || got.id != n.ids.back(); auto st = cs.state; auto delta = cs.time_delta; auto requests = n.sent;
                clock_sync_process_time_response(cs, got, n.local());
                bool took = cs.count != cnt || cs.time_delta_sample_count != before;
                if (stale) { SIM_CHECK(!took && cs.time_delta == delta && n.sent == requests && cs.state == st, "stale-accepted", "an answer to an older request changed the synchronisation"); sim::probe("stale_answer"); continue; }
                if (took) { double rtt = n.t - n.id_sent.back(); SIM_CHECK(cs.count == cnt || cs.count == cnt + 1, "count-wrong", "synchronisation count went from %u to %u", cnt, cs.count); errs.push_back(rtt / 2 + std::fabs(n.drift) * rtt + 1e-6); ++samples; }
                if (cs.count != cnt) { SIM_CHECK(errs.size() == size_t(cs.max_time_delta_samples), "sample-count", "a synchronisation completed from %zu samples", errs.size()); }
                if (cs.time_delta != delta || cs.count != cnt) {
                    bound = 0; for (auto e : errs) bound += e; bound = errs.empty() ? 0 : bound / errs.size(); bound += std::fabs(n.drift) * 600 + 1e-6;
                    SIM_CHECK(std::fabs(cs.time_delta - n.truth()) <= bound, "offset-wrong", "estimated offset is %g s off, causality allows %g s (round trip %g s)", std::fabs(cs.time_delta - n.truth()), bound, 2 * n.lat);
                    SIM_CHECK(took, "delta-changed", "the offset changed without a measurement");
                }
                if (cs.count != cnt) { done_at = n.t; errs.clear(); }
            }
            n.t = next; if (n.faulty && n.t > n.part_until && sim::fault(sim::F_NET_PARTITION, 1, 300)) n.part_until = n.t + sim::range(1, 40) * .1;
            avg += (2 * n.lat + n.jit - avg) * .3; auto requests = n.sent; update_clock_sync(cs, n.local(), avg); SIM_CHECK(n.sent <= requests + 1, "request-storm", "one update sent %u requests", n.sent - requests);
            last_count = cs.count;
        }
    };
    step(phase);
    // No storm: never more than one request per timeout, plus one immediate follow-up per answer.
    double minimum = 2 * n.lat * 1.3; SIM_CHECK(n.sent <= 4 + 3 * phase / minimum + 1, "request-storm", "%u requests in %g s at a round trip of %g s", n.sent, phase, 2 * n.lat);
    sim::stop_faults(); n.faulty = false; n.jit = 0; double t0 = n.t; unsigned c0 = cs.count; double was = cs.time_delta; (void)was;
    // Progress: with a steady network the next synchronisation completes in time.
    double limit = (c0 ? cs.period : 0) + 5 * (2 * n.lat * 3 + cs.delay + 3 * tick) + 6; step(t0 + limit);
    SIM_CHECK(cs.count > c0, "no-progress", "no synchronisation within %g s of the network becoming steady (state %d, %u samples)", limit, int(cs.state), cs.time_delta_sample_count);
    // With equal delays both ways a full set of samples is exact up to the clock drift meanwhile.
    unsigned c1 = cs.count; step(n.t + cs.period + limit); SIM_CHECK(cs.count > c1, "no-progress", "synchronisation was not repeated after %g s", cs.period);
    SIM_CHECK(std::fabs(cs.time_delta - n.truth()) <= std::fabs(n.drift) * (2 * cs.period + limit + 10) + 1e-5 + tick * 0, "offset-wrong", "offset %g s off on a steady symmetric network", std::fabs(cs.time_delta - n.truth()));
    sim::state(h::mixh(samples, h::mixh(n.sent, cs.count))); sim::mix(uint64_t(std::llround(n.t * 1e6)));
}
SIM_SCENARIO(one_link, 1) { run(false); }
