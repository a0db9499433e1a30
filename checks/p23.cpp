// P23: in-memory archives: what was written is what is read; damaged or
// truncated input is reported and never leads outside the buffer.
#include "values.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/networking/packet/time_request.hpp"
#include "edyn/networking/packet/time_response.hpp"
#include "edyn/networking/packet/set_playout_delay.hpp"
#include "edyn/networking/packet/set_aabb_of_interest.hpp"
#include "edyn/networking/settings/server_network_settings.hpp"
#include "edyn/networking/comp/action_history.hpp"
using namespace edyn;
namespace {
struct Exact { // heap block of exactly n bytes: any access beyond it is caught
    std::unique_ptr<uint8_t[]> p; size_t n;
    Exact(const std::vector<uint8_t> &v, size_t k) : p(new uint8_t[k ? k : 1]), n(k) { if (k) std::memcpy(p.get(), v.data(), k); }
};
}
SIM_SCENARIO(round_trip, 3) {
    unsigned n = sim::range(1, 12); std::vector<val::Any> vs; for (unsigned i = 0; i < n; ++i) vs.push_back(val::Any::random());
    std::vector<uint8_t> buf; std::vector<size_t> ends; auto keep = vs;
    memory_output_archive out(buf);
    for (auto &v : vs) { v.archive(out); ends.push_back(buf.size()); }
    for (unsigned i = 0; i < n; ++i) SIM_CHECK(keep[i].same(vs[i]), "source-changed", "archiving value %u of kind %u changed it", i, vs[i].kind);
    size_t cut = buf.size(); // truncation: a message that lost its tail
    if (!buf.empty() && sim::fault(sim::F_NET_TRUNCATE, 1, 2)) cut = sim::pick(uint32_t(buf.size()));
    Exact e(buf, cut); memory_input_archive in(e.p.get(), e.n); bool was_failed = false;
    for (unsigned i = 0; i < n; ++i) {
        auto r = sim::pick(2) ? vs[i].dirty() : vs[i].blank(); r.archive(in);
        bool complete = ends[i] <= cut, before = (i ? ends[i - 1] : 0) <= cut;
        if (complete) { SIM_CHECK(!in.failed(), "spurious-failure", "reading value %u of %u failed although it was complete", i, n); SIM_CHECK(r.same(vs[i]), "value-changed", "value %u of kind %u read back differently", i, vs[i].kind); }
        else SIM_CHECK(in.failed(), "failure-not-reported", "value %u ends at byte %zu of a %zu byte message and the archive reports success", i, ends[i], cut);
        SIM_CHECK(!was_failed || in.failed(), "failure-forgotten", "archive recovered from a failure"); was_failed = in.failed(); (void)before;
    }
    if (in.failed()) for (unsigned k = 0; k < 3; ++k) { // nothing is decoded from what is left over after a failure
        uint8_t a = 0xA7; uint16_t b = 0x1234; bool c = k & 1; in(a); in(b); in(c); SIM_CHECK(a == 0xA7 && b == 0x1234 && c == bool(k & 1), "read-after-failure", "a value was read from a message that already failed");
    }
    if (cut == buf.size()) SIM_CHECK(in.eof(), "eof-wrong", "everything was read and the archive is not at its end");
    else SIM_CHECK(in.failed() || in.eof(), "eof-wrong", "truncated message neither failed nor at its end");
    sim::state(h::mixh(cut, buf.size()));
}
SIM_SCENARIO(fixed_buffer, 2) { // bounded output: all or a reported failure, never beyond the buffer
    unsigned n = sim::range(1, 10); std::vector<val::Any> vs; for (unsigned i = 0; i < n; ++i) vs.push_back(val::Any::random());
    std::vector<uint8_t> ref; std::vector<size_t> ends; { memory_output_archive out(ref); for (auto &v : vs) { v.archive(out); ends.push_back(ref.size()); } }
    size_t cap = ref.size(); if (sim::fault(sim::F_NO_SPACE, 1, 2) && cap) cap = sim::pick(uint32_t(cap)); else if (sim::pick(3) == 1) cap += sim::pick(16);
    std::unique_ptr<uint8_t[]> b(new uint8_t[cap ? cap : 1]); std::memset(b.get(), 0x5A, cap ? cap : 1);
    fixed_memory_output_archive out(b.get(), cap); std::vector<uint8_t> at_failure; bool failed = false;
    for (unsigned i = 0; i < n; ++i) {
        vs[i].archive(out);
        if (failed) SIM_CHECK(!std::memcmp(at_failure.data(), b.get(), cap), "write-after-failure", "value %u was written to a buffer that had already overflowed", i);
        else if (out.failed()) { failed = true; at_failure.assign(b.get(), b.get() + cap); }
        SIM_CHECK(out.failed() == (ends[i] > cap), "failure-not-reported", "value %u ends at byte %zu of a %zu byte buffer, failed()=%d", i, ends[i], cap, out.failed());
    }
    if (cap >= ref.size()) {
        SIM_CHECK(!std::memcmp(b.get(), ref.data(), ref.size()), "value-changed", "fixed and growing output archives disagree");
        for (size_t i = ref.size(); i < cap; ++i) SIM_CHECK(b[i] == 0x5A, "buffer-overrun", "byte %zu beyond the data was written", i);
    }
    memory_input_archive in(b.get(), cap);
    for (unsigned i = 0; i < n && ends[i] <= cap; ++i) { auto r = sim::pick(2) ? vs[i].dirty() : vs[i].blank(); r.archive(in); SIM_CHECK(!in.failed() && r.same(vs[i]), "value-changed", "value %u written to a bounded buffer reads back differently", i); }
    sim::state(h::mixh(cap, ref.size()));
}
SIM_SCENARIO(corrupted, 3) { // arbitrary bytes: terminates, stays inside the buffer, bounded memory
    std::vector<uint8_t> buf; unsigned n = sim::range(1, 8); std::vector<val::Any> vs;
    for (unsigned i = 0; i < n; ++i) { vs.push_back(val::Any::random()); }
    { memory_output_archive out(buf); for (auto &v : vs) v.archive(out); }
    unsigned flips = sim::range(1, 6);
    for (unsigned i = 0; i < flips && !buf.empty(); ++i) { auto k = sim::pick(uint32_t(buf.size())); sim::fault(sim::F_BIT_FLIP, 1, 1); if (sim::pick(2)) buf[k] ^= uint8_t(1u << sim::pick(8)); else buf[k] = uint8_t(sim::pick(256)); }
    Exact e(buf, sim::pick(uint32_t(buf.size()) + 1));
    sim::set_alloc_limit(64u << 20);
    memory_input_archive in(e.p.get(), e.n);
    for (unsigned i = 0; i < n; ++i) { // reading back with a different idea of the types, too
        auto r = sim::pick(3) ? vs[i].blank() : val::Any{};
        if (r.kind == 0) r.kind = 1 + sim::pick(val::kinds - 1);
        r.archive(in); sim::count_check();
    }
    SIM_CHECK(in.failed() || sim::live_heap_bytes() < (64u << 20), "unbounded-memory", "decoding %zu bytes keeps %llu bytes alive", e.n, (unsigned long long)sim::live_heap_bytes());
    sim::state(h::mixh(in.failed(), e.n));
}
namespace {
template<typename T, typename F> void packet_trip(const char *name, T &t, F cmp) {
    std::vector<uint8_t> buf; memory_output_archive out(buf); out(t);
    size_t cut = buf.size(); if (cut && sim::fault(sim::F_NET_TRUNCATE, 1, 2)) cut = sim::pick(uint32_t(cut));
    Exact e(buf, cut); memory_input_archive in(e.p.get(), e.n); T r{}; in(r);
    if (cut == buf.size()) { SIM_CHECK(!in.failed() && in.eof(), "spurious-failure", "%s: decoding a complete message failed", name); SIM_CHECK(cmp(t, r), "value-changed", "%s reads back differently", name); }
    else SIM_CHECK(in.failed(), "failure-not-reported", "%s: truncated to %zu of %zu bytes and reported as complete", name, cut, buf.size());
}
}
SIM_SCENARIO(small_packets, 2) {
    switch (sim::pick(5)) {
    case 0: { packet::time_request p{}; p.id = val::r32(); packet_trip("time request", p, [](auto &a, auto &b) { return a.id == b.id; }); break; }
    case 1: { packet::time_response p{}; p.id = val::r32(); p.timestamp = val::rd(); packet_trip("time response", p, [](auto &a, auto &b) { return a.id == b.id && a.timestamp == b.timestamp; }); break; }
    case 2: { packet::set_playout_delay p{}; p.value = val::rd(); packet_trip("playout delay", p, [](auto &a, auto &b) { return a.value == b.value; }); break; }
    case 3: { packet::set_aabb_of_interest p{}; val::fill(p.min); val::fill(p.max); packet_trip("region of interest", p, [](auto &a, auto &b) { return val::eq(a.min, b.min) && val::eq(a.max, b.max); }); break; }
    case 4: { action_history h; unsigned n = sim::pick(20); for (unsigned i = 0; i < n; ++i) { std::vector<uint8_t> d; val::fill(d); h.entries.emplace_back(val::rd(), uint8_t(sim::pick(256)), std::move(d)); }
        packet_trip("action history", h, [](auto &a, auto &b) { if (a.entries.size() != b.entries.size()) return false; for (size_t i = 0; i < a.entries.size(); ++i) if (a.entries[i].timestamp != b.entries[i].timestamp || a.entries[i].action_index != b.entries[i].action_index || a.entries[i].data != b.entries[i].data) return false; return true; }); break; }
    }
}
