// P24: a changed component stays in every update for the whole redundancy
// window after its last change, and leaves it afterwards.
#include "common.hpp"
#include "edyn/networking/comp/exporter_modified_components.hpp"
#include <map>
#include <set>
using namespace edyn;
namespace {
template<uint16_t N> void run() {
    using M = exporter_modified_components<N>;
    M m; std::map<uint16_t, int64_t> left; constexpr int64_t window = M::duration;
    SIM_CHECK(window >= 100, "window-wrong", "redundancy window is %lld ms", (long long)window);
    unsigned steps = sim::range(1, 60); uint64_t st = 0; bool slow = sim::pick(4) == 1;
    // the receiving end of a lossy channel: last value seen of each component
    std::vector<uint32_t> value(N, 0), seen(N, 0); std::map<uint16_t, bool> delivered; unsigned ver = 0;
    auto verify = [&] {
        std::set<uint16_t> got, want; bool live = false;
        for (unsigned i = 0; i < m.count; ++i) SIM_CHECK(got.insert(m.entry[i].index).second, "listed-twice", "component %u is listed twice", m.entry[i].index);
        for (auto &[k, v] : left) { want.insert(k); live = live || v > 0; }
        for (auto k : want) SIM_CHECK(got.count(k), "dropped-early", "component %u left the update %lld ms before its window ended", k, (long long)left[k]);
        for (auto k : got) SIM_CHECK(want.count(k), "kept-too-long", "component %u is still in the update after its window", k);
        SIM_CHECK(m.empty() == !live, "empty-wrong", "empty() is %d with %zu changed components", m.empty(), want.size());
        st = h::mixh(st, m.count);
    };
    for (unsigned s = 0; s < steps; ++s) {
        unsigned bumps = sim::pick(4) == 0 ? sim::pick(N + 1) : sim::pick(3);
        for (unsigned b = 0; b < bumps; ++b) { uint16_t k = uint16_t(sim::pick(N)); if (left.size() == N && left.count(k)) sim::probe("changed_again_while_all_are_listed"); m.bump_index(k); left[k] = window; value[k] = ++ver; if (N < 100 || b % 16 == 0) verify(); }
        unsigned el = slow ? sim::pick(500) : sim::pick(34);
        if (uint32_t j = sim::fault_mag(sim::F_CLOCK_JUMP_FWD, 1, 20, 200000)) el += j;
        if (sim::pick(8) == 3) el = unsigned(window) + sim::pick(2);
        m.decay(el);
        for (auto it = left.begin(); it != left.end();) { if (int64_t(el) > it->second) it = left.erase(it); else { it->second -= el; ++it; } }
        verify();
        if (!sim::fault(sim::F_NET_LOSS, 1, 2)) for (unsigned i = 0; i < m.count; ++i) seen[m.entry[i].index] = value[m.entry[i].index];
        for (auto &[k, v] : left) (void)v, delivered[k] = seen[k] == value[k];
    }
    sim::state(st);
}
}
SIM_SCENARIO(redundancy_window, 1) { switch (sim::pick(12) == 11 ? 4 : sim::pick(4)) { case 4: run<300>(); break; case 0: run<1>(); break; case 1: run<3>(); break; case 2: run<8>(); break; default: run<40>(); } }
