// P05: messages arrive exactly once, in per-sender order, with the right
// content and sender, to the right queue and handler.
#include "common.hpp"
#include "edyn/parallel/message_dispatcher.hpp"
#include <atomic>
#include <map>
using namespace edyn;
namespace {
struct Small { uint32_t sender, seq; };
struct Big { uint32_t sender, seq; std::vector<uint32_t> body; };
struct Unlisted { uint32_t sender, seq; };
struct Rx {
    std::string name; std::map<uint32_t, uint32_t> last; std::map<uint32_t, std::vector<uint32_t>> small, big; unsigned total = 0; bool in_update = false; int thread = -1;
    std::string want_sender(uint32_t s) { return "from" + std::to_string(s); }
    void any(uint32_t s, uint32_t q, const message_queue_identifier &id) {
        SIM_CHECK(in_update && sim::self() == thread, "wrong-thread", "message delivered outside the receiver's update");
        SIM_CHECK(id.value == want_sender(s), "wrong-sender", "message of sender %u labelled %s", s, id.value.c_str());
        auto it = last.find(s);
        SIM_CHECK(it == last.end() || it->second < q, "out-of-order", "queue %s: message %u of sender %u delivered after %u", name.c_str(), q, s, it == last.end() ? 0 : it->second);
        last[s] = q; ++total;
    }
    void on_small(message<Small> &m) { any(m.content.sender, m.content.seq, m.sender); small[m.content.sender].push_back(m.content.seq); }
    void on_big(message<Big> &m) {
        any(m.content.sender, m.content.seq, m.sender);
        SIM_CHECK(m.content.body.size() == m.content.seq % 9, "message-corrupted", "message %u has %zu items", m.content.seq, m.content.body.size());
        for (auto v : m.content.body) SIM_CHECK(v == m.content.seq * 3 + m.content.sender, "message-corrupted", "message %u of sender %u is damaged", m.content.seq, m.content.sender);
        big[m.content.sender].push_back(m.content.seq);
    }
};
}
SIM_SCENARIO(messages, 4) {
    sim::set_step_budget(500000); sim::enable_stalls(true);
    message_dispatcher own; auto &d = sim::pick(4) == 0 ? message_dispatcher::global() : own;
    unsigned Q = sim::range(1, 3), S = sim::range(1, 3), per = sim::range(1, 8);
    bool late_queue = sim::pick(3) == 1; // receivers appear while senders already run
    struct Plan { uint8_t dst, kind; }; std::vector<std::vector<Plan>> plan(S, std::vector<Plan>(per));
    for (auto &v : plan) for (auto &p : v) { p.dst = uint8_t(sim::pick(Q + 1)); p.kind = uint8_t(sim::pick(5)); } // dst == Q: nobody listens
    std::vector<Rx> rx(Q); std::vector<std::thread> rts, sts; std::atomic<unsigned> running{S}; h::Latch ready(late_queue ? 0 : Q);
    std::vector<unsigned> pushes(Q, 0); std::mutex pm;
    for (unsigned q = 0; q < Q; ++q) rts.emplace_back([&, q] {
        auto &r = rx[q]; r.name = "q" + std::to_string(q);
        auto hd = d.make_queue<Small, Big>(r.name);
        SIM_CHECK(hd.identifier.value == r.name, "wrong-queue", "handle of %s is named %s", r.name.c_str(), hd.identifier.value.c_str());
        hd.sink<Small>().connect<&Rx::on_small>(r); hd.sink<Big>().connect<&Rx::on_big>(r);
        if (!late_queue) ready.hit();
        r.thread = sim::self();
        for (;;) { bool last = running.load() == 0; r.in_update = true; hd.update(); r.in_update = false; if (last) break; h::jitter(); sim::yield(); }
    });
    if (!late_queue) ready.wait();
    for (unsigned s = 0; s < S; ++s) sts.emplace_back([&, s] {
        for (unsigned i = 0; i < per; ++i) {
            auto &p = plan[s][i]; std::string dst = p.dst == Q ? "nobody" : "q" + std::to_string(p.dst), src = "from" + std::to_string(s); uint32_t seq = i + 1;
            if (p.kind == 4) d.send<Unlisted>({dst}, {src}, Unlisted{s, seq});
            else if (p.kind & 1) d.send<Big>({dst}, {src}, Big{s, seq, std::vector<uint32_t>(seq % 9, seq * 3 + s)});
            else d.send<Small>({dst}, {src}, Small{s, seq});
            h::jitter();
        }
        running.fetch_sub(1);
    });
    for (auto &t : sts) t.join(); for (auto &t : rts) t.join();
    uint64_t st = 0;
    for (unsigned q = 0; q < Q; ++q) for (unsigned s = 0; s < S; ++s) {
        std::vector<uint32_t> es, eb;
        for (unsigned i = 0; i < per; ++i) if (plan[s][i].dst == q && plan[s][i].kind != 4) (plan[s][i].kind & 1 ? eb : es).push_back(i + 1);
        auto &gs = rx[q].small[s]; auto &gb = rx[q].big[s];
        if (!late_queue) {
            SIM_CHECK(gs == es && gb == eb, "message-lost", "queue %u got %zu+%zu messages of sender %u, expected %zu+%zu", q, gs.size(), gb.size(), s, es.size(), eb.size());
        } else { // only messages sent before the queue existed may be missing: the received ones are a suffix
            auto suffix = [](const std::vector<uint32_t> &g, const std::vector<uint32_t> &e) { return g.size() <= e.size() && std::equal(g.rbegin(), g.rend(), e.rbegin()); };
            SIM_CHECK(suffix(gs, es) && suffix(gb, eb), "message-lost", "queue %u lost messages of sender %u after it existed", q, s);
            if (gs.size() < es.size()) sim::probe("sent_before_queue_existed");
        }
        st = h::mixh(st, gs.size() * 64 + gb.size());
    }
    sim::state(st);
    h::check_no_threads("messages");
}
namespace { struct Ev { uint32_t v; }; struct Cnt { std::atomic<unsigned> pushes{0}; void push() { pushes.fetch_add(1); } }; }
SIM_SCENARIO(raw_queue, 2) { // several consumers on one queue, push notifications
    sim::set_step_budget(300000);
    message_queue q; Cnt cnt; q.push_sink().connect<&Cnt::push>(cnt);
    unsigned S = sim::range(1, 3), C = sim::range(1, 2), per = sim::range(1, 6);
    std::vector<std::vector<uint32_t>> got(C + 1); std::vector<std::thread> ts; std::atomic<unsigned> running{S};
    for (unsigned s = 0; s < S; ++s) ts.emplace_back([&, s] { for (unsigned i = 0; i < per; ++i) { q.push<Ev>({"s"}, Ev{s * 100 + i}); h::jitter(); } running.fetch_sub(1); });
    auto take = [&](unsigned c) { q.consume([&](any_message &m) { auto *e = entt::any_cast<Ev>(&m.content); SIM_CHECK(e && m.sender.value == "s", "message-corrupted", "consumed message has the wrong type or sender"); got[c].push_back(e->v); }); };
    for (unsigned c = 0; c < C; ++c) ts.emplace_back([&, c] { while (running.load()) { take(c); sim::yield(); } });
    for (auto &t : ts) t.join();
    take(C);
    std::vector<int> n(S * 100, 0); size_t total = 0;
    for (unsigned c = 0; c <= C; ++c) { std::vector<int> last(S, -1); for (auto v : got[c]) { SIM_CHECK(v < n.size() && ++n[v] == 1, "message-duplicated", "message %u consumed twice", v); SIM_CHECK(last[v / 100] < int(v % 100), "out-of-order", "message %u consumed after %d", v, last[v / 100]); last[v / 100] = int(v % 100); ++total; } }
    SIM_CHECK(total == S * per, "message-lost", "%zu of %u messages consumed", total, S * per);
    SIM_CHECK(cnt.pushes.load() == S * per, "push-signal", "%u push notifications for %u messages", cnt.pushes.load(), S * per);
    sim::state(h::mixh(total, C));
}
SIM_SCENARIO(clear_while_sending, 1) { // shutdown: queues are dropped while senders still run
    sim::set_step_budget(300000);
    message_dispatcher d; { auto q = d.make_queue<Ev>("a"); (void)q; }
    std::vector<std::thread> ts; unsigned S = sim::range(1, 3), per = sim::range(1, 5);
    for (unsigned s = 0; s < S; ++s) ts.emplace_back([&] { for (unsigned i = 0; i < per; ++i) { d.send<Ev>({"a"}, {"s"}, Ev{i}); h::jitter(); } });
    h::jitter(); d.clear_queues(); sim::probe("queues_cleared_while_sending");
    for (auto &t : ts) t.join();
    sim::count_check(); sim::state(h::mixh(S, per));
}
