// P22: pages of a large mesh that are loaded on demand, in the background and
// from several threads, are exactly the pages that were saved.
#include "meshes.hpp"
#include "edyn/context/task.hpp"
#include "edyn/parallel/job_dispatcher.hpp"
#include "edyn/parallel/message.hpp"
#include "edyn/parallel/message_dispatcher.hpp"
#include "edyn/serialization/paged_triangle_mesh_s11n.hpp"
#include "edyn/shapes/create_paged_triangle_mesh.hpp"
#include "edyn/shapes/paged_triangle_mesh.hpp"
#include "edyn/util/paged_mesh_load_reporting.hpp"
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <sys/stat.h>
using namespace edyn;
namespace {
std::string file(unsigned i) { return std::string(sim::scratch_dir()) + "/dir.d/m" + std::to_string(i) + (i % 2 ? ".bin" : ""); }
using Mode = paged_triangle_mesh_serialization_mode;
// Counts loads before handing them to the real loader.
struct Counting : triangle_mesh_page_loader_base {
    std::shared_ptr<paged_triangle_mesh_file_input_archive> in; std::unique_ptr<std::atomic<unsigned>[]> n; size_t pages = 0;
    void load(paged_triangle_mesh *m, size_t i) override { SIM_CHECK(i < pages, "bad-page", "page %zu requested of %zu", i, pages); n[i].fetch_add(1); in->load(m, i); }
};
struct World {
    std::vector<vector3> v, col; std::vector<uint32_t> ix; std::shared_ptr<paged_triangle_mesh> org; std::string path; Mode mode; unsigned w, d;
    std::shared_ptr<Counting> ld; std::shared_ptr<paged_triangle_mesh> m;
    static AABB box(const vector3 &a, const vector3 &b) { return {a, b}; }
    void build(bool workers) {
        w = sim::range(1, 7); d = sim::range(1, 7); msh::patch(v, ix, w, d);
        if (sim::pick(2)) for (size_t i = 0; i < v.size(); ++i) col.push_back({scalar(sim::pick(5)) / 4, scalar(sim::pick(5)) / 4, scalar(sim::pick(256)) / 255});
        org = std::make_shared<paged_triangle_mesh>(nullptr);
        create_paged_triangle_mesh(*org, v.begin(), v.end(), ix.begin(), ix.end(), sim::range(2, 14), col, {1, scalar(.5), 1}, workers ? &enqueue_task_wait_default : nullptr);
        if (sim::pick(2)) org->set_thickness(scalar(sim::range(2, 9)));
    }
    // Every triangle of the input is in exactly one page.
    void check_pages() {
        using T = std::vector<std::array<scalar, 3>>; std::vector<T> a, b; auto add = [](std::vector<T> &o, const vector3 &x, const vector3 &y, const vector3 &z) { T t; for (auto &p : {x, y, z}) t.push_back({p.x, p.y, p.z}); std::sort(t.begin(), t.end()); o.push_back(t); };
        for (size_t i = 0; i + 2 < ix.size(); i += 3) add(a, v[ix[i]], v[ix[i + 1]], v[ix[i + 2]]);
        for (size_t p = 0; p < org->num_submeshes(); ++p) { auto s = org->get_submesh(p); SIM_CHECK(bool(s), "page-missing", "page %zu of a new mesh is missing", p); for (size_t t = 0; t < s->num_triangles(); ++t) { auto c = s->get_triangle_vertices(t); add(b, c[0], c[1], c[2]); } }
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); SIM_CHECK(a == b, "page-contents", "pages hold %zu triangles, the mesh has %zu, or they differ", b.size(), a.size());
    }
    // Shared data of a page agrees with the undivided mesh.
    void check_shared() {
        triangle_mesh g; g.insert_vertices(v.begin(), v.end()); g.insert_indices(ix.begin(), ix.end()); g.initialize();
        auto less = [](const vector3 &a, const vector3 &b) { return std::memcmp(&a, &b, sizeof a) < 0; }; std::map<vector3, size_t, decltype(less)> at(less); for (size_t i = 0; i < g.num_vertices(); ++i) at[g.get_vertex_position(i)] = i;
        std::map<std::array<size_t, 3>, size_t> tri; for (size_t t = 0; t < g.num_triangles(); ++t) tri[{g.get_face_vertex_index(t, 0), g.get_face_vertex_index(t, 1), g.get_face_vertex_index(t, 2)}] = t;
        for (size_t p = 0; p < org->num_submeshes(); ++p) { auto s = org->get_submesh(p); for (size_t t = 0; t < s->num_triangles(); ++t) {
            std::array<size_t, 3> k; for (size_t i = 0; i < 3; ++i) k[i] = at[s->get_vertex_position(s->get_face_vertex_index(t, i))]; SIM_CHECK(tri.count(k), "page-contents", "page %zu has a triangle the mesh lacks", p); auto u = tri[k];
            SIM_CHECK(val::eq(s->get_triangle_normal(t), g.get_triangle_normal(u)), "page-contents", "page %zu: normal of a triangle differs from the undivided mesh", p);
            for (size_t i = 0; i < 3; ++i) { SIM_CHECK(val::eq(s->get_adjacent_face_normal(t, i), g.get_adjacent_face_normal(u, i)), "page-contents", "page %zu: neighbour across an edge differs from the undivided mesh", p); SIM_CHECK(s->is_convex_edge(s->get_face_edge_index(t, i)) == g.is_convex_edge(g.get_face_edge_index(u, i)), "page-contents", "page %zu: convexity of an edge differs from the undivided mesh", p); }
            if (!col.empty()) for (size_t i = 0; i < 3; ++i) { auto li = s->get_face_vertex_index(t, i); SIM_CHECK(s->get_vertex_friction(li) == col[k[i]].x && s->get_vertex_restitution(li) == col[k[i]].y * scalar(.5), "page-contents", "page %zu: friction or restitution of a vertex is not its color", p); }
        } }
    }
    void save() {
        mode = sim::pick(2) ? Mode::external : Mode::embedded; path = file(sim::pick(4));
        { paged_triangle_mesh_file_output_archive out(path, mode); serialize(out, *org); }
        if (mode == Mode::embedded) sim::probe("pages_in_one_file"); else sim::probe("pages_in_own_files");
    }
    void open(enqueue_task_t *f) {
        ld = std::make_shared<Counting>(); ld->in = std::make_shared<paged_triangle_mesh_file_input_archive>(path, f); SIM_CHECK(ld->in->is_file_open(), "open-wrong", "saved mesh does not open");
        m = std::make_shared<paged_triangle_mesh>(ld); serialize(*ld->in, *m);
        SIM_CHECK(m->num_submeshes() == org->num_submeshes(), "page-count", "%zu pages loaded of %zu saved", m->num_submeshes(), org->num_submeshes()); ld->pages = m->num_submeshes(); ld->n.reset(new std::atomic<unsigned>[ld->pages]()); for (size_t i = 0; i < ld->pages; ++i) SIM_CHECK(!m->get_submesh(i), "page-early", "page %zu present before it was asked for", i);
        SIM_CHECK(m->cache_num_vertices() == 0, "cache-count", "an empty cache claims %zu vertices", m->cache_num_vertices()); auto x = m->get_aabb(), y = org->get_aabb(); SIM_CHECK(val::eq(x.min, y.min) && val::eq(x.max, y.max) && m->get_thickness() == org->get_thickness(), "page-contents", "extent or thickness of the mesh changed");
    }
    void check_page(size_t i, const triangle_mesh &t) { SIM_CHECK(msh::same_mesh(*org->get_submesh(i), t), "page-contents", "page %zu differs from the one saved", i); }
    AABB region() { vector3 lo{scalar(sim::pick_on(sim::STREAM_SCHED, 8)) - scalar(.5), -1, scalar(sim::pick_on(sim::STREAM_SCHED, 8)) - scalar(.5)}; return {lo, lo + vector3{scalar(sim::pick_on(sim::STREAM_SCHED, 8)), 6, scalar(sim::pick_on(sim::STREAM_SCHED, 8))}}; }
    using Hits = std::vector<std::pair<size_t, size_t>>;
    Hits truth(const AABB &b) { Hits r; for (size_t p = 0; p < org->num_submeshes(); ++p) org->get_submesh(p)->visit_triangles(b, [&](auto t) { r.push_back({p, t}); }); std::sort(r.begin(), r.end()); return r; }
    // What a query finds is a subset of the truth, complete per page.
    void query(bool complete) {
        auto b = region(); auto all = truth(b); Hits got;
        m->visit_triangles(b, [&](auto p, auto t) { got.push_back({p, t}); });
        std::sort(got.begin(), got.end()); for (size_t i = 1; i < got.size(); ++i) SIM_CHECK(got[i] != got[i - 1], "query-wrong", "a triangle was visited twice");
        SIM_CHECK(std::includes(all.begin(), all.end(), got.begin(), got.end()), "query-wrong", "a query visited a triangle outside its region");
        std::set<size_t> pages; for (auto &g : got) pages.insert(g.first); Hits part; for (auto &a : all) if (complete || pages.count(a.first)) part.push_back(a);
        SIM_CHECK(part == got, "query-wrong", "a query visited %zu of %zu triangles", got.size(), part.size());
    }
    void ray() {
        vector3 p{scalar(sim::pick_on(sim::STREAM_SCHED, 70)) / 10, 9, scalar(sim::pick_on(sim::STREAM_SCHED, 70)) / 10}, q{scalar(sim::pick_on(sim::STREAM_SCHED, 70)) / 10, -2, scalar(sim::pick_on(sim::STREAM_SCHED, 70)) / 10}; Hits all, got;
        for (size_t i = 0; i < org->num_submeshes(); ++i) org->get_submesh(i)->raycast(p, q, [&](auto t) { all.push_back({i, t}); });
        m->raycast(p, q, [&](auto a, auto t) { got.push_back({a, t}); }); std::sort(all.begin(), all.end()); std::sort(got.begin(), got.end());
        SIM_CHECK(std::includes(all.begin(), all.end(), got.begin(), got.end()), "query-wrong", "a ray found a triangle that the saved mesh does not have");
    }
};
void mkdir_scratch() { ::mkdir((std::string(sim::scratch_dir()) + "/dir.d").c_str(), 0700); }
}
SIM_SCENARIO(sync_pages, 3) { // no background work: exact least-recently-used cache
    sim::set_step_budget(900000); sim::enable_io_faults(true); mkdir_scratch();
    World w; w.build(false); w.check_pages(); w.check_shared(); w.save(); w.open(nullptr);
    size_t n = w.org->num_submeshes(), biggest = 0, total = 0; for (size_t i = 0; i < n; ++i) { auto k = w.org->get_submesh(i)->num_vertices(); biggest = std::max(biggest, k); total += k; }
    size_t cap = sim::pick(2) ? total + 1 : biggest + 1 + sim::pick(uint32_t(total - biggest + 1)); w.m->m_max_cache_num_vertices = cap; if (cap < total) sim::probe("cache_smaller_than_mesh");
    std::vector<size_t> lru; for (size_t i = 0; i < n; ++i) lru.push_back(i); std::vector<bool> in(n); std::vector<unsigned> loads(n); auto nv = [&](size_t i) { return w.org->get_submesh(i)->num_vertices(); };
    for (unsigned k = 0, K = sim::range(1, 12); k < K; ++k) {
        unsigned op = sim::pick(8);
        if (op == 7) { w.m->clear_cache(); in.assign(n, false); sim::probe("cache_cleared"); }
        else if (op == 6) { auto x = scalar(sim::range(1, 9)); w.m->set_thickness(x); for (size_t i = 0; i < n; ++i) w.org->get_submesh(i)->set_thickness(x); SIM_CHECK(w.m->get_thickness() == x, "thickness", "thickness was not taken over"); }
        else w.m->visit_submeshes(w.region(), [&](size_t i) {
            if (!in[i]) { size_t sum = 0; for (size_t j = 0; j < n; ++j) if (in[j]) sum += nv(j); for (auto it = lru.rbegin(); sum + nv(i) > cap && it != lru.rend(); ++it) if (in[*it]) { in[*it] = false; sum -= nv(*it); sim::probe("page_evicted"); } in[i] = true; ++loads[i]; }
            auto it = std::find(lru.begin(), lru.end(), i); std::rotate(lru.begin(), it, it + 1); auto t = w.m->get_submesh(i); SIM_CHECK(bool(t), "page-missing", "visited page %zu is absent", i); w.check_page(i, *t);
        });
        size_t cnt = 0; for (size_t i = 0; i < n; ++i) { auto t = w.m->get_submesh(i); SIM_CHECK(bool(t) == in[i], "cache-wrong", "page %zu is %s, least-recently-used order says otherwise", i, t ? "present" : "absent"); if (t) { cnt += t->num_vertices(); w.check_page(i, *t); } SIM_CHECK(w.ld->n[i] == loads[i], "loaded-again", "page %zu was loaded %u times, expected %u", i, unsigned(w.ld->n[i]), loads[i]); }
        SIM_CHECK(cnt == w.m->cache_num_vertices() && cnt <= cap, "cache-count", "cache holds %zu vertices, claims %zu, limit %zu", cnt, w.m->cache_num_vertices(), cap);
    }
    if (cap > total) { w.query(true); w.ray(); }
    sim::state(h::mixh(n, h::mixh(cap, w.w * 16 + w.d)));
}
SIM_SCENARIO(background_pages, 6) {
    sim::set_step_budget(1500000); sim::enable_stalls(true); sim::enable_io_faults(sim::pick(2)); mkdir_scratch();
    auto &d = job_dispatcher::global(); d.start(sim::range(1, 3));
    auto q = message_dispatcher::global().make_queue<msg::paged_triangle_mesh_load_page>(internal::paged_mesh_load_queue_identifier);
    { World w; w.build(sim::pick(2)); w.check_pages(); w.check_shared(); w.save(); w.open(&enqueue_task_default);
      size_t n = w.org->num_submeshes(), biggest = 0, total = 0; for (size_t i = 0; i < n; ++i) { auto k = w.org->get_submesh(i)->num_vertices(); biggest = std::max(biggest, k); total += k; }
      bool small = sim::pick(3) == 2; w.m->m_max_cache_num_vertices = small ? biggest + 1 + sim::pick(uint32_t(total - biggest + 1)) : total + 1; if (small) sim::probe("evicting_while_loading");
      struct Rx { std::vector<unsigned> n; paged_triangle_mesh *m; void on(message<msg::paged_triangle_mesh_load_page> &x) { SIM_CHECK(x.content.trimesh == m && x.content.mesh_index < n.size(), "bad-event", "page event for page %zu", x.content.mesh_index); ++n[x.content.mesh_index]; } } rx{std::vector<unsigned>(n), w.m.get()};
      q.sink<msg::paged_triangle_mesh_load_page>().connect<&Rx::on>(rx);
      unsigned T = sim::range(1, 3); std::vector<std::thread> ts; unsigned K = sim::range(1, 5);
      auto work = [&] { for (unsigned k = 0; k < K; ++k) switch (sim::pick_on(sim::STREAM_SCHED, 5)) {
          case 0: w.ray(); break;
          case 1: { size_t i = sim::pick_on(sim::STREAM_SCHED, uint32_t(n)); auto t = w.m->get_submesh(i); if (t) w.check_page(i, *t); break; }
          case 2: w.m->visit_submeshes(w.region(), [&](size_t i) { auto t = w.m->get_submesh(i); if (t) w.check_page(i, *t); }); break;
          case 3: h::jitter(); w.m->visit_all_cached_triangles([&](size_t p, size_t t) { SIM_CHECK(p < n && t < w.org->get_submesh(p)->num_triangles(), "query-wrong", "triangle %zu of page %zu does not exist", t, p); }); break;
          default: w.query(false); } };
      for (unsigned t = 1; t < T; ++t) ts.emplace_back(work);
      work(); for (auto &t : ts) t.join();
      // Faults stop: asking again must bring every page that fits.
      sim::stop_faults(); AABB all{{-9, -9, -9}, {99, 99, 99}};
      if (!small) {
          for (unsigned k = 0;; ++k) { unsigned have = 0; w.m->visit_submeshes(all, [&](size_t) {}); for (size_t i = 0; i < n; ++i) have += bool(w.m->get_submesh(i)); if (have == n) break; SIM_CHECK(k < 60, "page-never-loaded", "%u of %zu pages present after asking %u times over %u ms", have, n, k, k * 20); sim::sleep_ns(20000000); }
          w.query(true);
          for (size_t i = 0; i < n; ++i) SIM_CHECK(w.ld->n[i] == 1, "loaded-again", "page %zu was loaded %u times", i, unsigned(w.ld->n[i]));
      } else for (unsigned k = 0; k < 4; ++k) { // each page in turn can still be brought in
          size_t i = sim::pick(uint32_t(n)); auto c = w.org->get_submesh(i)->get_triangle_vertices(0); auto p = (c[0] + c[1] + c[2]) / scalar(3); AABB b{p - vector3{.01, .01, .01}, p + vector3{.01, .01, .01}};
          for (unsigned r = 0;; ++r) { bool hit = false; w.m->visit_submeshes(b, [&](size_t j) { hit |= j == i; }); if (hit) break; SIM_CHECK(r < 60, "page-never-loaded", "page %zu is still absent after asking %u times", i, r); sim::sleep_ns(20000000); }
      }
      for (size_t i = 0; i < n; ++i) if (auto t = w.m->get_submesh(i)) w.check_page(i, *t);
      sim::sleep_ns(300000000); q.update(); if (!small) for (size_t i = 0; i < n; ++i) SIM_CHECK(rx.n[i] == 1, "bad-event", "%u events for the single load of page %zu", rx.n[i], i);
      q.sink<msg::paged_triangle_mesh_load_page>().disconnect<&Rx::on>(rx);
      sim::state(h::mixh(n, h::mixh(T, total))); d.stop(); }
}
