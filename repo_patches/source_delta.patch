From 1e6a4062c61dc432cd8ebb85918a09538b3af23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 01/62] fix: worker stopped before its thread starts running
 must not hang

worker::run() set m_running to true on entry, overwriting a stop() that was
called before the thread got to run, hence job_dispatcher::stop() would wait
forever in join(). Initialize the flag to true instead.
---
 include/edyn/parallel/worker.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index be65822..5738b4d 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -18,8 +18,6 @@ public:
     }
 
     void run() {
-        m_running = true;
-
         for (;;) {
             auto j = m_queue.pop();
             j();
@@ -53,7 +51,7 @@ public:
     }
 
 private:
-    std::atomic_bool m_running {false};
+    std::atomic_bool m_running {true};
     job_queue m_queue;
     std::atomic<size_t> m_size {0};
 };
-- 
2.43.0


From a8696639c3ab78c468a016801fcbf9101f1f7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:12 +0000
Subject: [PATCH 02/62] fix: worker size must not underflow when a job finishes
 quickly

push_job() incremented the size after making the job available. If the worker
would run it in between, the size would wrap around to SIZE_MAX. If that
happened in all workers, job_dispatcher::async() would find no candidate and
fail its assertion (or dereference a null worker).
---
 include/edyn/parallel/worker.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edyn/parallel/worker.hpp b/include/edyn/parallel/worker.hpp
index 5738b4d..28d9234 100644
--- a/include/edyn/parallel/worker.hpp
+++ b/include/edyn/parallel/worker.hpp
@@ -13,8 +13,10 @@ namespace edyn {
 class worker {
 public:
     void push_job(const job &j) {
-        m_queue.push(j);
+        // Increment before pushing. The job could be executed right after it is
+        // pushed, in which case the size would be decremented below zero.
         ++m_size;
+        m_queue.push(j);
     }
 
     void run() {
-- 
2.43.0


From 8429b8e462b895c76c65c6b559f6daa2c5a9484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:52 +0000
Subject: [PATCH 03/62] fix: order task parts before completion and deletion of
 the task context

The counters of parallel_for_async_context were decremented with relaxed
ordering, thus the completion was not ordered after the parts of the task that
were run by other workers and the context could be deleted while not ordered
after the last accesses made by other workers.
---
 src/edyn/context/task.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/context/task.cpp b/src/edyn/context/task.cpp
index c275e14..c12dd6c 100644
--- a/src/edyn/context/task.cpp
+++ b/src/edyn/context/task.cpp
@@ -136,7 +136,7 @@ void parallel_for_async_job_func(job::data_type &data) {
         ctx->task(begin, end);
 
         const auto progress = end - begin;
-        const auto completed = ctx->completed_counter.fetch_add(progress, std::memory_order_relaxed) + progress;
+        const auto completed = ctx->completed_counter.fetch_add(progress, std::memory_order_acq_rel) + progress;
         EDYN_ASSERT(completed <= total);
 
         if (completed == total) {
@@ -147,7 +147,7 @@ void parallel_for_async_job_func(job::data_type &data) {
         }
     }
 
-    auto ref_count = ctx->ref_counter.fetch_sub(1, std::memory_order_relaxed) - 1;
+    auto ref_count = ctx->ref_counter.fetch_sub(1, std::memory_order_acq_rel) - 1;
     EDYN_ASSERT(ref_count >= 0);
 
     if (ref_count == 0) {
-- 
2.43.0


From dac2e41747d69fd81f18df487356df735835c08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:52 +0000
Subject: [PATCH 04/62] fix: clear message queues under an exclusive lock

clear_queues() destroys the queues while holding only a shared lock, which
does not exclude concurrent calls to send().
---
 include/edyn/parallel/message_dispatcher.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/parallel/message_dispatcher.hpp b/include/edyn/parallel/message_dispatcher.hpp
index 1ca1b99..1880f25 100644
--- a/include/edyn/parallel/message_dispatcher.hpp
+++ b/include/edyn/parallel/message_dispatcher.hpp
@@ -74,7 +74,7 @@ public:
     }
 
     void clear_queues() {
-        auto lock = std::shared_lock(m_queues_mutex);
+        auto lock = std::lock_guard(m_queues_mutex);
         m_queues.clear();
     }
 
-- 
2.43.0


From 2f1eba738f99e7fc23a33c766919d78c5adb56b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:44 +0000
Subject: [PATCH 05/62] fix: call completion of empty background tasks

enqueue_task_default() dispatched no jobs for a task of size zero, hence the
completion was never called and the context was leaked.
---
 src/edyn/context/task.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/edyn/context/task.cpp b/src/edyn/context/task.cpp
index c12dd6c..3c55481 100644
--- a/src/edyn/context/task.cpp
+++ b/src/edyn/context/task.cpp
@@ -156,6 +156,15 @@ void parallel_for_async_job_func(job::data_type &data) {
 }
 
 void enqueue_task_default(task_delegate_t task, unsigned size, task_completion_delegate_t completion) {
+    if (size == 0) {
+        // Nothing to do, no job would be dispatched to invoke the completion
+        // and release the context.
+        if (completion) {
+            completion();
+        }
+        return;
+    }
+
     auto &dispatcher = job_dispatcher::global();
     auto num_workers = dispatcher.num_workers();
 
-- 
2.43.0


From 3a1dd1e84e955805de89952d43843f134206a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:29 +0000
Subject: [PATCH 06/62] fix: do not carry contents of one map entry into the
 next when deserializing

---
 include/edyn/serialization/std_s11n.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edyn/serialization/std_s11n.hpp b/include/edyn/serialization/std_s11n.hpp
index 451604c..a6dc678 100644
--- a/include/edyn/serialization/std_s11n.hpp
+++ b/include/edyn/serialization/std_s11n.hpp
@@ -192,8 +192,10 @@ void serialize(Archive &archive, std::map<K, V> &map) {
     archive(size);
 
     if constexpr(Archive::is_input::value) {
-        auto pair = std::pair<K, V>{};
         for (size_type i = 0; i < size; ++i) {
+            // Start from an empty pair. Reusing the value of the previous entry
+            // would leak its contents into this one.
+            auto pair = std::pair<K, V>{};
             archive(pair);
             map.emplace(pair);
         }
-- 
2.43.0


From cc2a1539df67996da4b9ab937a0f2100b0e452f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:13 +0000
Subject: [PATCH 07/62] fix: bumping a component that is already listed is
 valid when all components are listed

---
 include/edyn/networking/comp/exporter_modified_components.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edyn/networking/comp/exporter_modified_components.hpp b/include/edyn/networking/comp/exporter_modified_components.hpp
index 426f24b..0ec1dfd 100644
--- a/include/edyn/networking/comp/exporter_modified_components.hpp
+++ b/include/edyn/networking/comp/exporter_modified_components.hpp
@@ -28,7 +28,6 @@ struct exporter_modified_components {
     }
 
     void bump_index(uint16_t index) {
-        EDYN_ASSERT(count < NumComponents);
         bool found = false;
 
         for (unsigned i = 0; i < count; ++i) {
@@ -39,6 +38,7 @@ struct exporter_modified_components {
         }
 
         if (!found) {
+            EDYN_ASSERT(count < NumComponents);
             entry[count++] = {index, duration};
         }
     }
-- 
2.43.0


From 6008ff3c0a81ea89a4341b8f39b6f8aaef522411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:26 +0000
Subject: [PATCH 08/62] fix: publish pages of a paged triangle mesh atomically

Pages are assigned and unloaded in worker threads while other threads read
the same shared pointer without synchronization.
---
 include/edyn/collision/collide.hpp          |  6 +++
 include/edyn/shapes/paged_triangle_mesh.hpp | 19 +++----
 src/edyn/collision/raycast.cpp              |  6 +++
 src/edyn/shapes/paged_triangle_mesh.cpp     | 58 +++++++++++----------
 4 files changed, 52 insertions(+), 37 deletions(-)

diff --git a/include/edyn/collision/collide.hpp b/include/edyn/collision/collide.hpp
index 7055bdb..0dddafb 100644
--- a/include/edyn/collision/collide.hpp
+++ b/include/edyn/collision/collide.hpp
@@ -348,6 +348,12 @@ void collide(const T &shA, const paged_mesh_shape &shB,
 
     shB.trimesh->visit_submeshes(inset_aabb, [&](size_t mesh_idx) {
         auto trimesh = shB.trimesh->get_submesh(mesh_idx);
+
+        // Could've been unloaded in another thread.
+        if (!trimesh) {
+            return;
+        }
+
         collision_result child_result;
         collide(shA, *trimesh, ctx, child_result);
 
diff --git a/include/edyn/shapes/paged_triangle_mesh.hpp b/include/edyn/shapes/paged_triangle_mesh.hpp
index 3c73b5d..afbc412 100644
--- a/include/edyn/shapes/paged_triangle_mesh.hpp
+++ b/include/edyn/shapes/paged_triangle_mesh.hpp
@@ -50,7 +50,7 @@ public:
             auto mesh_idx = m_tree.get_node(tree_node_idx).id;
             load_node_if_needed(mesh_idx);
 
-            if (m_cache[mesh_idx].trimesh) {
+            if (get_submesh(mesh_idx)) {
                 func(mesh_idx);
                 mark_recent_visit(mesh_idx);
             }
@@ -65,7 +65,7 @@ public:
     template<typename Func>
     void visit_all_cached_edges(Func func) const {
         for (size_t mesh_idx = 0; mesh_idx < m_cache.size(); ++mesh_idx) {
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 for (size_t edge_idx = 0; edge_idx < trimesh->num_edges(); ++edge_idx) {
@@ -90,7 +90,7 @@ public:
         m_tree.query(aabb, [&](auto tree_node_idx) {
             auto mesh_idx = m_tree.get_node(tree_node_idx).id;
             load_node_if_needed(mesh_idx);
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 trimesh->visit_triangles(aabb, [=](uint32_t tri_idx) {
@@ -116,7 +116,7 @@ public:
     template<typename Func>
     void visit_cached_triangles(const AABB &aabb, Func func) const {
         for (size_t mesh_idx = 0; mesh_idx < m_cache.size(); ++mesh_idx) {
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 trimesh->visit_triangles(aabb, [=](uint32_t tri_idx) {
@@ -138,7 +138,7 @@ public:
     template<typename Func>
     void visit_all_cached_triangles(Func func) const {
         for (size_t mesh_idx = 0; mesh_idx < m_cache.size(); ++mesh_idx) {
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 for (size_t tri_idx = 0; tri_idx < trimesh->num_triangles(); ++tri_idx) {
@@ -162,7 +162,7 @@ public:
         m_tree.raycast(p0, p1, [&](auto tree_node_idx) {
             auto mesh_idx = m_tree.get_node(tree_node_idx).id;
             load_node_if_needed(mesh_idx);
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 trimesh->raycast(p0, p1, [=](uint32_t tri_idx) {
@@ -185,7 +185,7 @@ public:
     void raycast_cached(const vector3 &p0, const vector3 &p1, Func func) const {
         m_tree.raycast(p0, p1, [&](auto tree_node_idx) {
             auto mesh_idx = m_tree.get_node(tree_node_idx).id;
-            auto trimesh = m_cache[mesh_idx].trimesh;
+            auto trimesh = get_submesh(mesh_idx);
 
             if (trimesh) {
                 trimesh->raycast(p0, p1, [=](uint32_t tri_idx) {
@@ -223,8 +223,9 @@ public:
      * @param idx Sub-mesh index.
      * @return Pointer to submesh. Null if not loaded.
      */
-    std::shared_ptr<triangle_mesh> get_submesh(size_t idx) {
-        return m_cache[idx].trimesh;
+    std::shared_ptr<triangle_mesh> get_submesh(size_t idx) const {
+        // Pages are loaded and unloaded in other threads.
+        return std::atomic_load(&m_cache[idx].trimesh);
     }
 
     /**
diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 2df0f3d..50ed0f1 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -405,6 +405,12 @@ shape_raycast_result shape_raycast(const paged_mesh_shape &paged_mesh, const ray
 
     paged_mesh.trimesh->raycast_cached(ctx.p0, ctx.p1, [&](auto submesh_idx, auto tri_idx) {
         auto trimesh = paged_mesh.trimesh->get_submesh(submesh_idx);
+
+        // Could've been unloaded in another thread.
+        if (!trimesh) {
+            return;
+        }
+
         auto vertices = trimesh->get_triangle_vertices(tri_idx);
         auto normal = trimesh->get_triangle_normal(tri_idx);
         auto t = scalar(0);
diff --git a/src/edyn/shapes/paged_triangle_mesh.cpp b/src/edyn/shapes/paged_triangle_mesh.cpp
index 2a39de5..2a2c8ea 100644
--- a/src/edyn/shapes/paged_triangle_mesh.cpp
+++ b/src/edyn/shapes/paged_triangle_mesh.cpp
@@ -18,12 +18,12 @@ paged_triangle_mesh::paged_triangle_mesh(std::shared_ptr<triangle_mesh_page_load
 size_t paged_triangle_mesh::cache_num_vertices() const {
     size_t count = 0;
 
-    for (auto &node : m_cache) {
-        if (!node.trimesh) {
+    for (size_t i = 0; i < m_cache.size(); ++i) {
+        if (!get_submesh(i)) {
             continue;
         }
 
-        count += node.num_vertices;
+        count += m_cache[i].num_vertices;
     }
 
     return count;
@@ -38,10 +38,8 @@ void paged_triangle_mesh::load_node_if_needed(size_t trimesh_idx) {
     }
 
     auto &node = m_cache[trimesh_idx];
-    // Make copy of shared_ptr to increment reference count and avoid concurrent deallocation.
-    auto trimesh = node.trimesh;
 
-    if (trimesh) {
+    if (get_submesh(trimesh_idx)) {
         m_is_loading_submesh[trimesh_idx].store(false, std::memory_order_relaxed);
         return;
     }
@@ -67,10 +65,8 @@ void paged_triangle_mesh::unload_least_recently_visited_node() {
     auto lock = std::lock_guard(m_lru_mutex);
 
     for (auto it = m_lru_indices.rbegin(); it != m_lru_indices.rend(); ++it) {
-        auto &node = m_cache[*it];
-
-        if (node.trimesh) {
-            node.trimesh.reset();
+        if (get_submesh(*it)) {
+            std::atomic_store(&m_cache[*it].trimesh, std::shared_ptr<triangle_mesh>{});
             message_dispatcher::global().send<msg::paged_triangle_mesh_load_page>({internal::paged_mesh_load_queue_identifier}, {}, this, *it);
             break;
         }
@@ -79,13 +75,16 @@ void paged_triangle_mesh::unload_least_recently_visited_node() {
 
 triangle_vertices paged_triangle_mesh::get_triangle_vertices(size_t mesh_idx, size_t tri_idx) const {
     EDYN_ASSERT(mesh_idx < m_cache.size());
-    EDYN_ASSERT(m_cache[mesh_idx].trimesh);
-    return m_cache[mesh_idx].trimesh->get_triangle_vertices(tri_idx);
+    auto trimesh = get_submesh(mesh_idx);
+    EDYN_ASSERT(trimesh);
+    return trimesh->get_triangle_vertices(tri_idx);
 }
 
 void paged_triangle_mesh::clear_cache() {
+    auto lock = std::lock_guard(m_lru_mutex);
+
     for (auto &node : m_cache) {
-        node.trimesh.reset();
+        std::atomic_store(&node.trimesh, std::shared_ptr<triangle_mesh>{});
     }
 }
 
@@ -93,15 +92,15 @@ void paged_triangle_mesh::assign_mesh(size_t index, std::shared_ptr<triangle_mes
     // Use lock to prevent assigning to the same trimesh shared_ptr concurrently
     // if `unload_least_recently_visited_node` is executing in another thread.
     auto lock = std::lock_guard(m_lru_mutex);
-    m_cache[index].trimesh = mesh;
     mesh->set_thickness(m_thickness);
+    std::atomic_store(&m_cache[index].trimesh, mesh);
     m_is_loading_submesh[index].store(false, std::memory_order_release);
     message_dispatcher::global().send<msg::paged_triangle_mesh_load_page>({internal::paged_mesh_load_queue_identifier}, {}, this, index);
 }
 
 bool paged_triangle_mesh::has_per_vertex_friction() const {
-    for (auto &node : m_cache) {
-        auto trimesh = node.trimesh;
+    for (size_t i = 0; i < m_cache.size(); ++i) {
+        auto trimesh = get_submesh(i);
 
         if (trimesh && trimesh->has_per_vertex_friction()) {
             return true;
@@ -112,8 +111,8 @@ bool paged_triangle_mesh::has_per_vertex_friction() const {
 }
 
 bool paged_triangle_mesh::has_per_vertex_restitution() const {
-    for (auto &node : m_cache) {
-        auto trimesh = node.trimesh;
+    for (size_t i = 0; i < m_cache.size(); ++i) {
+        auto trimesh = get_submesh(i);
 
         if (trimesh && trimesh->has_per_vertex_restitution()) {
             return true;
@@ -124,8 +123,8 @@ bool paged_triangle_mesh::has_per_vertex_restitution() const {
 }
 
 bool paged_triangle_mesh::has_per_vertex_material_id() const {
-    for (auto &node : m_cache) {
-        auto trimesh = node.trimesh;
+    for (size_t i = 0; i < m_cache.size(); ++i) {
+        auto trimesh = get_submesh(i);
 
         if (trimesh && trimesh->has_per_vertex_material_id()) {
             return true;
@@ -144,8 +143,9 @@ scalar paged_triangle_mesh::get_friction(vector3 point) const {
     auto friction = scalar{};
 
     visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = m_cache[mesh_idx].trimesh;
-        friction = trimesh->get_face_friction(tri_idx, point);
+        if (auto trimesh = get_submesh(mesh_idx)) {
+            friction = trimesh->get_face_friction(tri_idx, point);
+        }
     });
 
     return friction;
@@ -155,8 +155,9 @@ scalar paged_triangle_mesh::get_restitution(vector3 point) const {
     auto restitution = scalar{};
 
     visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = m_cache[mesh_idx].trimesh;
-        restitution = trimesh->get_face_restitution(tri_idx, point);
+        if (auto trimesh = get_submesh(mesh_idx)) {
+            restitution = trimesh->get_face_restitution(tri_idx, point);
+        }
     });
 
     return restitution;
@@ -166,16 +167,17 @@ std::array<triangle_mesh::material_influence, 3> paged_triangle_mesh::get_materi
     auto influence = std::array<triangle_mesh::material_influence, 3>{};
 
     visit_cached_triangles(make_point_aabb(point), [&](size_t mesh_idx, size_t tri_idx) {
-        auto trimesh = m_cache[mesh_idx].trimesh;
-        influence = trimesh->get_face_material_id(tri_idx, point);
+        if (auto trimesh = get_submesh(mesh_idx)) {
+            influence = trimesh->get_face_material_id(tri_idx, point);
+        }
     });
 
     return influence;
 }
 
 void paged_triangle_mesh::set_thickness(scalar thickness) {
-    for (auto &node : m_cache) {
-        auto trimesh = node.trimesh;
+    for (size_t i = 0; i < m_cache.size(); ++i) {
+        auto trimesh = get_submesh(i);
 
         if (trimesh) {
             trimesh->set_thickness(thickness);
-- 
2.43.0


From c4238005a732f625c663d8fc6a7afc93b1c50035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:26 +0000
Subject: [PATCH 09/62] fix: thickness of a paged triangle mesh also applies to
 pages loaded later

---
 src/edyn/shapes/paged_triangle_mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/shapes/paged_triangle_mesh.cpp b/src/edyn/shapes/paged_triangle_mesh.cpp
index 2a2c8ea..0cd8c69 100644
--- a/src/edyn/shapes/paged_triangle_mesh.cpp
+++ b/src/edyn/shapes/paged_triangle_mesh.cpp
@@ -176,6 +176,9 @@ std::array<triangle_mesh::material_influence, 3> paged_triangle_mesh::get_materi
 }
 
 void paged_triangle_mesh::set_thickness(scalar thickness) {
+    auto lock = std::lock_guard(m_lru_mutex);
+    m_thickness = thickness;
+
     for (size_t i = 0; i < m_cache.size(); ++i) {
         auto trimesh = get_submesh(i);
 
-- 
2.43.0


From 25add15ea0cba6517234e450cb0f311296ccb090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:26 +0000
Subject: [PATCH 10/62] fix: background page loads share one file stream and
 must take turns

---
 include/edyn/serialization/paged_triangle_mesh_s11n.hpp | 3 +++
 src/edyn/serialization/paged_triangle_mesh_s11n.cpp     | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/edyn/serialization/paged_triangle_mesh_s11n.hpp b/include/edyn/serialization/paged_triangle_mesh_s11n.hpp
index e719260..19d8c02 100644
--- a/include/edyn/serialization/paged_triangle_mesh_s11n.hpp
+++ b/include/edyn/serialization/paged_triangle_mesh_s11n.hpp
@@ -1,6 +1,7 @@
 #ifndef EDYN_SERIALIZATION_PAGED_TRIANGLE_MESH_S11N_HPP
 #define EDYN_SERIALIZATION_PAGED_TRIANGLE_MESH_S11N_HPP
 
+#include <mutex>
 #include <type_traits>
 #include "edyn/shapes/paged_triangle_mesh.hpp"
 #include "edyn/shapes/triangle_mesh_page_loader.hpp"
@@ -127,6 +128,8 @@ private:
     std::vector<size_t> m_offsets;
     paged_triangle_mesh_serialization_mode m_mode;
     enqueue_task_t *m_enqueue_task {nullptr};
+    // Pages embedded in the same file share the file stream.
+    std::mutex m_file_mutex;
 };
 
 /**
diff --git a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
index a88757a..52f6eb9 100644
--- a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
+++ b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
@@ -130,10 +130,12 @@ void load_mesh_context::load(unsigned start, unsigned end) {
     auto mesh = std::make_shared<triangle_mesh>();
 
     switch(input->m_mode) {
-    case paged_triangle_mesh_serialization_mode::embedded:
+    case paged_triangle_mesh_serialization_mode::embedded: {
+        auto lock = std::lock_guard(input->m_file_mutex);
         input->seek_position(input->m_base_offset + input->m_offsets[m_index]);
         serialize(*input, *mesh);
         break;
+    }
     case paged_triangle_mesh_serialization_mode::external: {
         auto tri_mesh_path = get_submesh_path(input->m_path, m_index);
         auto tri_mesh_archive = file_input_archive(tri_mesh_path);
-- 
2.43.0


From 91588bdc4a22f5125f7ff577da45b08a95fa9095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:42 +0000
Subject: [PATCH 11/62] fix: submesh path of a file without extension inside a
 directory with a dot

---
 src/edyn/serialization/paged_triangle_mesh_s11n.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
index 52f6eb9..5ed9f79 100644
--- a/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
+++ b/src/edyn/serialization/paged_triangle_mesh_s11n.cpp
@@ -17,8 +17,10 @@ namespace edyn {
 std::string get_submesh_path(const std::string &paged_triangle_mesh_path, size_t index) {
     auto submesh_path = paged_triangle_mesh_path;
     auto dot_pos = submesh_path.rfind('.');
+    auto sep_pos = submesh_path.find_last_of("/\\");
 
-    if (dot_pos != std::string::npos) {
+    // A dot in the name of a directory does not start the file extension.
+    if (dot_pos != std::string::npos && (sep_pos == std::string::npos || dot_pos > sep_pos)) {
         submesh_path.insert(dot_pos, std::to_string(index));
     } else {
         submesh_path += std::to_string(index);
-- 
2.43.0


From f14b6f20d088abcb70b92e2c311d518e56b73592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:40 +0000
Subject: [PATCH 12/62] fix: time that passes while paused must not be
 simulated on resume

---
 src/edyn/simulation/stepper_sequential.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/simulation/stepper_sequential.cpp b/src/edyn/simulation/stepper_sequential.cpp
index ee0313b..1416c9b 100644
--- a/src/edyn/simulation/stepper_sequential.cpp
+++ b/src/edyn/simulation/stepper_sequential.cpp
@@ -36,6 +36,8 @@ void stepper_sequential::update(double time) {
     EDYN_PROFILE_BEGIN(prof_time);
 
     if (m_paused) {
+        // Time that passes while paused must not be simulated later.
+        m_last_time = time;
         m_island_manager.update(m_last_time);
         EDYN_PROFILE_MEASURE(prof_time, profile, islands);
         snap_presentation(*m_registry);
-- 
2.43.0


From 5ee0fb6b0e2992439d2bb7f2c9ccb1ce4a522a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:01 +0000
Subject: [PATCH 13/62] fix: change kind of a rigid body that has not been
 assigned to an island yet

---
 src/edyn/simulation/island_manager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index c0f3412..0ab388d 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -652,7 +652,12 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
     } else {
         if (auto *resident = m_registry->try_get<island_resident>(entity)) {
             entt::sparse_set island_entities;
-            island_entities.push(resident->island_entity);
+
+            // It might not have been assigned to an island yet.
+            if (resident->island_entity != entt::null) {
+                island_entities.push(resident->island_entity);
+            }
+
             resident->island_entity = entt::null;
 
             m_registry->emplace<multi_island_resident>(entity, std::move(island_entities));
-- 
2.43.0


From 25d89781902929b0595d60ac6d5235670bc26f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:47 +0000
Subject: [PATCH 14/62] fix: shape replaced before it was initialized

---
 src/edyn/util/polyhedron_shape_initializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/util/polyhedron_shape_initializer.cpp b/src/edyn/util/polyhedron_shape_initializer.cpp
index b32ed60..cb9fd1d 100644
--- a/src/edyn/util/polyhedron_shape_initializer.cpp
+++ b/src/edyn/util/polyhedron_shape_initializer.cpp
@@ -67,6 +67,9 @@ void polyhedron_shape_initializer::init_new_shapes() {
     auto compound_view = m_registry->view<compound_shape>();
 
     for (auto entity : m_new_polyhedron_shapes) {
+        // The shape could have been replaced by another since.
+        if (!polyhedron_view.contains(entity)) continue;
+
         auto [polyhedron] = polyhedron_view.get(entity);
         auto [orn] = orn_view.get(entity);
         // A new `rotated_mesh` is assigned to it, replacing another reference
@@ -78,6 +81,8 @@ void polyhedron_shape_initializer::init_new_shapes() {
     }
 
     for (auto entity : m_new_compound_shapes) {
+        if (!compound_view.contains(entity)) continue;
+
         auto [compound] = compound_view.get(entity);
         auto [orn] = orn_view.get(entity);
         auto prev_rotated_entity = entt::entity{entt::null};
-- 
2.43.0


From 5b8f088717a2924cda58fc87896e029cd22aac0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:21 +0000
Subject: [PATCH 15/62] fix: destroy contact points along with contact manifold
 between bodies that stop being dynamic

---
 src/edyn/util/rigidbody.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index cbf24a2..c0ba65d 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -592,16 +592,25 @@ void rigidbody_apply_kind(entt::registry &registry, entt::entity entity, rigidbo
     // at least one dynamic entity.
     if (!procedural) {
         auto manifold_view = registry.view<contact_manifold>();
+        auto manifold_entities = std::vector<entt::entity>{};
+
         visit_edges(registry, entity, [&](entt::entity edge_entity) {
             if (manifold_view.contains(edge_entity)) {
                 auto [manifold] = manifold_view.get(edge_entity);
                 auto other = manifold.body[0] == entity ? manifold.body[1] : manifold.body[0];
 
                 if (!registry.all_of<procedural_tag>(other)) {
-                    registry.destroy(edge_entity);
+                    manifold_entities.push_back(edge_entity);
                 }
             }
         });
+
+        // Destroy contact points along with the manifolds. Edges cannot be
+        // removed while they're being visited.
+        for (auto manifold_entity : manifold_entities) {
+            clear_contact_manifold(registry, manifold_entity);
+            registry.destroy(manifold_entity);
+        }
     }
 }
 
-- 
2.43.0


From c1318452838d81c89bb11ca682af154634bcc6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:27 +0000
Subject: [PATCH 16/62] fix: removing the shape of a body that is in contact
 must not break collision detection

---
 src/edyn/collision/broadphase.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index f0aa6eb..9e3722c 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -122,11 +122,17 @@ void broadphase::destroy_separated_manifolds() {
 
     // Destroy manifolds of pairs whose AABBs are not intersecting anymore.
     for (auto [entity, manifold] : manifold_view.each()) {
-        auto [b0] = aabb_view.get(manifold.body[0]);
-        auto [b1] = aabb_view.get(manifold.body[1]);
-        const auto separation_offset = vector3_one * -m_separation_threshold;
+        // A body does not have an AABB after its shape is removed.
+        auto separated = !aabb_view.contains(manifold.body[0]) || !aabb_view.contains(manifold.body[1]);
+
+        if (!separated) {
+            auto [b0] = aabb_view.get(manifold.body[0]);
+            auto [b1] = aabb_view.get(manifold.body[1]);
+            const auto separation_offset = vector3_one * -m_separation_threshold;
+            separated = !intersect(b0.inset(separation_offset), b1);
+        }
 
-        if (!intersect(b0.inset(separation_offset), b1)) {
+        if (separated) {
             clear_contact_manifold(*m_registry, entity);
             m_registry->destroy(entity);
         }
-- 
2.43.0


From e63a16488c72a4726dcb0758b9fcf9fda0f3c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:39 +0000
Subject: [PATCH 17/62] fix: island of a body that stops being dynamic might
 have to be split

---
 src/edyn/simulation/island_manager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 0ab388d..4f2f235 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -656,6 +656,11 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
             // It might not have been assigned to an island yet.
             if (resident->island_entity != entt::null) {
                 island_entities.push(resident->island_entity);
+
+                // Island could be split since this entity doesn't connect others anymore.
+                if (!m_islands_to_split.contains(resident->island_entity)) {
+                    m_islands_to_split.push(resident->island_entity);
+                }
             }
 
             resident->island_entity = entt::null;
-- 
2.43.0


From 2246ea9b6878e361adb3e5d27310bdb197c72bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:46 +0000
Subject: [PATCH 18/62] fix: island merged while waiting to be split must still
 be split

---
 src/edyn/simulation/island_manager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 4f2f235..802a8cb 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -337,6 +337,14 @@ entt::entity island_manager::merge_islands(const std::vector<entt::entity> &isla
 
     insert_to_island(island_entity, all_nodes, all_edges);
 
+    // If any of the merged islands was waiting to be split, the island that
+    // now contains its entities might have to be split.
+    for (auto other_island_entity : other_island_entities) {
+        if (m_islands_to_split.contains(other_island_entity) && !m_islands_to_split.contains(island_entity)) {
+            m_islands_to_split.push(island_entity);
+        }
+    }
+
     // Destroy empty islands.
     m_registry->destroy(other_island_entities.begin(), other_island_entities.end());
 
-- 
2.43.0


From be86f74a829b60cef025ef03a03c460eaf7e20cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:54 +0000
Subject: [PATCH 19/62] fix: island of a body that becomes dynamic again might
 have to be split

---
 src/edyn/simulation/island_manager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 802a8cb..d5c7f29 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -655,6 +655,12 @@ void island_manager::set_procedural(entt::entity entity, bool is_procedural) {
                 resident->island_entities.clear(); // Must clear because `on_destroy_multi_island_resident` will be called.
                 m_registry->remove<multi_island_resident>(entity);
                 m_registry->emplace<island_resident>(entity, merged_island_entity);
+
+                // This entity could have been in an island without being
+                // connected to any of the entities in it anymore.
+                if (!m_islands_to_split.contains(merged_island_entity)) {
+                    m_islands_to_split.push(merged_island_entity);
+                }
             }
         }
     } else {
-- 
2.43.0


From 9c4423b764678101308bfafe8d74e3b6ee8aa8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:54 +0000
Subject: [PATCH 20/62] fix: fixed body must not refer to an island it was
 split from

---
 src/edyn/simulation/island_manager.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index d5c7f29..d80d47b 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -445,6 +445,15 @@ void island_manager::split_islands() {
             }
         }
 
+        // Non-procedural entities that are not in the original island anymore
+        // must not refer to it.
+        for (auto entity : source_island.nodes) {
+            if (multi_resident_view.contains(entity) && !islands[biggest_idx].nodes.contains(entity)) {
+                auto [resident] = multi_resident_view.get(entity);
+                resident.island_entities.remove(source_island_entity);
+            }
+        }
+
         source_island = std::move(islands[biggest_idx]);
         // swap with last and pop.
         islands[biggest_idx] = std::move(islands.back());
-- 
2.43.0


From b452d0161ea38aa9aa6c137218ca4bea2e40542d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:05 +0000
Subject: [PATCH 21/62] fix: shape removed and assigned again before it was
 initialized

---
 src/edyn/collision/broadphase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edyn/collision/broadphase.cpp b/src/edyn/collision/broadphase.cpp
index 9e3722c..b0888c9 100644
--- a/src/edyn/collision/broadphase.cpp
+++ b/src/edyn/collision/broadphase.cpp
@@ -81,10 +81,14 @@ void broadphase::init_new_aabb_entities() {
 
     auto aabb_view = m_registry->view<AABB>();
     auto procedural_view = m_registry->view<procedural_tag>();
+    auto resident_view = m_registry->view<tree_resident>();
 
     for (auto entity : m_new_aabb_entities) {
         // Entity might've been cleared.
         if (!aabb_view.contains(entity)) continue;
+        // AABB might've been removed and assigned again, in which case the
+        // entity has already been initialized.
+        if (resident_view.contains(entity)) continue;
 
         auto &aabb = aabb_view.get<AABB>(entity);
         bool procedural = procedural_view.contains(entity);
-- 
2.43.0


From f94406d3dfa6c64f7637c6f44b613b6f87d25b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:28 +0000
Subject: [PATCH 22/62] fix: new body which already is in an island must not
 pull others into it

---
 src/edyn/simulation/island_manager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index d80d47b..7f8d4a5 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -129,6 +129,12 @@ void island_manager::init_new_nodes_and_edges() {
 
     for (auto entity : m_new_graph_nodes) {
         if (m_registry->any_of<procedural_tag>(entity)) {
+            // It will already be in an island if it became procedural later.
+            if (auto *resident = m_registry->try_get<island_resident>(entity);
+                resident && resident->island_entity != entt::null) {
+                continue;
+            }
+
             auto &node = node_view.get<graph_node>(entity);
             procedural_node_indices.insert(node.node_index);
         }
-- 
2.43.0


From 021f03048335bf7244ab4393f58c6c9ae5a36508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:24 +0000
Subject: [PATCH 23/62] fix: collision between polyhedrons must not use an edge
 axis when there is none

---
 src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
index 444743d..270c0ab 100644
--- a/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
+++ b/src/edyn/collision/collide/collide_polyhedron_polyhedron.cpp
@@ -97,8 +97,9 @@ void collide(const polyhedron_shape &shA, const polyhedron_shape &shB,
 
     // Edge vs edge.
     scalar min_edge_dist = -EDYN_SCALAR_MAX;
-    scalar edge_projectionA, edge_projectionB;
-    vector3 edge_dir;
+    scalar edge_projectionA = -EDYN_SCALAR_MAX;
+    scalar edge_projectionB = 0;
+    vector3 edge_dir = vector3_zero;
 
     for (auto edge_idxA = 0u; edge_idxA < meshA.num_edges(); ++edge_idxA) {
         auto normalsA = rmeshA.get_edge_normals(edge_idxA);
-- 
2.43.0


From 6ac36cb588757bd96d443b7905a22e922148d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:05 +0000
Subject: [PATCH 24/62] fix: island solver must not truncate number of
 iterations when multithreaded

---
 src/edyn/dynamics/island_solver.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/edyn/dynamics/island_solver.cpp b/src/edyn/dynamics/island_solver.cpp
index 399a958..df27677 100644
--- a/src/edyn/dynamics/island_solver.cpp
+++ b/src/edyn/dynamics/island_solver.cpp
@@ -49,15 +49,15 @@ struct island_solver_context {
     entt::entity island_entity;
     atomic_counter_sync *counter_sync {nullptr};
     scalar dt;
-    uint8_t num_iterations;
-    uint8_t num_position_iterations;
-    uint8_t iteration {};
+    unsigned num_iterations;
+    unsigned num_position_iterations;
+    unsigned iteration {};
     island_solver_state state {island_solver_state::pack_rows};
 
     island_solver_context() = default;
 
     island_solver_context(entt::registry &registry, entt::entity island_entity,
-                          uint8_t num_iterations, uint8_t num_position_iterations,
+                          unsigned num_iterations, unsigned num_position_iterations,
                           scalar dt, atomic_counter_sync *counter)
         : registry(&registry)
         , island_entity(island_entity)
-- 
2.43.0


From c2056a55b0a9ebf34aae846a4ee54efe6d872d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:05 +0000
Subject: [PATCH 25/62] fix: asynchronous settings do not exist in other
 execution modes

---
 include/edyn/collision/narrowphase.hpp                | 2 +-
 src/edyn/collision/narrowphase.cpp                    | 2 +-
 src/edyn/networking/util/import_contact_manifolds.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edyn/collision/narrowphase.hpp b/include/edyn/collision/narrowphase.hpp
index 402de6f..38815c9 100644
--- a/include/edyn/collision/narrowphase.hpp
+++ b/include/edyn/collision/narrowphase.hpp
@@ -64,7 +64,7 @@ void narrowphase::update_contact_manifolds(Iterator begin, Iterator end) {
     auto dt = registry.ctx().get<settings>().fixed_dt;
 
     auto &async_settings = registry.ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::optional<edyn::transient>{};
 
     for (auto it = begin; it != end; ++it) {
         entt::entity manifold_entity = *it;
diff --git a/src/edyn/collision/narrowphase.cpp b/src/edyn/collision/narrowphase.cpp
index 8c4d61e..c67f928 100644
--- a/src/edyn/collision/narrowphase.cpp
+++ b/src/edyn/collision/narrowphase.cpp
@@ -91,7 +91,7 @@ void narrowphase::finish_detect_collision() {
     it = manifold_view.begin();
 
     auto &async_settings = m_registry->ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::optional<edyn::transient>{};
 
     for (size_t i = 0; i < num_manifolds; ++i, ++it) {
         auto entity = *it;
diff --git a/src/edyn/networking/util/import_contact_manifolds.cpp b/src/edyn/networking/util/import_contact_manifolds.cpp
index 948a588..d06796c 100644
--- a/src/edyn/networking/util/import_contact_manifolds.cpp
+++ b/src/edyn/networking/util/import_contact_manifolds.cpp
@@ -105,7 +105,7 @@ void replace_manifold(entt::registry &registry,
     auto info_entity = manifold_info.contact_entity;
     auto &manifold_state = registry.get<contact_manifold_state>(manifold_entity);
     auto &async_settings = registry.ctx().get<const settings>().async_settings;
-    const auto &transient = async_settings->contact_points_transient;
+    const auto transient = async_settings ? async_settings->contact_points_transient : std::optional<edyn::transient>{};
 
     while (info_entity != entt::null) {
         auto &contact = contacts.get(info_entity);
-- 
2.43.0


From 73e79fc514885a7b142fdfe1d8ef498bce5725fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:22 +0000
Subject: [PATCH 26/62] fix: clearing a rigid body must also remove its origin

---
 src/edyn/util/rigidbody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index c0ba65d..63eba11 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -210,7 +210,7 @@ void clear_rigidbody(entt::registry &registry, entt::entity entity) {
         registry.remove<roll_direction>(entity);
     }
 
-    registry.remove<material, gravity, center_of_mass>(entity);
+    registry.remove<material, gravity, center_of_mass, origin>(entity);
 
     registry.remove<linvel, angvel>(entity);
     registry.remove<mass, mass_inv>(entity);
-- 
2.43.0


From c0bbceba3fdd81c81277816dfc4d4a081c7e8ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:33 +0000
Subject: [PATCH 27/62] fix: closest_point_box_inside must return the distance
 to the closest face

---
 src/edyn/math/geom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/edyn/math/geom.cpp b/src/edyn/math/geom.cpp
index ab6f911..bdd7418 100644
--- a/src/edyn/math/geom.cpp
+++ b/src/edyn/math/geom.cpp
@@ -1038,7 +1038,7 @@ scalar closest_point_box_inside(const vector3 &half_extent, const vector3 &p, ve
         normal = vector3{0, 0, -1};
     }
 
-    return dist;
+    return min_dist;
 }
 
 size_t intersect_line_aabb(const vector2 &p0, const vector2 &p1,
-- 
2.43.0


From a55e7ecfeab5e99b989448ba9aaa84375efb86b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:33 +0000
Subject: [PATCH 28/62] fix: sphere center slightly outside of box must not be
 handled as inside

---
 src/edyn/collision/collide/collide_sphere_box.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/edyn/collision/collide/collide_sphere_box.cpp b/src/edyn/collision/collide/collide_sphere_box.cpp
index e728163..83a50b3 100644
--- a/src/edyn/collision/collide/collide_sphere_box.cpp
+++ b/src/edyn/collision/collide/collide_sphere_box.cpp
@@ -27,8 +27,10 @@ void collide(const sphere_shape &shA, const box_shape &shB,
     // If `posA_in_B` lies inside the box, `closest_point_box_outside`
     // returns `posA_in_B`.
     if (d_sqr <= EDYN_EPSILON) {
-        // Sphere center lies inside box.
-        center_distance = -closest_point_box_inside(shB.half_extents, posA_in_B, closest, normalB);
+        // Sphere center lies inside box. It could be slightly outside, thus use
+        // the closest point which is guaranteed to be inside.
+        const auto inside = closest;
+        center_distance = -closest_point_box_inside(shB.half_extents, inside, closest, normalB);
         normal_attachment = contact_normal_attachment::normal_on_B;
     } else {
         center_distance = std::sqrt(d_sqr);
-- 
2.43.0


From d6e20bd60cba0feb4925e2d5094551c4b6f6b1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:40 +0000
Subject: [PATCH 29/62] fix: point constraint has no friction row when its
 bodies do not spin

---
 src/edyn/constraints/point_constraint.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/edyn/constraints/point_constraint.cpp b/src/edyn/constraints/point_constraint.cpp
index 282ebf4..ffe3184 100644
--- a/src/edyn/constraints/point_constraint.cpp
+++ b/src/edyn/constraints/point_constraint.cpp
@@ -52,9 +52,8 @@ void point_constraint::store_applied_impulses(const std::vector<scalar> &impulse
         applied_impulse[i] = impulses[row_idx++];
     }
 
-    if (friction_torque > 0) {
-        applied_friction_impulse = impulses[row_idx++];
-    }
+    // There's no friction row if the bodies are not spinning.
+    applied_friction_impulse = row_idx < impulses.size() ? impulses[row_idx] : scalar(0);
 }
 
 }
-- 
2.43.0


From 664eba260e8034bf8b94af11cc5a1d7a18ba20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:22 +0000
Subject: [PATCH 30/62] fix: entity turned into another body before it was
 mapped must be mapped to the new one

---
 include/edyn/replication/registry_operation.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/edyn/replication/registry_operation.hpp b/include/edyn/replication/registry_operation.hpp
index aedc3b7..acddfdc 100644
--- a/include/edyn/replication/registry_operation.hpp
+++ b/include/edyn/replication/registry_operation.hpp
@@ -115,6 +115,13 @@ struct operation_map_entity : public operation_base {
             if (entity_map.contains(entity)) {
                 EDYN_ASSERT(entity_map.at(entity) == local_entity);
             } else {
+                // The local entity could have been turned into something else
+                // before the first mapping arrived. Then, the remote entity it
+                // was mapped to has been replaced by this one.
+                if (entity_map.contains_local(local_entity)) {
+                    entity_map.erase_local(local_entity);
+                }
+
                 entity_map.insert(entity, local_entity);
             }
         }
-- 
2.43.0


From 6da918293b602b14b6e7903b6d51edd910242c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:22 +0000
Subject: [PATCH 31/62] fix: replicate manifold state after its new contact
 point

---
 src/edyn/util/collision_util.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/edyn/util/collision_util.cpp b/src/edyn/util/collision_util.cpp
index b0098f5..613b881 100644
--- a/src/edyn/util/collision_util.cpp
+++ b/src/edyn/util/collision_util.cpp
@@ -352,7 +352,6 @@ entt::entity create_contact_point(entt::registry &registry,
 
     manifold_state.contact_entity = contact_entity;
     ++manifold_state.num_points;
-    registry.patch<contact_manifold_state>(manifold_entity);
 
     // Assign material properties to contact point.
     if (registry.all_of<material>(manifold.body[0]) && registry.all_of<material>(manifold.body[1])) {
@@ -383,6 +382,11 @@ entt::entity create_contact_point(entt::registry &registry,
         make_constraint<null_constraint>(registry, contact_entity, manifold.body[0], manifold.body[1]);
     }
 
+    // Must be done after the contact point has become an edge in the entity
+    // graph because only then it can be referred to when replicating the
+    // manifold state into another registry.
+    registry.patch<contact_manifold_state>(manifold_entity);
+
     registry.emplace<contact_point_geometry>(contact_entity, std::move(cp_geom));
     registry.emplace<contact_point_list>(contact_entity, std::move(cp_list));
     registry.emplace<contact_point>(contact_entity, std::move(cp));
-- 
2.43.0


From 08840949814cad1a5ef40258fe1a8004c265938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:22 +0000
Subject: [PATCH 32/62] fix: clearing a rigid body must also remove its list of
 transient components

---
 src/edyn/util/rigidbody.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/edyn/util/rigidbody.cpp b/src/edyn/util/rigidbody.cpp
index 63eba11..c6f98bd 100644
--- a/src/edyn/util/rigidbody.cpp
+++ b/src/edyn/util/rigidbody.cpp
@@ -220,6 +220,7 @@ void clear_rigidbody(entt::registry &registry, entt::entity entity) {
     registry.erase<position, orientation>(entity);
 
     registry.remove<delta_linvel, delta_angvel>(entity);
+    registry.remove<transient>(entity);
 
     registry.erase<graph_node>(entity);
     registry.remove<island_resident, multi_island_resident>(entity);
-- 
2.43.0


From c40bb9f6f12edc37d2975a1ddeb09e8588e2dfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:13 +0000
Subject: [PATCH 33/62] fix: contacts of bodies destroyed in the meantime must
 not be left behind in the main registry

---
 src/edyn/simulation/stepper_async.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/edyn/simulation/stepper_async.cpp b/src/edyn/simulation/stepper_async.cpp
index 4525a41..73524d5 100644
--- a/src/edyn/simulation/stepper_async.cpp
+++ b/src/edyn/simulation/stepper_async.cpp
@@ -131,6 +131,8 @@ void stepper_async::on_step_update(message<msg::step_update> &msg) {
     // Only calculate delay if the sim time was set.
     m_should_calculate_presentation_delay = true;
 
+    auto disconnected_entities = std::vector<entt::entity>{};
+
     auto &ops = msg.content.ops;
     ops.execute(registry, m_entity_map, [&](operation_base *op) {
         auto op_type = op->operation_type();
@@ -167,10 +169,27 @@ void stepper_async::on_step_update(message<msg::step_update> &msg) {
             if (!registry.any_of<graph_edge>(local_entity)) {
                 create_graph_edge_for_constraints(registry, local_entity, graph, constraints_tuple);
                 create_graph_edge_for_constraint<null_constraint>(registry, local_entity, graph);
+
+                if (!registry.any_of<graph_edge>(local_entity)) {
+                    disconnected_entities.push_back(local_entity);
+                }
             }
         }
     });
 
+    // New contacts could involve bodies that have been destroyed in this registry
+    // while the message was on its way. They will be destroyed in the simulation
+    // worker as soon as it learns about it, without sending anything back.
+    for (auto entity : disconnected_entities) {
+        if (registry.valid(entity) && !registry.any_of<graph_edge>(entity)) {
+            if (m_entity_map.contains_local(entity)) {
+                m_entity_map.erase_local(entity);
+            }
+
+            registry.destroy(entity);
+        }
+    }
+
     m_importing = false;
     m_op_observer->set_active(true);
 
-- 
2.43.0


From 742491759dd629034b6a1968032a0d2099c0571b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:14 +0000
Subject: [PATCH 34/62] fix: contacts of bodies cleared in the meantime must be
 ignored in the main registry

---
 include/edyn/util/constraint_util.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/util/constraint_util.hpp b/include/edyn/util/constraint_util.hpp
index fbb7239..3ae8bfa 100644
--- a/include/edyn/util/constraint_util.hpp
+++ b/include/edyn/util/constraint_util.hpp
@@ -125,6 +125,7 @@ void create_graph_edge_for_constraint(entt::registry &registry, entt::entity ent
     if (!registry.all_of<Constraint>(entity) || registry.all_of<graph_edge>(entity)) return;
     auto &con = registry.get<Constraint>(entity);
     for (int i = 0; i < 2; ++ i) if (con.body[i] == entt::null || !registry.valid(con.body[i])) return;
+    for (int i = 0; i < 2; ++ i) if (!registry.all_of<graph_node>(con.body[i])) return;
     auto &node0 = registry.get<graph_node>(con.body[0]);
     auto &node1 = registry.get<graph_node>(con.body[1]);
     auto edge_index = graph.insert_edge(entity, node0.node_index, node1.node_index);
-- 
2.43.0


From 2c65508caa50e53907eac83d0ff67c2dda0fd621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:39 +0000
Subject: [PATCH 35/62] fix: shapes assigned and moved in the same import must
 be initialized before their AABB is updated

---
 src/edyn/simulation/simulation_worker.cpp | 34 ++++++++++++++++-------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/edyn/simulation/simulation_worker.cpp b/src/edyn/simulation/simulation_worker.cpp
index 12dc573..045f5d2 100644
--- a/src/edyn/simulation/simulation_worker.cpp
+++ b/src/edyn/simulation/simulation_worker.cpp
@@ -177,6 +177,7 @@ void simulation_worker::on_update_entities(message<msg::update_entities> &msg) {
 
     auto &graph = registry.ctx().get<entity_graph>();
     auto procedural_view = registry.view<procedural_tag>();
+    auto moved_entities = std::vector<entt::entity>{};
 
     // Import components from main registry.
     m_importing = true;
@@ -239,17 +240,11 @@ void simulation_worker::on_update_entities(message<msg::update_entities> &msg) {
                 *origin = to_world_space(-com, pos, orn);
             }
 
-            if (registry.any_of<AABB>(local_entity)) {
-                update_aabb(registry, local_entity);
-            }
-
             if (registry.any_of<dynamic_tag>(local_entity)) {
                 update_inertia(registry, local_entity);
             }
 
-            if (registry.any_of<rotated_mesh_list>(local_entity)) {
-                update_rotated_mesh(registry, local_entity);
-            }
+            moved_entities.push_back(local_entity);
         }
 
         // When position is set manually, the AABB and cached origin must be updated.
@@ -265,9 +260,7 @@ void simulation_worker::on_update_entities(message<msg::update_entities> &msg) {
                 *origin = to_world_space(-com, pos, orn);
             }
 
-            if (registry.any_of<AABB>(local_entity)) {
-                update_aabb(registry, local_entity);
-            }
+            moved_entities.push_back(local_entity);
         }
 
         // Assign previous position and orientation components to dynamic entities
@@ -279,6 +272,27 @@ void simulation_worker::on_update_entities(message<msg::update_entities> &msg) {
         }
     });
 
+    // Update AABBs and rotated meshes of entities that were moved. A shape could
+    // have been assigned in this same import, thus the rotated meshes must be
+    // created first.
+    if (!moved_entities.empty()) {
+        m_poly_initializer.init_new_shapes();
+
+        for (auto entity : moved_entities) {
+            if (!registry.valid(entity)) {
+                continue;
+            }
+
+            if (registry.any_of<rotated_mesh_list>(entity)) {
+                update_rotated_mesh(registry, entity);
+            }
+
+            if (registry.any_of<AABB>(entity)) {
+                update_aabb(registry, entity);
+            }
+        }
+    }
+
     m_importing = false;
     m_op_observer->set_active(true);
 
-- 
2.43.0


From f5ab664c76cad761f387befad62e0ae04d32cd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:36 +0000
Subject: [PATCH 36/62] fix: center of mass set in the same update the rigid
 body is created must not be lost

---
 src/edyn/simulation/stepper_async.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/simulation/stepper_async.cpp b/src/edyn/simulation/stepper_async.cpp
index 73524d5..86b9667 100644
--- a/src/edyn/simulation/stepper_async.cpp
+++ b/src/edyn/simulation/stepper_async.cpp
@@ -350,6 +350,9 @@ void stepper_async::material_table_changed() {
 }
 
 void stepper_async::set_center_of_mass(entt::entity entity, const vector3 &com) {
+    // Must sync existing component changes to ensure the rigid body exists in the
+    // simulation registry before processing the `set_com` message.
+    sync();
     send_message_to_worker<msg::set_com>(entity, com);
 }
 
-- 
2.43.0


From 5d09d604d0010c66fe18728b8483a8d5631bec0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:04 +0000
Subject: [PATCH 37/62] fix: contact manifolds of distinct destroyed bodies
 must not be taken for the same pair

---
 src/edyn/collision/contact_manifold_map.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/edyn/collision/contact_manifold_map.cpp b/src/edyn/collision/contact_manifold_map.cpp
index daeacd4..034a169 100644
--- a/src/edyn/collision/contact_manifold_map.cpp
+++ b/src/edyn/collision/contact_manifold_map.cpp
@@ -33,6 +33,13 @@ entt::entity contact_manifold_map::get(entt::entity first, entt::entity second)
 
 void contact_manifold_map::on_construct_contact_manifold(entt::registry &registry, entt::entity entity) {
     auto &manifold = registry.get<contact_manifold>(entity);
+
+    // A manifold that came from another registry could refer to a body that has
+    // been destroyed in this one, which is replaced by null.
+    if (manifold.body[0] == entt::null || manifold.body[1] == entt::null) {
+        return;
+    }
+
     // Insert all permutations.
     auto p = std::make_pair(manifold.body[0], manifold.body[1]);
     auto q = std::make_pair(manifold.body[1], manifold.body[0]);
@@ -43,6 +50,11 @@ void contact_manifold_map::on_construct_contact_manifold(entt::registry &registr
 
 void contact_manifold_map::on_destroy_contact_manifold(entt::registry &registry, entt::entity entity) {
     auto &manifold = registry.get<contact_manifold>(entity);
+
+    if (manifold.body[0] == entt::null || manifold.body[1] == entt::null) {
+        return;
+    }
+
     // Cleanup cached info.
     auto p = std::make_pair(manifold.body[0], manifold.body[1]);
     auto q = std::make_pair(manifold.body[1], manifold.body[0]);
-- 
2.43.0


From 3e7528b0dce4db6554c01e1da2b932adc220162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:07 +0000
Subject: [PATCH 38/62] fix: query_aabb_async was declared but not defined

---
 src/edyn/collision/query_aabb.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/edyn/collision/query_aabb.cpp b/src/edyn/collision/query_aabb.cpp
index 3b2c77f..da1b18d 100644
--- a/src/edyn/collision/query_aabb.cpp
+++ b/src/edyn/collision/query_aabb.cpp
@@ -3,11 +3,11 @@
 
 namespace edyn {
 
-query_aabb_id_type query_island_aabb_async(entt::registry &registry, const AABB &aabb,
-                                           const query_aabb_delegate_type &delegate,
-                                           bool query_procedural,
-                                           bool query_non_procedural,
-                                           bool query_islands) {
+query_aabb_id_type query_aabb_async(entt::registry &registry, const AABB &aabb,
+                                    const query_aabb_delegate_type &delegate,
+                                    bool query_procedural,
+                                    bool query_non_procedural,
+                                    bool query_islands) {
     auto &stepper = registry.ctx().get<stepper_async>();
     return stepper.query_aabb(aabb, delegate, query_procedural, query_non_procedural, query_islands);
 }
-- 
2.43.0


From 93d8bac7e6678921480329f7325a6b73d3491057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:53 +0000
Subject: [PATCH 39/62] fix: rays that intersect no AABB must also be responded

---
 src/edyn/collision/raycast_service.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/edyn/collision/raycast_service.cpp b/src/edyn/collision/raycast_service.cpp
index 9353242..f373407 100644
--- a/src/edyn/collision/raycast_service.cpp
+++ b/src/edyn/collision/raycast_service.cpp
@@ -43,6 +43,9 @@ void raycast_service::run_broadphase(bool mt) {
 
 void raycast_service::finish_broadphase() {
     for (auto &ctx : m_broad_ctx) {
+        // There must be a result for all rays, even if nothing is in their way.
+        m_results[ctx.id] = {};
+
         for (auto entity : ctx.candidates) {
             auto &narrow_ctx = m_narrow_ctx.emplace_back();
             narrow_ctx.id = ctx.id;
-- 
2.43.0


From 14db74042e5526abb288eb03e2af6fb7e0709ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:57 +0000
Subject: [PATCH 40/62] fix: detach must not leave components and entities of
 the simulation behind

---
 src/edyn/edyn.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/edyn/edyn.cpp b/src/edyn/edyn.cpp
index ad4daaa..812b88f 100644
--- a/src/edyn/edyn.cpp
+++ b/src/edyn/edyn.cpp
@@ -2,12 +2,17 @@
 #include "edyn/collision/broadphase.hpp"
 #include "edyn/collision/contact_manifold.hpp"
 #include "edyn/collision/contact_manifold_map.hpp"
+#include "edyn/collision/contact_point.hpp"
 #include "edyn/collision/narrowphase.hpp"
 #include "edyn/comp/child_list.hpp"
 #include "edyn/comp/collision_exclusion.hpp"
+#include "edyn/comp/delta_angvel.hpp"
+#include "edyn/comp/delta_linvel.hpp"
 #include "edyn/comp/island.hpp"
+#include "edyn/comp/origin.hpp"
 #include "edyn/comp/shared_comp.hpp"
 #include "edyn/comp/tag.hpp"
+#include "edyn/comp/transient.hpp"
 #include "edyn/comp/tree_resident.hpp"
 #include "edyn/config/config.h"
 #include "edyn/config/execution_mode.hpp"
@@ -166,7 +171,7 @@ void detach(entt::registry &registry) {
     registry.clear<rigidbody_tag, constraint_tag, dynamic_tag, kinematic_tag, static_tag,
                    procedural_tag, networked_tag, external_tag, network_exclude_tag,
                    sleeping_disabled_tag, sleeping_tag, disabled_tag>();
-    registry.clear<collision_filter>();
+    registry.clear<collision_filter, collision_exclusion>();
 
     registry.clear<shape_index>();
     registry.clear<AABB>();
@@ -176,14 +181,16 @@ void detach(entt::registry &registry) {
     registry_clear(registry, shapes_tuple);
     registry_clear(registry, constraints_tuple);
 
-    registry.clear<material, gravity, center_of_mass>();
+    registry.clear<material, gravity, center_of_mass, origin>();
 
     registry.clear<linvel, angvel>();
+    registry.clear<delta_linvel, delta_angvel>();
     registry.clear<mass, mass_inv>();
     registry.clear<inertia, inertia_inv, inertia_world_inv>();
 
     registry.clear<present_position, present_orientation>();
     registry.clear<position, orientation>();
+    registry.clear<transient>();
 
     registry.clear<graph_node>();
     registry.clear<graph_edge>();
@@ -191,9 +198,16 @@ void detach(entt::registry &registry) {
     registry.clear<tree_resident>();
     registry.clear<null_constraint>();
 
-    // All manifolds are created by the engine thus destroy all entities.
+    // All manifolds, contact points and islands are created by the engine thus
+    // destroy all entities.
     auto manifold_view = registry.view<contact_manifold>();
     registry.destroy(manifold_view.begin(), manifold_view.end());
+
+    auto contact_point_view = registry.view<contact_point>();
+    registry.destroy(contact_point_view.begin(), contact_point_view.end());
+
+    auto island_view = registry.view<island_tag>();
+    registry.destroy(island_view.begin(), island_view.end());
 }
 
 scalar get_fixed_dt(const entt::registry &registry) {
-- 
2.43.0


From 27694b90d4581d5eb3dd63523d2d9571e16376e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:23 +0000
Subject: [PATCH 41/62] fix: callbacks assigned right before detaching must be
 handled before the worker finishes

---
 src/edyn/simulation/simulation_worker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/edyn/simulation/simulation_worker.cpp b/src/edyn/simulation/simulation_worker.cpp
index 045f5d2..43a9453 100644
--- a/src/edyn/simulation/simulation_worker.cpp
+++ b/src/edyn/simulation/simulation_worker.cpp
@@ -503,6 +503,10 @@ void simulation_worker::run() {
         edyn::delay(delay * 1000);
     }
 
+    // Process remaining messages before `deinit`, since they could assign the
+    // callbacks.
+    m_message_queue.update();
+
     deinit();
 
     auto lock = std::lock_guard<std::mutex>(m_finish_mutex);
-- 
2.43.0


From e0bc12c6987ed859355f8e56d8a0839f0eb50f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:27 +0000
Subject: [PATCH 42/62] fix: detach must release rotated meshes

---
 src/edyn/edyn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/edyn/edyn.cpp b/src/edyn/edyn.cpp
index 812b88f..ccd0e79 100644
--- a/src/edyn/edyn.cpp
+++ b/src/edyn/edyn.cpp
@@ -10,6 +10,7 @@
 #include "edyn/comp/delta_linvel.hpp"
 #include "edyn/comp/island.hpp"
 #include "edyn/comp/origin.hpp"
+#include "edyn/comp/rotated_mesh_list.hpp"
 #include "edyn/comp/shared_comp.hpp"
 #include "edyn/comp/tag.hpp"
 #include "edyn/comp/transient.hpp"
@@ -179,6 +180,7 @@ void detach(entt::registry &registry) {
     registry.clear<roll_direction>();
 
     registry_clear(registry, shapes_tuple);
+    registry.clear<rotated_mesh_list>();
     registry_clear(registry, constraints_tuple);
 
     registry.clear<material, gravity, center_of_mass, origin>();
-- 
2.43.0


From 00385f65c92277717895123990d5989b6843ac43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:54 +0000
Subject: [PATCH 43/62] fix: raycast starting at the center of a sphere

---
 src/edyn/collision/raycast.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/edyn/collision/raycast.cpp b/src/edyn/collision/raycast.cpp
index 50ed0f1..89b735c 100644
--- a/src/edyn/collision/raycast.cpp
+++ b/src/edyn/collision/raycast.cpp
@@ -188,9 +188,16 @@ shape_raycast_result shape_raycast(const sphere_shape &sphere, const raycast_con
 
     auto intersection = lerp(ctx.p0, ctx.p1, t);
 
+    auto normal = intersection - ctx.pos;
+
+    // The ray could start at the center of the sphere.
+    if (!try_normalize(normal)) {
+        normal = normalize(ctx.p0 - ctx.p1);
+    }
+
     shape_raycast_result result;
     result.fraction = t;
-    result.normal = normalize(intersection - ctx.pos);
+    result.normal = normal;
     return result;
 }
 
-- 
2.43.0


From d91af15fd48c78275943035cc25af74bb329bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:48 +0000
Subject: [PATCH 44/62] fix: extrapolation worker must end before it is
 destroyed and not miss messages

---
 .../extrapolation/extrapolation_worker.hpp      |  2 ++
 .../extrapolation/extrapolation_worker.cpp      | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/edyn/networking/extrapolation/extrapolation_worker.hpp b/include/edyn/networking/extrapolation/extrapolation_worker.hpp
index a20d2be..5ae7969 100644
--- a/include/edyn/networking/extrapolation/extrapolation_worker.hpp
+++ b/include/edyn/networking/extrapolation/extrapolation_worker.hpp
@@ -97,6 +97,8 @@ private:
 
     std::mutex m_mutex;
     std::condition_variable m_cv;
+    std::condition_variable m_finish_cv;
+    bool m_finished {true};
 };
 
 }
diff --git a/src/edyn/networking/extrapolation/extrapolation_worker.cpp b/src/edyn/networking/extrapolation/extrapolation_worker.cpp
index c6354da..7ff1375 100644
--- a/src/edyn/networking/extrapolation/extrapolation_worker.cpp
+++ b/src/edyn/networking/extrapolation/extrapolation_worker.cpp
@@ -85,6 +85,8 @@ extrapolation_worker::extrapolation_worker(const settings &settings,
 }
 
 extrapolation_worker::~extrapolation_worker() {
+    // The message queue outlives this worker.
+    m_message_queue.push_sink().disconnect<&extrapolation_worker::on_push_message>(*this);
     stop();
 }
 
@@ -108,6 +110,7 @@ void extrapolation_worker::deinit() {
 
 void extrapolation_worker::start() {
     m_running.store(true, std::memory_order_release);
+    m_finished = false;
 
     auto &settings = m_registry.ctx().get<edyn::settings>();
     (*settings.start_thread_func)([](void *args) {
@@ -116,8 +119,12 @@ void extrapolation_worker::start() {
 }
 
 void extrapolation_worker::stop() {
+    auto lock = std::unique_lock(m_mutex);
     m_running.store(false, std::memory_order_release);
     m_cv.notify_one();
+
+    // Wait for the thread to finish since it accesses this worker.
+    m_finish_cv.wait(lock, [&]() { return m_finished; });
 }
 
 void extrapolation_worker::set_settings(const edyn::settings &settings) {
@@ -275,6 +282,9 @@ void extrapolation_worker::on_set_extrapolator_context_settings(message<msg::set
 }
 
 void extrapolation_worker::on_push_message() {
+    // Must lock to not miss the notification if it happens after the worker
+    // evaluated its predicate and before it waits.
+    auto lock = std::lock_guard(m_mutex);
     m_has_messages.store(true, std::memory_order_release);
     m_cv.notify_one();
 }
@@ -562,10 +572,15 @@ void extrapolation_worker::run() {
                 m_requests.erase(m_requests.begin());
                 extrapolate(req);
             }
-        } while (!m_requests.empty() && m_has_messages.exchange(false, std::memory_order_relaxed));
+        } while (m_running.load(std::memory_order_relaxed) &&
+                 (m_has_messages.exchange(false, std::memory_order_relaxed) || !m_requests.empty()));
     }
 
     deinit();
+
+    auto lock = std::lock_guard(m_mutex);
+    m_finished = true;
+    m_finish_cv.notify_one();
 }
 
 }
-- 
2.43.0


From e3f067d9d45c6869e0c58344704215110124407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:48 +0000
Subject: [PATCH 45/62] fix: client must erase the mapping of the local entity
 that is destroyed

---
 src/edyn/networking/sys/client_side.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index e484ada..c10fb5c 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -69,8 +69,8 @@ void on_destroy_networked_entity(entt::registry &registry, entt::entity entity)
     auto &ctx = registry.ctx().get<client_network_context>();
 
     if (!ctx.importing_entities) {
-        if (ctx.entity_map.contains(entity)) {
-            ctx.entity_map.erase(entity);
+        if (ctx.entity_map.contains_local(entity)) {
+            ctx.entity_map.erase_local(entity);
         }
 
         ctx.client_destroyed_entities.push_back(entity);
-- 
2.43.0


From 828254691a9a3f108de6c5e69ca2de8defae3ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:05 +0000
Subject: [PATCH 46/62] fix: replicas of entities destroyed before the server
 announced them were left in client

---
 src/edyn/networking/sys/server_side.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index e0c2ad7..b883e43 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -176,8 +176,11 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
 
 static void process_packet(entt::registry &registry, entt::entity client_entity, const packet::destroy_entity &packet) {
     auto &client = registry.get<remote_client>(client_entity);
-    auto &aabboi = registry.get<aabb_of_interest>(client_entity);
 
+    // The entities are not removed from the AABB of interest of the client so
+    // it'll be notified of their destruction as well. It could've received a
+    // replica of them after it destroyed its own, if these were destroyed before
+    // the server responded to their creation.
     for (auto remote_entity : packet.entities) {
         if (client.entity_map.contains(remote_entity)) {
             auto local_entity = client.entity_map.at(remote_entity);
@@ -189,10 +192,6 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
                     registry.destroy(local_entity);
                     client.entity_map.erase(remote_entity);
                     client.owned_entities.erase(local_entity);
-
-                    // Remove from AABB of interest of owner to prevent notifying
-                    // the requester itself of destruction of these entities.
-                    aabboi.entities.remove(local_entity);
                 }
             }
         }
-- 
2.43.0


From 944f362b10f343cb154a19b4d1ea0e63fc11aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:15 +0000
Subject: [PATCH 47/62] fix: entity map update with existing mappings

---
 .../networking/util/process_update_entity_map_packet.cpp    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/edyn/networking/util/process_update_entity_map_packet.cpp b/src/edyn/networking/util/process_update_entity_map_packet.cpp
index 051aadf..10db6dc 100644
--- a/src/edyn/networking/util/process_update_entity_map_packet.cpp
+++ b/src/edyn/networking/util/process_update_entity_map_packet.cpp
@@ -8,7 +8,11 @@ void process_update_entity_map_packet(const entt::registry &registry, const pack
         auto local_entity = pair.first;
         auto remote_entity = pair.second;
 
-        if (registry.valid(local_entity)) {
+        // Keep existing mappings. An entity could be announced to the client
+        // that created it right after it destroyed it locally, in which case it
+        // would respond with another mapping before the destruction is handled.
+        if (registry.valid(local_entity) &&
+            !emap.contains(remote_entity) && !emap.contains_local(local_entity)) {
             emap.insert(remote_entity, local_entity);
         }
     }
-- 
2.43.0


From b932dfc8cf0602ea5fce0ed86bef85f1cdc10145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:40 +0000
Subject: [PATCH 48/62] fix: clients must be told which entity they are before
 receiving entities

---
 src/edyn/networking/sys/server_side.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index b883e43..2b4b549 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -605,9 +605,11 @@ void update_network_server(entt::registry &registry) {
     server_update_clock_sync(registry, time);
     server_process_timed_packets(registry, time);
     update_server_snapshot_exporter(registry, time);
+    // Clients must know their own entity before they receive any other entity,
+    // otherwise they'd be unable to tell which ones they own.
+    publish_pending_created_clients(registry);
     update_aabbs_of_interest(registry);
     process_aabbs_of_interest(registry, time);
-    publish_pending_created_clients(registry);
     dispatch_actions(registry, time);
 #ifndef EDYN_DISABLE_PROFILING
     update_network_profiling(registry, time);
-- 
2.43.0


From 2d5dbe521ec5945ca87e620258f49f0b14418541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:01 +0000
Subject: [PATCH 49/62] fix: extrapolation of snapshots without procedural
 nodes

---
 .../extrapolation/extrapolation_worker.cpp    | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/edyn/networking/extrapolation/extrapolation_worker.cpp b/src/edyn/networking/extrapolation/extrapolation_worker.cpp
index 7ff1375..81b8427 100644
--- a/src/edyn/networking/extrapolation/extrapolation_worker.cpp
+++ b/src/edyn/networking/extrapolation/extrapolation_worker.cpp
@@ -340,17 +340,20 @@ bool extrapolation_worker::begin_extrapolation(const extrapolation_request &requ
     // Collection of entities in all involved islands.
     auto entities = entt::sparse_set{};
 
-    graph.reach(
-        node_indices.begin(), node_indices.end(),
-        [&](entt::entity entity) {
-            if (!entities.contains(entity)) {
-                entities.push(entity);
-            }
-        }, [&](entt::entity entity) {
-            if (!entities.contains(entity)) {
-                entities.push(entity);
-            }
-        }, [](auto) { return true; }, []() {});
+    // There might be none, e.g. if only non-procedural entities have changed.
+    if (!node_indices.empty()) {
+        graph.reach(
+            node_indices.begin(), node_indices.end(),
+            [&](entt::entity entity) {
+                if (!entities.contains(entity)) {
+                    entities.push(entity);
+                }
+            }, [&](entt::entity entity) {
+                if (!entities.contains(entity)) {
+                    entities.push(entity);
+                }
+            }, [](auto) { return true; }, []() {});
+    }
 
     // Wake up all involved islands.
     auto resident_view = m_registry.view<island_resident>();
-- 
2.43.0


From 832ca1f4af0f79647cc4701bfa986989e0c1e593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:25 +0000
Subject: [PATCH 50/62] fix: entities created and destroyed in client before it
 was updated

---
 src/edyn/networking/sys/client_side.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index c10fb5c..295a1da 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -42,6 +42,7 @@
 #include "edyn/util/profile_util.hpp"
 #include "edyn/time/simulation_time.hpp"
 #include <entt/entity/registry.hpp>
+#include <algorithm>
 #include <set>
 
 namespace edyn {
@@ -73,7 +74,15 @@ void on_destroy_networked_entity(entt::registry &registry, entt::entity entity)
             ctx.entity_map.erase_local(entity);
         }
 
-        ctx.client_destroyed_entities.push_back(entity);
+        auto &created = ctx.client_created_entities;
+        auto created_it = std::find(created.begin(), created.end(), entity);
+
+        if (created_it != created.end()) {
+            // The server does not know about it yet and doesn't have to.
+            created.erase(created_it);
+        } else {
+            ctx.client_destroyed_entities.push_back(entity);
+        }
     }
 }
 
-- 
2.43.0


From a96f5f438ac3f82e54589943488d8dc0eb8acc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:50 +0000
Subject: [PATCH 51/62] fix: changes made before a long update were never sent

---
 src/edyn/networking/sys/client_side.cpp | 5 ++++-
 src/edyn/networking/sys/server_side.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index 295a1da..6681276 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -384,8 +384,11 @@ void update_network_client(entt::registry &registry) {
     process_created_entities(registry);
     process_destroyed_entities(registry);
     dispatch_extrapolations(registry);
-    update_client_snapshot_exporter(registry, time);
     maybe_publish_registry_snapshot(registry, time);
+    // Must be done after the snapshot is exported, otherwise changes that have
+    // been made in a long interval between updates would expire before being
+    // included in any snapshot.
+    update_client_snapshot_exporter(registry, time);
     registry.ctx().get<client_network_context>().message_queue.update();
     trim_and_insert_actions(registry, time);
     update_input_history(registry, time);
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index 2b4b549..a1d06f5 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -604,12 +604,15 @@ void update_network_server(entt::registry &registry) {
     const auto time = (*settings.time_func)();
     server_update_clock_sync(registry, time);
     server_process_timed_packets(registry, time);
-    update_server_snapshot_exporter(registry, time);
     // Clients must know their own entity before they receive any other entity,
     // otherwise they'd be unable to tell which ones they own.
     publish_pending_created_clients(registry);
     update_aabbs_of_interest(registry);
     process_aabbs_of_interest(registry, time);
+    // Must be done after snapshots are exported, otherwise changes that have
+    // been made in a long interval between updates would expire before being
+    // included in any snapshot.
+    update_server_snapshot_exporter(registry, time);
     dispatch_actions(registry, time);
 #ifndef EDYN_DISABLE_PROFILING
     update_network_profiling(registry, time);
-- 
2.43.0


From 40873fad924f8815ece68f6257cefebee438d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:41 +0000
Subject: [PATCH 52/62] fix: client could replace the state of existing
 entities in the server by creating them again

---
 src/edyn/networking/sys/server_side.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index a1d06f5..ff89ff4 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -79,16 +79,21 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
     auto &ctx = registry.ctx().get<server_network_context>();
     auto &client = registry.get<remote_client>(client_entity);
 
+    // Discard packet if it contains known entities. Clients must not be able to
+    // replace the state of existing entities, including those that they do not
+    // own, by requesting their creation.
+    for (auto remote_entity : packet.entities) {
+        if (client.entity_map.contains(remote_entity)) {
+            return;
+        }
+    }
+
     // Collect entity mappings for new entities to send back to client.
     auto emap_packet = packet::update_entity_map{};
 
     // Create entities first, import pools later, since components might contain
     // entities which have to be mapped from remote to local.
     for (auto remote_entity : packet.entities) {
-        if (client.entity_map.contains(remote_entity)) {
-            continue;
-        }
-
         auto local_entity = registry.create();
         registry.emplace<entity_owner>(local_entity, client_entity);
 
-- 
2.43.0


From da942587bed58cc0bee481b171ce486e446522ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:21 +0000
Subject: [PATCH 53/62] fix: state of entities owned by clients without full
 ownership must be ignored by server

---
 .../networking/util/server_snapshot_importer.hpp    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/edyn/networking/util/server_snapshot_importer.hpp b/include/edyn/networking/util/server_snapshot_importer.hpp
index 3b66d7b..0c39768 100644
--- a/include/edyn/networking/util/server_snapshot_importer.hpp
+++ b/include/edyn/networking/util/server_snapshot_importer.hpp
@@ -142,6 +142,12 @@ class server_snapshot_importer_impl : public server_snapshot_importer {
                         continue;
                     }
                 } else {
+                    // Only inputs and actions are accepted unless the client is
+                    // allowed to control all components.
+                    if (!client.allow_full_ownership) {
+                        continue;
+                    }
+
                     if (reach_cache[entity_index] == reach_status::unknown) {
                         reach_cache[entity_index] =
                             is_only_reachable_client(registry, client_entity, local_entity) ?
@@ -209,6 +215,13 @@ class server_snapshot_importer_impl : public server_snapshot_importer {
                         continue;
                     }
                 } else {
+                    // Only inputs and actions are accepted unless the client is
+                    // allowed to control all components.
+                    if (!client.allow_full_ownership) {
+                        remove(i);
+                        continue;
+                    }
+
                     if (reach_cache[entity_index] == reach_status::unknown) {
                         reach_cache[entity_index] =
                             is_only_reachable_client(registry, client_entity, entity) ?
-- 
2.43.0


From 48f642dbc829c622a719fe5047915578c3d791eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:12 +0000
Subject: [PATCH 54/62] fix: id of entity queries was not transmitted

---
 include/edyn/networking/packet/query_entity.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edyn/networking/packet/query_entity.hpp b/include/edyn/networking/packet/query_entity.hpp
index 563e01e..273d0eb 100644
--- a/include/edyn/networking/packet/query_entity.hpp
+++ b/include/edyn/networking/packet/query_entity.hpp
@@ -16,6 +16,7 @@ struct query_entity {
 
 template<typename Archive>
 void serialize(Archive &archive, query_entity &packet) {
+    archive(packet.id);
     archive(packet.entities);
 }
 
-- 
2.43.0


From 3b8ab39c9b5436da57a54490e181dc0d84eca9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:58 +0000
Subject: [PATCH 55/62] fix: malformed component pools in packets must be
 discarded

---
 include/edyn/networking/packet/asset_sync.hpp |  2 +-
 .../edyn/networking/packet/create_entity.hpp  |  2 +-
 .../edyn/networking/packet/entity_entered.hpp |  2 +-
 .../networking/packet/entity_response.hpp     |  2 +-
 .../networking/packet/registry_snapshot.hpp   | 24 ++++++++++++++++++-
 .../edyn/networking/util/pool_snapshot.hpp    | 16 ++++++++++++-
 6 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/include/edyn/networking/packet/asset_sync.hpp b/include/edyn/networking/packet/asset_sync.hpp
index b56c27c..9b41b48 100644
--- a/include/edyn/networking/packet/asset_sync.hpp
+++ b/include/edyn/networking/packet/asset_sync.hpp
@@ -29,7 +29,7 @@ void serialize(Archive &archive, asset_sync_response &packet) {
     archive(packet.entity);
     //archive(packet.timestamp); // Unnecessary in this context.
     archive(packet.entities);
-    archive(packet.pools);
+    serialize_pools(archive, packet);
 }
 
 }
diff --git a/include/edyn/networking/packet/create_entity.hpp b/include/edyn/networking/packet/create_entity.hpp
index aa1a6d7..bd8d906 100644
--- a/include/edyn/networking/packet/create_entity.hpp
+++ b/include/edyn/networking/packet/create_entity.hpp
@@ -15,7 +15,7 @@ template<typename Archive>
 void serialize(Archive &archive, create_entity &packet) {
     archive(packet.timestamp);
     archive(packet.entities);
-    archive(packet.pools);
+    serialize_pools(archive, packet);
 }
 
 }
diff --git a/include/edyn/networking/packet/entity_entered.hpp b/include/edyn/networking/packet/entity_entered.hpp
index a1e2273..84898ad 100644
--- a/include/edyn/networking/packet/entity_entered.hpp
+++ b/include/edyn/networking/packet/entity_entered.hpp
@@ -24,7 +24,7 @@ void serialize(Archive &archive, entity_entered::asset_info &info) {
     archive(info.asset);
     archive(info.owner);
     archive(info.entities);
-    archive(info.pools);
+    serialize_pools(archive, info);
 }
 
 template<typename Archive>
diff --git a/include/edyn/networking/packet/entity_response.hpp b/include/edyn/networking/packet/entity_response.hpp
index df693a4..de7167e 100644
--- a/include/edyn/networking/packet/entity_response.hpp
+++ b/include/edyn/networking/packet/entity_response.hpp
@@ -18,7 +18,7 @@ void serialize(Archive &archive, entity_response &packet) {
     archive(packet.id);
     //archive(packet.timestamp); // Unnecessary in this context.
     archive(packet.entities);
-    archive(packet.pools);
+    serialize_pools(archive, packet);
 }
 
 }
diff --git a/include/edyn/networking/packet/registry_snapshot.hpp b/include/edyn/networking/packet/registry_snapshot.hpp
index 2a0f8c0..a2f6dec 100644
--- a/include/edyn/networking/packet/registry_snapshot.hpp
+++ b/include/edyn/networking/packet/registry_snapshot.hpp
@@ -1,6 +1,7 @@
 #ifndef EDYN_NETWORKING_UTIL_REGISTRY_SNAPSHOT_HPP
 #define EDYN_NETWORKING_UTIL_REGISTRY_SNAPSHOT_HPP
 
+#include <algorithm>
 #include <vector>
 #include "edyn/replication/entity_map.hpp"
 #include "edyn/util/tuple_util.hpp"
@@ -32,11 +33,32 @@ struct registry_snapshot {
     }
 };
 
+/**
+ * @brief Serializes the pools of a snapshot, which must be done after the
+ * entities. Malformed pools are discarded, i.e. the ones with an unknown
+ * component type, incomplete data or which refer to entities that do not exist
+ * in the snapshot.
+ */
+template<typename Archive>
+void serialize_pools(Archive &archive, registry_snapshot &snapshot) {
+    archive(snapshot.pools);
+
+    if constexpr(Archive::is_input::value) {
+        auto is_malformed = [&snapshot](const pool_snapshot &pool) {
+            return !pool.ptr ||
+                std::any_of(pool.ptr->entity_indices.begin(), pool.ptr->entity_indices.end(),
+                            [&](auto idx) { return idx >= snapshot.entities.size(); });
+        };
+        snapshot.pools.erase(std::remove_if(snapshot.pools.begin(), snapshot.pools.end(), is_malformed),
+                             snapshot.pools.end());
+    }
+}
+
 template<typename Archive>
 void serialize(Archive &archive, registry_snapshot &snapshot) {
     archive(snapshot.timestamp);
     archive(snapshot.entities);
-    archive(snapshot.pools);
+    serialize_pools(archive, snapshot);
 }
 
 }
diff --git a/include/edyn/networking/util/pool_snapshot.hpp b/include/edyn/networking/util/pool_snapshot.hpp
index cca267d..17acd52 100644
--- a/include/edyn/networking/util/pool_snapshot.hpp
+++ b/include/edyn/networking/util/pool_snapshot.hpp
@@ -26,7 +26,15 @@ void serialize(Archive &archive, pool_snapshot &pool) {
         archive(data);
         auto input = memory_input_archive(data.data(), data.size());
         pool.ptr = (*g_make_pool_snapshot_data)(pool.component_index);
-        pool.ptr->read(input);
+
+        // Leave it empty if data is malformed.
+        if (pool.ptr) {
+            pool.ptr->read(input);
+
+            if (input.failed()) {
+                pool.ptr.reset();
+            }
+        }
     } else {
         auto output = memory_output_archive(data);
         pool.ptr->write(output);
@@ -39,6 +47,12 @@ auto create_make_pool_snapshot_data_function([[maybe_unused]] std::tuple<Compone
     return [](component_index_type component_index) {
         std::tuple<Components...> components;
         auto ptr = std::unique_ptr<pool_snapshot_data>{};
+
+        // Index could come from a malformed packet.
+        if (component_index >= sizeof...(Components)) {
+            return ptr;
+        }
+
         visit_tuple(components, component_index, [&](auto &&c) {
             using CompType = std::decay_t<decltype(c)>;
             ptr.reset(new pool_snapshot_data_impl<CompType>);
-- 
2.43.0


From d73bca94db71dc9ad4fc58a13aeef7721725a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:26 +0000
Subject: [PATCH 56/62] fix: entities created in client before it was assigned
 had no owner

---
 src/edyn/networking/sys/client_side.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index 6681276..4ee8f20 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -264,7 +264,9 @@ static void process_created_entities(entt::registry &registry) {
 static void process_client_created_entities(entt::registry &registry, double time) {
     auto &ctx = registry.ctx().get<client_network_context>();
 
-    if (ctx.client_created_entities.empty()) {
+    // Entities created before the server tells which client this is can only be
+    // sent after that because their owner is not known yet.
+    if (ctx.client_created_entities.empty() || ctx.client_entity == entt::null) {
         return;
     }
 
-- 
2.43.0


From 7c6fdc7f8d4814a5bc06dadfa6b9c022c4d6fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:26 +0000
Subject: [PATCH 57/62] fix: clients must not be able to change the owner of
 entities in server

---
 .../networking/util/server_snapshot_importer.hpp     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/edyn/networking/util/server_snapshot_importer.hpp b/include/edyn/networking/util/server_snapshot_importer.hpp
index 0c39768..76ccca6 100644
--- a/include/edyn/networking/util/server_snapshot_importer.hpp
+++ b/include/edyn/networking/util/server_snapshot_importer.hpp
@@ -114,6 +114,11 @@ class server_snapshot_importer_impl : public server_snapshot_importer {
                            const std::vector<entt::entity> &pool_entities,
                            const pool_snapshot_data_impl<Component> &pool,
                            bool check_ownership, std::vector<reach_status> &reach_cache) {
+        // The owner is determined by the server.
+        if constexpr(std::is_same_v<entity_owner, Component>) {
+            return;
+        }
+
         auto &client = registry.get<remote_client>(client_entity);
 
         for (size_t i = 0; i < pool.entity_indices.size(); ++i) {
@@ -185,6 +190,13 @@ class server_snapshot_importer_impl : public server_snapshot_importer {
                                        const std::vector<entt::entity> &pool_entities,
                                        pool_snapshot_data_impl<Component> &pool,
                                        bool check_ownership, std::vector<reach_status> &reach_cache) {
+        // The owner is determined by the server.
+        if constexpr(std::is_same_v<entity_owner, Component>) {
+            pool.entity_indices.clear();
+            pool.components.clear();
+            return;
+        }
+
         auto &client = registry.get<remote_client>(client_entity);
 
         auto remove = [&](size_t i) {
-- 
2.43.0


From 9b36b1f1e7cff8f1bff3f08e8c554b4245842894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:34 +0000
Subject: [PATCH 58/62] fix: actions were executed again in the server when the
 time delta of the client changed

---
 .../edyn/networking/comp/action_history.hpp   | 24 +++++++++++++++----
 .../util/server_snapshot_importer.hpp         |  6 +----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/edyn/networking/comp/action_history.hpp b/include/edyn/networking/comp/action_history.hpp
index 93553e5..3b95c15 100644
--- a/include/edyn/networking/comp/action_history.hpp
+++ b/include/edyn/networking/comp/action_history.hpp
@@ -41,17 +41,31 @@ struct action_history {
         entries.erase(entries.begin(), it);
     }
 
-    void merge(const action_history &other) {
+    /**
+     * @brief Append entries that are newer than all entries merged so far.
+     * @param other History to be merged into this.
+     * @param time_delta Value to be added to the timestamp of the new entries.
+     */
+    void merge(const action_history &other, double time_delta = 0) {
         EDYN_ASSERT(!other.empty());
 
-        // Only append newer entries.
+        // Only append newer entries. Compare the original timestamps, which are
+        // always the same for a given action, whereas the time delta can vary.
         auto other_begin = std::find_if(other.entries.begin(), other.entries.end(),
                                         [&](auto &&entry) { return entry.timestamp > last_timestamp; });
+
+        if (other_begin == other.entries.end()) {
+            return;
+        }
+
+        auto offset = entries.size();
         entries.insert(entries.end(), other_begin, other.entries.end());
 
-        if (!entries.empty()) {
-            // Assign new highest timestamp yet inserted.
-            last_timestamp = entries.back().timestamp;
+        // Assign new highest timestamp yet inserted.
+        last_timestamp = entries.back().timestamp;
+
+        for (auto i = offset; i < entries.size(); ++i) {
+            entries[i].timestamp += time_delta;
         }
     }
 
diff --git a/include/edyn/networking/util/server_snapshot_importer.hpp b/include/edyn/networking/util/server_snapshot_importer.hpp
index 76ccca6..334954d 100644
--- a/include/edyn/networking/util/server_snapshot_importer.hpp
+++ b/include/edyn/networking/util/server_snapshot_importer.hpp
@@ -363,12 +363,8 @@ public:
 
             history.sort();
 
-            for (auto &entry : history.entries) {
-                entry.timestamp += time_delta;
-            }
-
             registry.patch<action_history>(entity, [&](action_history &current) {
-                current.merge(history);
+                current.merge(history, time_delta);
             });
         }
 
-- 
2.43.0


From 0f513a2c36d2c2e21cd8e0469736f3f98bba17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:47 +0000
Subject: [PATCH 59/62] fix: actions of more than one entity of a client at the
 same time were lost in the server

---
 include/edyn/networking/comp/remote_client.hpp | 2 --
 src/edyn/networking/sys/server_side.cpp        | 9 ---------
 2 files changed, 11 deletions(-)

diff --git a/include/edyn/networking/comp/remote_client.hpp b/include/edyn/networking/comp/remote_client.hpp
index f9edc06..052c6ae 100644
--- a/include/edyn/networking/comp/remote_client.hpp
+++ b/include/edyn/networking/comp/remote_client.hpp
@@ -46,8 +46,6 @@ struct remote_client {
     bool allow_full_ownership {true};
 
     clock_sync_data clock_sync;
-
-    double last_executed_history_entry_timestamp {0};
 };
 
 }
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index ff89ff4..e1c3e84 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -575,25 +575,16 @@ static void dispatch_actions(entt::registry &registry, double time) {
 
         auto [client] = client_view.get(owner.client_entity);
         auto it = history.entries.begin();
-        auto last_timestamp = client.last_executed_history_entry_timestamp;
 
         for (; it != history.entries.end(); ++it) {
-            if (it->timestamp <= client.last_executed_history_entry_timestamp) {
-                // Action has already been processed.
-                continue;
-            }
-
             if (it->timestamp > time - client.playout_delay) {
                 // This action and all that follow should be processed later.
                 break;
             }
 
             ctx.snapshot_importer->import_action(registry, entity, it->action_index, it->data);
-            last_timestamp = it->timestamp;
         }
 
-        client.last_executed_history_entry_timestamp = last_timestamp;
-
         // Delete all actions up to the last one that was executed.
         history.entries.erase(history.entries.begin(), it);
     }
-- 
2.43.0


From 271661a88b3bd99a9dedf46c36e65b4202d69ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:10 +0000
Subject: [PATCH 60/62] fix: islands kept non-procedural entities they were no
 longer connected to

---
 src/edyn/simulation/island_manager.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/edyn/simulation/island_manager.cpp b/src/edyn/simulation/island_manager.cpp
index 7f8d4a5..535c790 100644
--- a/src/edyn/simulation/island_manager.cpp
+++ b/src/edyn/simulation/island_manager.cpp
@@ -432,11 +432,6 @@ void island_manager::split_islands() {
 
         EDYN_ASSERT(!islands.empty());
 
-        if (islands.size() == 1) {
-            // Island is a single connected component in the entity graph.
-            continue;
-        }
-
         // Find biggest island among all and move that into the original as to
         // minimize the amount of changes.
         unsigned biggest_size = 0;
@@ -460,6 +455,13 @@ void island_manager::split_islands() {
             }
         }
 
+        if (islands.size() == 1) {
+            // Island is a single connected component in the entity graph. It
+            // might not be connected to some non-procedural entities anymore.
+            source_island.nodes = std::move(islands.front().nodes);
+            continue;
+        }
+
         source_island = std::move(islands[biggest_idx]);
         // swap with last and pop.
         islands[biggest_idx] = std::move(islands.back());
-- 
2.43.0


From 8b79ee10e1cde1cbe37ee188db5bc6027b50dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:10 +0000
Subject: [PATCH 61/62] fix: server kept destroyed entities in the set of
 entities owned by a client

---
 src/edyn/networking/sys/server_side.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index e1c3e84..8d8b8b1 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -196,7 +196,6 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
                 if (owner && owner->client_entity == client_entity) {
                     registry.destroy(local_entity);
                     client.entity_map.erase(remote_entity);
-                    client.owned_entities.erase(local_entity);
                 }
             }
         }
@@ -287,8 +286,23 @@ static void process_packet(entt::registry &, entt::entity, const packet::entity_
 static void process_packet(entt::registry &, entt::entity, const packet::entity_exited &) {}
 static void process_packet(entt::registry &, entt::entity, const packet::asset_sync_response &) {}
 
+static void server_on_destroy_entity_owner(entt::registry &registry, entt::entity entity) {
+    // Entities might be destroyed by means other than a request by their owner,
+    // e.g. constraints are destroyed along with the bodies they connect.
+    auto &owner = registry.get<entity_owner>(entity);
+
+    if (!registry.valid(owner.client_entity)) {
+        return;
+    }
+
+    if (auto *client = registry.try_get<remote_client>(owner.client_entity)) {
+        client->owned_entities.remove(entity);
+    }
+}
+
 void init_network_server(entt::registry &registry) {
     registry.ctx().emplace<server_network_context>(registry);
+    registry.on_destroy<entity_owner>().connect<&server_on_destroy_entity_owner>();
 
     auto &settings = registry.ctx().get<edyn::settings>();
     settings.network_settings = server_network_settings{};
@@ -300,6 +314,7 @@ void init_network_server(entt::registry &registry) {
 }
 
 void deinit_network_server(entt::registry &registry) {
+    registry.on_destroy<entity_owner>().disconnect<&server_on_destroy_entity_owner>();
     registry.ctx().erase<server_network_context>();
 
     auto &settings = registry.ctx().get<edyn::settings>();
@@ -742,7 +757,10 @@ entt::entity server_make_client(entt::registry &registry, bool allow_full_owners
 void server_destroy_client(entt::registry &registry, entt::entity client_entity) {
     auto &client = registry.get<remote_client>(client_entity);
 
-    for (auto entity : client.owned_entities) {
+    // Entities are removed from the set of owned entities when destroyed.
+    auto owned_entities = std::vector<entt::entity>(client.owned_entities.begin(), client.owned_entities.end());
+
+    for (auto entity : owned_entities) {
         if (registry.valid(entity)) {
             registry.destroy(entity);
         }
-- 
2.43.0


From 3bf7b9c1a8d79f36239e7b9ba3bdb7bd9a26a5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:54 +0000
Subject: [PATCH 62/62] fix: constraint between bodies that do not exist
 anymore on the other end of the connection

---
 include/edyn/util/constraint_util.hpp   | 13 +++++++++++++
 src/edyn/networking/sys/client_side.cpp | 11 +++++++++++
 src/edyn/networking/sys/server_side.cpp | 11 +++++++++++
 3 files changed, 35 insertions(+)

diff --git a/include/edyn/util/constraint_util.hpp b/include/edyn/util/constraint_util.hpp
index 3ae8bfa..d664f45 100644
--- a/include/edyn/util/constraint_util.hpp
+++ b/include/edyn/util/constraint_util.hpp
@@ -1,6 +1,7 @@
 #ifndef EDYN_UTIL_CONSTRAINT_UTIL_HPP
 #define EDYN_UTIL_CONSTRAINT_UTIL_HPP
 
+#include <algorithm>
 #include <entt/entity/registry.hpp>
 #include "edyn/comp/graph_edge.hpp"
 #include "edyn/comp/graph_node.hpp"
@@ -137,6 +138,18 @@ void create_graph_edge_for_constraints(entt::registry &registry, entt::entity en
     (create_graph_edge_for_constraint<Constraints>(registry, entity, graph), ...);
 }
 
+// Whether the entity has no constraint or the rigid bodies it connects exist.
+template<typename... Constraints>
+bool constraint_bodies_exist(const entt::registry &registry, entt::entity entity, [[maybe_unused]] const std::tuple<Constraints...> &) {
+    auto exist = [&](const auto *con) {
+        return con == nullptr || std::all_of(con->body.begin(), con->body.end(), [&](entt::entity body) {
+            return registry.valid(body) && registry.all_of<graph_node>(body);
+        });
+    };
+
+    return (exist(registry.try_get<Constraints>(entity)) && ...);
+}
+
 template<typename Constraint, typename It>
 void clear_applied_impulses_single(entt::registry &registry, It first, It last) {
     auto con_view = registry.view<Constraint>();
diff --git a/src/edyn/networking/sys/client_side.cpp b/src/edyn/networking/sys/client_side.cpp
index 4ee8f20..fc0455b 100644
--- a/src/edyn/networking/sys/client_side.cpp
+++ b/src/edyn/networking/sys/client_side.cpp
@@ -38,6 +38,7 @@
 #include "edyn/serialization/std_s11n.hpp"
 #include "edyn/util/island_util.hpp"
 #include "edyn/util/vector_util.hpp"
+#include "edyn/util/constraint_util.hpp"
 #include "edyn/util/aabb_util.hpp"
 #include "edyn/util/profile_util.hpp"
 #include "edyn/time/simulation_time.hpp"
@@ -554,6 +555,16 @@ static void process_packet(entt::registry &registry, const packet::create_entity
     // for rigid bodies above.
     for (auto remote_entity : packet.entities) {
         auto local_entity = ctx.entity_map.at(remote_entity);
+
+        // Rigid bodies connected by the constraint might have been destroyed
+        // in this client in the meantime.
+        if (!constraint_bodies_exist(registry, local_entity, constraints_tuple) ||
+            !constraint_bodies_exist(registry, local_entity, std::tuple<null_constraint>{})) {
+            ctx.entity_map.erase(remote_entity);
+            registry.destroy(local_entity);
+            continue;
+        }
+
         maybe_create_graph_edge(registry, local_entity, constraints_tuple);
         maybe_create_graph_edge<null_constraint>(registry, local_entity);
     }
diff --git a/src/edyn/networking/sys/server_side.cpp b/src/edyn/networking/sys/server_side.cpp
index 8d8b8b1..1a89c2c 100644
--- a/src/edyn/networking/sys/server_side.cpp
+++ b/src/edyn/networking/sys/server_side.cpp
@@ -9,6 +9,7 @@
 #include "edyn/comp/tag.hpp"
 #include "edyn/constraints/constraint.hpp"
 #include "edyn/constraints/null_constraint.hpp"
+#include "edyn/util/constraint_util.hpp"
 #include "edyn/networking/comp/action_history.hpp"
 #include "edyn/networking/comp/asset_ref.hpp"
 #include "edyn/networking/comp/asset_entry.hpp"
@@ -174,6 +175,16 @@ static void process_packet(entt::registry &registry, entt::entity client_entity,
     // for rigid bodies above.
     for (auto remote_entity : packet.entities) {
         auto local_entity = client.entity_map.at(remote_entity);
+
+        // Rigid bodies connected by the constraint might have been destroyed
+        // or have left the AABB of interest of the client in the meantime.
+        if (!constraint_bodies_exist(registry, local_entity, constraints_tuple) ||
+            !constraint_bodies_exist(registry, local_entity, std::tuple<null_constraint>{})) {
+            client.entity_map.erase(remote_entity);
+            registry.destroy(local_entity);
+            continue;
+        }
+
         maybe_create_graph_edge(registry, local_entity, constraints_tuple);
         maybe_create_graph_edge<null_constraint>(registry, local_entity);
     }
-- 
2.43.0

