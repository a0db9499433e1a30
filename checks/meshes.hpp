// Triangle meshes for scenarios: generation and exact comparison.
#ifndef VERIF_MESHES_HPP
#define VERIF_MESHES_HPP
#include "values.hpp"
#include "edyn/shapes/triangle_mesh.hpp"
namespace msh {
using namespace edyn;
// A bumpy rectangular patch.
inline void patch(std::vector<vector3> &v, std::vector<uint32_t> &ix, unsigned w, unsigned d) {
    for (unsigned z = 0; z <= d; ++z) for (unsigned x = 0; x <= w; ++x) v.push_back({scalar(x), scalar(sim::pick(64)) / 16, scalar(z)});
    for (unsigned z = 0; z < d; ++z) for (unsigned x = 0; x < w; ++x) { uint32_t a = z * (w + 1) + x, b = a + 1, c = a + w + 1, e = c + 1; for (auto k : {a, c, b, b, c, e}) ix.push_back(k); }
    if (d >= 2 && sim::pick(2)) { // an incomplete last row
        ix.resize(ix.size() - 3 * sim::pick(2 * w)); uint32_t top = 0; for (auto i : ix) top = i > top ? i : top; v.resize(top + 1);
    }
}
inline bool same_mesh(const triangle_mesh &a, const triangle_mesh &b) {
    if (a.num_vertices() != b.num_vertices() || a.num_triangles() != b.num_triangles() || a.num_edges() != b.num_edges() || a.get_thickness() != b.get_thickness()) return false;
    for (size_t i = 0; i < a.num_vertices(); ++i) if (!val::eq(a.get_vertex_position(i), b.get_vertex_position(i))) return false;
    for (size_t i = 0; i < a.num_triangles(); ++i) {
        if (!val::eq(a.get_triangle_normal(i), b.get_triangle_normal(i))) return false;
        for (size_t k = 0; k < 3; ++k) if (a.get_face_vertex_index(i, k) != b.get_face_vertex_index(i, k) || a.get_face_edge_index(i, k) != b.get_face_edge_index(i, k) || !val::eq(a.get_adjacent_face_normal(i, k), b.get_adjacent_face_normal(i, k))) return false;
    }
    for (size_t i = 0; i < a.num_edges(); ++i) if (a.is_boundary_edge(i) != b.is_boundary_edge(i) || a.is_convex_edge(i) != b.is_convex_edge(i) || a.get_edge_vertex_indices(i) != b.get_edge_vertex_indices(i) || a.get_edge_face_indices(i) != b.get_edge_face_indices(i)) return false;
    if (a.has_per_vertex_friction() != b.has_per_vertex_friction() || a.has_per_vertex_restitution() != b.has_per_vertex_restitution() || a.has_per_vertex_material_id() != b.has_per_vertex_material_id()) return false;
    for (size_t i = 0; i < a.num_vertices(); ++i) {
        if (a.has_per_vertex_friction() && a.get_vertex_friction(i) != b.get_vertex_friction(i)) return false;
        if (a.has_per_vertex_restitution() && a.get_vertex_restitution(i) != b.get_vertex_restitution(i)) return false;
    }
    if (a.has_per_vertex_material_id()) for (size_t i = 0; i < a.num_triangles(); ++i) {
        auto c = a.get_triangle_vertices(i); auto p = (c[0] + c[1] + c[2]) / scalar(3); auto x = a.get_face_material_id(i, p), y = b.get_face_material_id(i, p);
        for (size_t k = 0; k < 3; ++k) if (x[k].id != y[k].id || x[k].fraction != y[k].fraction) return false;
    }
    return true;
}
}
#endif
