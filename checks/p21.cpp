// P21: what was written to a file and closed is read back exactly, whatever
// partial transfers and interruptions the operating system delivers.
#include "meshes.hpp"
#include "edyn/serialization/file_archive.hpp"
#include "edyn/serialization/memory_archive.hpp"
#include "edyn/serialization/triangle_mesh_s11n.hpp"
#include "edyn/util/shape_io.hpp"
#include "edyn/util/shape_util.hpp"
#include <cmath>
#include <fstream>
#include <sstream>
using namespace edyn;
namespace {
std::string file(unsigned i) { return std::string(sim::scratch_dir()) + "/f" + std::to_string(i); }
void trip(unsigned id, unsigned n, std::mutex &m) {
    std::vector<val::Any> vs; { std::lock_guard<std::mutex> l(m); for (unsigned i = 0; i < n; ++i) vs.push_back(val::Any::random()); }
    auto path = file(id); unsigned rounds = 1 + sim::pick(2);
    for (unsigned r = 0; r < rounds; ++r) { // a second round overwrites the file
        if (r) { sim::probe("file_overwritten"); vs.resize(1 + vs.size() / 2); }
        auto keep = vs; { file_output_archive out(path); for (auto &v : vs) v.archive(out); if (sim::pick(2)) out.close(); }
        for (size_t i = 0; i < vs.size(); ++i) SIM_CHECK(keep[i].same(vs[i]), "source-changed", "saving value %zu of kind %u changed it", i, vs[i].kind);
        file_input_archive in; bool ctor = sim::pick(2);
        std::unique_ptr<file_input_archive> pin; if (ctor) pin.reset(new file_input_archive(path)); else { pin.reset(new file_input_archive); SIM_CHECK(!pin->is_file_open(), "open-wrong", "fresh archive claims an open file"); pin->open(path); }
        SIM_CHECK(pin->is_file_open(), "open-wrong", "existing file did not open");
        std::vector<size_t> pos;
        for (size_t i = 0; i < vs.size(); ++i) {
            pos.push_back(pin->tell_position()); SIM_CHECK(!pin->is_file_at_end(), "eof-wrong", "end of file reported before value %zu of %zu", i, vs.size());
            auto b = sim::pick(4) == 3 ? vs[i].dirty() : vs[i].blank(); b.archive(*pin);
            SIM_CHECK(b.same(vs[i]), "value-changed", "value %zu of kind %u differs after being saved and loaded", i, vs[i].kind);
        }
        for (unsigned k = 0; k < 4; ++k) { // random access
            size_t i = sim::pick(uint32_t(vs.size())); pin->seek_position(pos[i]); SIM_CHECK(pin->tell_position() == pos[i], "seek-wrong", "seek to %zu arrived at %zu", pos[i], pin->tell_position());
            auto b = sim::pick(4) == 3 ? vs[i].dirty() : vs[i].blank(); b.archive(*pin); SIM_CHECK(b.same(vs[i]), "value-changed", "value %zu differs after seeking back to it", i);
        }
        auto last = vs.back().blank(); pin->seek_position(pos.back()); last.archive(*pin); SIM_CHECK(!pin->is_file_at_end(), "eof-wrong", "end of file reported although nothing was read past it");
        uint8_t extra = 0x77; (*pin)(extra); SIM_CHECK(pin->is_file_at_end(), "eof-wrong", "file holds more than was written");
        pin->close(); SIM_CHECK(!pin->is_file_open(), "open-wrong", "closed archive claims an open file");
    }
}
}
SIM_SCENARIO(file_round_trip, 4) {
    sim::set_step_budget(500000); sim::enable_io_faults(true);
    unsigned T = sim::range(1, 3); std::vector<std::thread> ts; std::mutex m; std::vector<unsigned> n(T); for (auto &x : n) x = sim::pick(8) == 3 ? sim::range(100, 200) : sim::range(1, 14);
    sim::scratch_dir();
    for (unsigned t = 1; t < T; ++t) ts.emplace_back([&, t] { trip(t, n[t], m); });
    trip(0, n[0], m);
    for (auto &t : ts) t.join();
    sim::state(h::mixh(T, n[0]));
}
SIM_SCENARIO(missing_file, 1) {
    sim::scratch_dir();
    file_input_archive a(file(99)); SIM_CHECK(!a.is_file_open(), "open-wrong", "a missing file claims to be open");
    std::vector<obj_mesh> ms; std::vector<vector3> v; std::vector<uint32_t> ix;
    SIM_CHECK(!load_meshes_from_obj(file(98), ms) && ms.empty(), "open-wrong", "loading a missing mesh file succeeded");
    SIM_CHECK(!load_tri_mesh_from_obj(file(98), v, ix) && v.empty() && ix.empty(), "open-wrong", "loading a missing triangle mesh file succeeded");
    SIM_CHECK(load_convex_polyhedrons_from_obj(file(98)).empty(), "open-wrong", "loading missing polyhedrons succeeded");
}
using msh::patch; using msh::same_mesh;
SIM_SCENARIO(mesh_file, 2) { // a triangle mesh saved and loaded answers queries like the original
    sim::set_step_budget(500000); sim::enable_io_faults(true); sim::scratch_dir();
    std::vector<vector3> v; std::vector<uint32_t> ix; unsigned w = sim::range(1, 6), d = sim::range(1, 6); if (sim::pick(24) == 23) { w = sim::range(12, 34); d = sim::range(12, 34); sim::probe("large_mesh"); } patch(v, ix, w, d);
    triangle_mesh a; a.insert_vertices(v.begin(), v.end()); a.insert_indices(ix.begin(), ix.end()); a.initialize(); a.set_thickness(scalar(sim::range(1, 9)));
    std::vector<scalar> fr(v.size()); for (auto &f : fr) f = scalar(sim::pick(100)) / 100; if (sim::pick(2)) a.insert_friction_coefficients(fr.begin(), fr.end()); if (sim::pick(2)) a.insert_restitution_coefficients(fr.begin(), fr.end());
    { file_output_archive out(file(0)); out(a); }
    triangle_mesh b; { file_input_archive in(file(0)); in(b); }
    SIM_CHECK(same_mesh(a, b), "value-changed", "mesh of %zu triangles differs after being saved and loaded", a.num_triangles());
    for (unsigned k = 0; k < 5; ++k) {
        vector3 lo{scalar(sim::pick(7)) - scalar(.5), -1, scalar(sim::pick(7)) - scalar(.5)}, hi = lo + vector3{scalar(sim::pick(4)), 6, scalar(sim::pick(4))}; std::vector<size_t> x, y;
        a.visit_triangles(AABB{lo, hi}, [&](auto i) { x.push_back(i); }); b.visit_triangles(AABB{lo, hi}, [&](auto i) { y.push_back(i); });
        SIM_CHECK(x == y, "value-changed", "query visits %zu triangles in the original and %zu in the loaded mesh", x.size(), y.size());
        std::vector<size_t> rx, ry; a.raycast(lo, hi, [&](auto i) { rx.push_back(i); }); b.raycast(lo, hi, [&](auto i) { ry.push_back(i); }); SIM_CHECK(rx == ry, "value-changed", "raycast differs in the loaded mesh");
    }
    std::vector<uint8_t> mem; { memory_output_archive out(mem); out(a); } triangle_mesh c; { memory_input_archive in(mem.data(), mem.size()); in(c); SIM_CHECK(!in.failed() && in.eof() && same_mesh(a, c), "value-changed", "mesh differs after going through memory"); }
    SIM_CHECK(serialization_sizeof(a) == mem.size(), "size-wrong", "mesh takes %zu bytes, announced %zu", mem.size(), serialization_sizeof(a));
    sim::state(h::mixh(w, d));
}
namespace {
struct Obj { std::vector<vector3> v, c; std::vector<std::vector<uint32_t>> faces; std::string name; };
void num(std::string &s, double x) { char b[48]; snprintf(b, sizeof b, sim::pick(2) ? " %.4f" : " %g", x); s += b; }
bool close_to(const vector3 &a, const vector3 &b) { return std::fabs(a.x - b.x) < 2e-3 && std::fabs(a.y - b.y) < 2e-3 && std::fabs(a.z - b.z) < 2e-3; }
// Independent rotation by a quaternion: v + 2 q x (q x v + w v)
vector3 spin(const quaternion &q, vector3 v) {
    double x = q.x, y = q.y, z = q.z, w = q.w, vx = v.x, vy = v.y, vz = v.z; double tx = 2 * (y * vz - z * vy), ty = 2 * (z * vx - x * vz), tz = 2 * (x * vy - y * vx);
    return {scalar(vx + w * tx + y * tz - z * ty), scalar(vy + w * ty + z * tx - x * tz), scalar(vz + w * tz + x * ty - y * tx)};
}
}
SIM_SCENARIO(obj_file, 4) {
    sim::set_step_budget(500000); sim::enable_io_faults(true); sim::scratch_dir();
    unsigned n = sim::range(1, 4); std::vector<Obj> os(n); std::string text; uint32_t base = 1; bool big = sim::pick(10) == 3, huge = sim::pick(500) == 499, mix = sim::pick(3) == 2; const char *eol = sim::pick(4) == 3 ? "\r\n" : "\n"; if (huge) { n = 2; os.resize(2); sim::probe("more_than_65536_vertices"); sim::set_step_budget(20000000); }
    vector3 pos = vector3_zero, scale = vector3_one; quaternion orn = quaternion_identity;
    if (sim::pick(2)) pos = {scalar(sim::pick(20)) - 10, scalar(sim::pick(7)), scalar(1.5)};
    if (sim::pick(2)) scale = {scalar(sim::range(1, 8)) / 2, scalar(sim::range(1, 8)) / 4, scalar(2)};
    if (sim::pick(2)) { double a = sim::pick(628) / 100.0; unsigned ax = sim::pick(3); orn = {scalar(ax == 0 ? std::sin(a / 2) : 0), scalar(ax == 1 ? std::sin(a / 2) : 0), scalar(ax == 2 ? std::sin(a / 2) : 0), scalar(std::cos(a / 2))}; }
    if (sim::pick(2)) text += std::string("# a comment line") + eol + "mtllib x.mtl" + eol;
    for (unsigned o = 0; o < n; ++o) {
        auto &ob = os[o]; ob.name = "obj" + std::to_string(o); bool colors = sim::pick(2);
        if (n > 1 || sim::pick(2)) text += "o " + ob.name + eol;
        if (sim::pick(12) == 11 && n > 1) text += "o " + ob.name + eol; // an object without anything in it, same name
        unsigned nv = huge && !o ? 65600 : big ? sim::range(100, 300) : sim::range(3, 9), early = mix ? sim::pick(nv) : nv;
        auto face = [&](unsigned limit) {
            unsigned k = sim::pick(12) == 11 ? sim::range(7, 12) : sim::range(3, 6), st = sim::pick(4); ob.faces.emplace_back(); text += "f";
            for (unsigned i = 0; i < k; ++i) { uint32_t id = sim::pick(limit); ob.faces.back().push_back(id); char b[64]; const char *fm[] = {" %u", " %u/%u", " %u//%u", " %u/%u/%u"}; snprintf(b, sizeof b, fm[st], id + base, id + 1, id + 2); if (sim::pick(9) == 8) text += " "; text += b; }
            text += eol;
        };
        for (unsigned i = 0; i < nv; ++i) {
            vector3 v{scalar(int(sim::pick(2000)) - 1000) / 16, scalar(int(sim::pick(2000)) - 1000) / 16, scalar(int(sim::pick(2000)) - 1000) / 16}; text += "v"; num(text, v.x); num(text, v.y); num(text, v.z);
            if (colors) { vector3 c{scalar(sim::pick(5)) / 4, scalar(sim::pick(5)) / 4, scalar(sim::pick(5)) / 4}; ob.c.push_back(c); num(text, c.x); num(text, c.y); num(text, c.z); } else if (nv < 1000 && sim::pick(6) == 0) text += " "; else if (nv < 1000 && sim::pick(12) == 11) text += " 1.0"; // homogeneous coordinate
            text += eol; ob.v.push_back(v); if (i == early) { face(i + 1); sim::probe("face_between_vertices"); }
        }
        if (sim::pick(2)) text += std::string("vn 0 1 0") + eol + "vt 0.5 0.5" + eol + "s off" + eol + "usemtl m" + eol + eol;
        unsigned nf = big ? sim::range(50, 200) : sim::pick(6); if (!nf) sim::probe("object_without_faces");
        for (unsigned f = 0; f < nf; ++f) face(nv);
        base += nv;
    }
    if (sim::pick(4) == 0) { text.pop_back(); if (text.back() == '\r') text.pop_back(); } // no newline at the end of the file
    if (text.size() > 8191) sim::probe("file_larger_than_stream_buffer");
    { std::ofstream f(file(0), std::ios::binary); f << text; }
    std::vector<obj_mesh> ms; SIM_CHECK(load_meshes_from_obj(file(0), ms, pos, orn, scale), "open-wrong", "existing file did not load");
    SIM_CHECK(ms.size() == n, "objects-lost", "%zu of %u objects loaded", ms.size(), n);
    auto expect = [&](const vector3 &v) { vector3 r{v.x * scale.x, v.y * scale.y, v.z * scale.z}; r = spin(orn, r); return vector3{r.x + pos.x, r.y + pos.y, r.z + pos.z}; };
    for (unsigned o = 0; o < n; ++o) {
        auto &a = os[o]; auto &b = ms[o];
        if (n > 1) SIM_CHECK(b.name.find(a.name) != std::string::npos && b.name.find_first_not_of(" \t\r", b.name.find(a.name) + a.name.size()) == std::string::npos && b.name.size() <= a.name.size() + 2, "value-changed", "object named '%s' loaded as '%s'", a.name.c_str(), b.name.c_str());
        SIM_CHECK(a.v.size() == b.vertices.size() && a.c.size() == b.colors.size() && b.faces.size() == a.faces.size() * 2, "value-lost", "object %u: %zu/%zu vertices, %zu/%zu colors, %zu/%zu faces", o, b.vertices.size(), a.v.size(), b.colors.size(), a.c.size(), b.faces.size() / 2, a.faces.size());
        for (size_t i = 0; i < a.v.size(); ++i) SIM_CHECK(close_to(expect(a.v[i]), b.vertices[i]), "value-changed", "vertex %zu of object %u is at the wrong place", i, o);
        for (size_t i = 0; i < a.c.size(); ++i) SIM_CHECK(close_to(a.c[i], b.colors[i]), "value-changed", "color %zu of object %u changed", i, o);
        for (size_t f = 0; f < a.faces.size(); ++f) {
            size_t s = b.faces[2 * f], k = b.faces[2 * f + 1]; SIM_CHECK(k == a.faces[f].size() && s + k <= b.indices.size(), "value-changed", "face %zu of object %u has %zu corners, expected %zu", f, o, k, a.faces[f].size());
            for (size_t i = 0; i < k; ++i) SIM_CHECK(b.indices[s + i] == a.faces[f][i], "value-changed", "face %zu of object %u has the wrong corner", f, o);
        }
    }
    // the same file as one triangle soup
    std::vector<vector3> v, c, av, ac; std::vector<uint32_t> ix, ax; uint32_t off = 0; bool want_c = sim::pick(2);
    for (auto &o : os) { for (auto &x : o.v) av.push_back(expect(x)); for (auto &x : o.c) ac.push_back(x); for (auto &f : o.faces) for (size_t i = 2; i < f.size(); ++i) { ax.push_back(off + f[0]); ax.push_back(off + f[i - 1]); ax.push_back(off + f[i]); } off += uint32_t(o.v.size()); }
    SIM_CHECK(load_tri_mesh_from_obj(file(0), v, ix, want_c ? &c : nullptr, pos, orn, scale), "open-wrong", "existing file did not load");
    SIM_CHECK(v.size() == av.size() && (!want_c || c.size() == ac.size()), "value-lost", "triangle soup has %zu of %zu vertices", v.size(), av.size());
    for (size_t i = 0; i < v.size(); ++i) SIM_CHECK(close_to(v[i], av[i]), "value-changed", "vertex %zu of the soup is at the wrong place", i);
    if (want_c) for (size_t i = 0; i < c.size(); ++i) SIM_CHECK(close_to(c[i], ac[i]), "value-changed", "color %zu of the soup changed", i);
    SIM_CHECK(ix == ax, "value-changed", "polygons were not split into the right triangles (%zu indices, expected %zu)", ix.size(), ax.size());
    // and from memory
    std::vector<obj_mesh> ms2; std::stringstream ss(text); load_meshes_from_obj(ss, ms2, pos, orn, scale);
    SIM_CHECK(ms2.size() == ms.size(), "value-lost", "stream and file give different objects");
    for (size_t o = 0; o < ms.size(); ++o) SIM_CHECK(ms[o].indices == ms2[o].indices && ms[o].faces == ms2[o].faces && ms[o].vertices.size() == ms2[o].vertices.size() && ms[o].colors.size() == ms2[o].colors.size(), "value-lost", "stream and file give different objects");
    std::vector<vector3> v2; std::vector<uint32_t> ix2; std::stringstream ss2(text); load_tri_mesh_from_obj(ss2, v2, ix2, nullptr, pos, orn, scale); SIM_CHECK(ix2 == ix && v2.size() == v.size(), "value-lost", "stream and file give different triangles");
    sim::state(h::mixh(n, text.size()));
}
SIM_SCENARIO(convex_file, 1) { // boxes as polyhedrons and as a compound
    sim::set_step_budget(500000); sim::enable_io_faults(true); sim::scratch_dir();
    unsigned n = sim::range(1, 3); std::string t; std::vector<vector3> ctr, he; uint32_t base = 1;
    for (unsigned o = 0; o < n; ++o) {
        vector3 c{scalar(int(sim::pick(20)) - 10), scalar(sim::pick(9)), scalar(int(sim::pick(20)) - 10)}, e{scalar(sim::range(1, 8)) / 4, scalar(sim::range(1, 8)) / 4, scalar(sim::range(1, 8)) / 4}; ctr.push_back(c); he.push_back(e); t += "o b" + std::to_string(o) + "\n";
        for (int i = 0; i < 8; ++i) { t += "v"; num(t, c.x + (i & 1 ? e.x : -e.x)); num(t, c.y + (i & 2 ? e.y : -e.y)); num(t, c.z + (i & 4 ? e.z : -e.z)); t += "\n"; }
        static const int f[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
        for (auto &q : f) { t += "f"; for (int k : q) t += " " + std::to_string(base + uint32_t(k)); t += "\n"; }
        base += 8;
    }
    { std::ofstream f(file(0)); f << t; }
    vector3 pos{scalar(sim::pick(5)), 0, scalar(sim::pick(5))};
    auto ps = load_convex_polyhedrons_from_obj(file(0), pos); SIM_CHECK(ps.size() == n, "objects-lost", "%zu of %u polyhedrons loaded", ps.size(), n);
    for (unsigned o = 0; o < n; ++o) {
        SIM_CHECK(close_to(ps[o].center, ctr[o] + pos), "value-changed", "center of polyhedron %u is wrong", o); SIM_CHECK(ps[o].shape.mesh && ps[o].shape.mesh->vertices.size() == 8 && ps[o].shape.mesh->num_faces() == 6, "value-lost", "polyhedron %u is incomplete", o);
        for (auto &v : ps[o].shape.mesh->vertices) SIM_CHECK(std::fabs(std::fabs(v.x) - he[o].x) < 2e-3 && std::fabs(std::fabs(v.y) - he[o].y) < 2e-3 && std::fabs(std::fabs(v.z) - he[o].z) < 2e-3, "value-changed", "polyhedron %u has a misplaced vertex", o);
    }
    auto cs = load_compound_shape_from_obj(file(0), pos); SIM_CHECK(cs.nodes.size() == n, "objects-lost", "%zu of %u parts in the compound", cs.nodes.size(), n);
    for (unsigned o = 0; o < n; ++o) SIM_CHECK(close_to(cs.nodes[o].position, ctr[o] + pos), "value-changed", "part %u of the compound is misplaced", o);
    sim::state(h::mixh(n, t.size()));
}
