// Random typed values for archive checks: every value knows how to archive
// itself and how to compare with the value read back.
#ifndef VERIF_VALUES_HPP
#define VERIF_VALUES_HPP
#include "common.hpp"
#include "edyn/serialization/s11n_util.hpp"
#include "edyn/serialization/math_s11n.hpp"
#include "edyn/serialization/std_s11n.hpp"
#include "edyn/math/matrix3x3.hpp"
#include <array>
#include <map>
#include <optional>
#include <variant>
namespace val {
using namespace edyn;
enum class small_enum : uint8_t { a = 3, b = 200 };
enum class wide_enum : int32_t { a = -7, b = 1 << 29 };
struct with_enum { small_enum s; wide_enum w; void *p; };
template<typename A> void serialize(A &ar, with_enum &e) { serialize_enum(ar, e.s); serialize_enum(ar, e.w); serialize_pointer(ar, &e.p); }
struct empty_tag {};
inline uint32_t r32() { return sim::pick(0xFFFFFFFFu); }
inline double rd() { return double(int32_t(r32())) / 65536.0 + double(sim::pick(1000)) * 1e-9; }
inline float rf() { return float(int32_t(r32())) / 4096.0f; }
struct Base { virtual ~Base() = default; virtual bool same(const Base &o) const = 0; virtual const char *name() const = 0; virtual std::unique_ptr<Base> blank() const = 0; virtual size_t min_size() const = 0; };
inline bool eq(const vector3 &a, const vector3 &b) { return !std::memcmp(&a, &b, sizeof a); }
inline bool eq(const quaternion &a, const quaternion &b) { return !std::memcmp(&a, &b, sizeof a); }
inline bool eq(const matrix3x3 &a, const matrix3x3 &b) { return !std::memcmp(&a, &b, sizeof a); }
inline bool eq(const with_enum &a, const with_enum &b) { return a.s == b.s && a.w == b.w && a.p == b.p; }
inline bool eq(const empty_tag &, const empty_tag &) { return true; }
template<typename T> bool eq(const T &a, const T &b) { return a == b; }
using var_t = std::variant<uint8_t, double, vector3, std::string>;
inline bool eq(const var_t &a, const var_t &b) {
    if (a.index() != b.index()) return false;
    if (auto *v = std::get_if<vector3>(&a)) return eq(*v, std::get<vector3>(b));
    if (auto *v = std::get_if<uint8_t>(&a)) return *v == std::get<uint8_t>(b);
    if (auto *v = std::get_if<double>(&a)) return *v == std::get<double>(b);
    return std::get<std::string>(a) == std::get<std::string>(b);
}
template<typename T> struct Typed; // kinds are enumerated below
using all = std::tuple<bool, char, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, float, double, vector3, quaternion, matrix3x3, with_enum, empty_tag,
    std::string, std::vector<uint8_t>, std::vector<uint32_t>, std::vector<double>, std::vector<bool>, std::vector<std::vector<uint16_t>>, std::array<uint32_t, 3>, std::pair<uint8_t, double>, std::optional<uint32_t>, std::map<uint16_t, std::string>, var_t>;
constexpr unsigned kinds = std::tuple_size_v<all>;
inline void fill(bool &v) { v = sim::pick(2); }
template<typename T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>, int> = 0> void fill(T &v) { v = T((uint64_t(r32()) << 32) | r32()); }
inline void fill(float &v) { v = rf(); }
inline void fill(double &v) { v = rd(); }
inline void fill(vector3 &v) { v = {scalar(rf()), scalar(rf()), scalar(rf())}; }
inline void fill(quaternion &v) { v = {scalar(rf()), scalar(rf()), scalar(rf()), scalar(rf())}; }
inline void fill(matrix3x3 &v) { for (auto &r : v.row) fill(r); }
inline void fill(with_enum &v) { v.s = sim::pick(2) ? small_enum::a : small_enum::b; v.w = sim::pick(2) ? wide_enum::a : wide_enum::b; v.p = (void *)(uintptr_t(r32()) << 3); }
inline void fill(empty_tag &) {}
inline uint32_t len() { switch (sim::pick(6)) { case 0: return 0; case 1: return 1; case 2: return 31 + sim::pick(4); case 3: return sim::pick(24) ? sim::pick(200) : sim::pick(4) ? 250 + sim::pick(12) : sim::pick(6) ? sim::pick(3000) : 65535 - sim::pick(40000); default: return sim::pick(8); } }
inline void fill(std::string &v) { v.resize(len()); for (auto &c : v) c = char(sim::pick(256)); }
inline void fill(std::vector<bool> &v) { v.resize(len()); for (size_t i = 0; i < v.size(); ++i) v[i] = sim::pick(2); }
template<typename T> void fill(std::vector<T> &v) { v.resize(sizeof(T) > 8 ? len() % 5 : len()); for (auto &x : v) fill(x); }
template<typename T, size_t N> void fill(std::array<T, N> &v) { for (auto &x : v) fill(x); }
template<typename A, typename B> void fill(std::pair<A, B> &v) { fill(v.first); fill(v.second); }
template<typename T> void fill(std::optional<T> &v) { if (sim::pick(2)) fill(v.emplace()); else v.reset(); }
template<typename K, typename V> void fill(std::map<K, V> &m) { unsigned n = sim::pick(5); for (unsigned i = 0; i < n; ++i) { K k; fill(k); fill(m[k]); } }
inline void fill(var_t &v) { switch (sim::pick(4)) { case 0: { uint8_t x; fill(x); v = x; break; } case 1: { double x; fill(x); v = x; break; } case 2: { vector3 x; fill(x); v = x; break; } default: { std::string x; fill(x); v = x; } } }
template<typename Ar> struct IO { virtual void put(Ar &) = 0; virtual ~IO() = default; };
// A value of one of the kinds, held in a tuple slot.
struct Any {
    unsigned kind = 0; all v{};
    template<typename F> void visit(F f) { visit_impl(f, std::make_index_sequence<kinds>{}); }
    template<typename F, size_t... I> void visit_impl(F &f, std::index_sequence<I...>) { ((kind == I ? (void)f(std::get<I>(v)) : (void)0), ...); }
    static Any random() { Any a; a.kind = sim::pick(kinds); a.visit([](auto &x) { fill(x); }); return a; }
    Any blank() const { Any a; a.kind = kind; return a; }
    // A value of the same kind that is not blank, to be overwritten by reading (maps are merged into by design).
    Any dirty() const { Any a; a.kind = kind; a.visit([](auto &x) { using T = std::decay_t<decltype(x)>; if constexpr (!std::is_same_v<T, std::map<uint16_t, std::string>>) fill(x); }); return a; }
    bool same(Any &o) { bool r = false; visit([&](auto &x) { using T = std::decay_t<decltype(x)>; r = eq(x, std::get<T>(o.v)); }); return r; }
    template<typename Ar> void archive(Ar &ar) { visit([&](auto &x) { ar(x); }); }
};
}
#endif
