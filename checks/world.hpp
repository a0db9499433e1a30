// Whole-engine helpers: attaching, building scenes, comparing registries.
#ifndef VERIF_WORLD_HPP
#define VERIF_WORLD_HPP
#include "common.hpp"
#include <edyn/edyn.hpp>
#include <edyn/comp/position.hpp>
#include <edyn/comp/orientation.hpp>
#include <edyn/comp/linvel.hpp>
#include <edyn/comp/angvel.hpp>
#include <edyn/comp/tag.hpp>
#include <edyn/comp/island.hpp>
#include <edyn/comp/gravity.hpp>
#include <edyn/comp/present_position.hpp>
#include <edyn/constraints/distance_constraint.hpp>
#include <edyn/constraints/point_constraint.hpp>
#include <edyn/constraints/hinge_constraint.hpp>
#include <edyn/constraints/soft_distance_constraint.hpp>
#include <edyn/constraints/generic_constraint.hpp>
#include <edyn/constraints/null_constraint.hpp>
#include <edyn/constraints/gravity_constraint.hpp>
#include <edyn/collision/contact_manifold.hpp>
#include <edyn/collision/contact_point.hpp>
#include <edyn/parallel/job_dispatcher.hpp>
#include <edyn/time/simulation_time.hpp>
#include <entt/entity/registry.hpp>
#include <cmath>
#include <optional>

namespace w {
using edyn::scalar; using edyn::vector3;

inline void attach(entt::registry &reg, edyn::execution_mode mode, unsigned workers = 1, scalar dt = scalar(1.0 / 60)) {
    edyn::init_config c; c.execution_mode = mode; c.num_worker_threads = workers; c.fixed_dt = dt;
    edyn::attach(reg, c);
}
// Detaches and ends the shared worker threads, as an application does at exit.
inline void finish() { edyn::job_dispatcher::global().stop(); }

inline edyn::rigidbody_def ball(vector3 p, scalar r = 0.5, scalar m = 1) {
    edyn::rigidbody_def d; d.shape = edyn::sphere_shape{r}; d.mass = m; d.position = p; return d;
}
inline bool finite(const vector3 &v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
inline double dist(const vector3 &a, const vector3 &b) { double x = double(a.x) - b.x, y = double(a.y) - b.y, z = double(a.z) - b.z; return std::sqrt(x * x + y * y + z * z); }
}
#endif
