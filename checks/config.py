# Per-property build and search configuration.
#   srcs : /repo sources compiled into the simulation ("ALL" = every library source)
#   mem  : True = plain memory accesses are preemption points, race checked and heap checked
#   quick/thorough : (runs, time cap in seconds)
PAR = ["src/edyn/parallel/job_queue.cpp", "src/edyn/parallel/job_dispatcher.cpp"]
BASE = ["src/edyn/" + f for f in """constraints/constraint_row.cpp constraints/constraint_row_spin_friction.cpp context/start_thread.cpp math/geom.cpp
math/quaternion.cpp math/shape_volume.cpp math/triangle.cpp parallel/job_dispatcher.cpp parallel/job_queue.cpp shapes/box_shape.cpp shapes/cylinder_shape.cpp
shapes/polyhedron_shape.cpp shapes/triangle_mesh.cpp time/common/time.cpp time/unix/time.cpp util/shape_io.cpp util/shape_util.cpp""".split()]
# One process stands for several nodes: each has a message dispatcher of its own (checks/net.hpp).
NODES = ["src/edyn/parallel/message_dispatcher.cpp"]
CHECKS = {
    "P01": dict(harness=["p01.cpp"], srcs=PAR, mem=True, quick=(100000, 40), thorough=(600000, 700)),
    "P02": dict(harness=["p02.cpp"], srcs=PAR, mem=True, quick=(100000, 40), thorough=(600000, 700)),
    "P03": dict(harness=["p03.cpp"], srcs=PAR, mem=True, quick=(120000, 40), thorough=(600000, 700)),
    "P04": dict(harness=["p04.cpp"], srcs=PAR + ["src/edyn/context/task.cpp"], mem=True, quick=(120000, 40), thorough=(600000, 700)),
    "P05": dict(harness=["p05.cpp"], srcs=["src/edyn/parallel/message_dispatcher.cpp"], mem=True, quick=(120000, 40), thorough=(600000, 700)),
    "P07": dict(harness=["p07.cpp"], srcs=PAR + ["src/edyn/context/task.cpp", "src/edyn/parallel/message_dispatcher.cpp"], mem=True, quick=(120000, 40), thorough=(600000, 700)),
    "P09": dict(harness=["p09.cpp"], srcs=["src/edyn/time/common/time.cpp", "src/edyn/time/unix/time.cpp"], mem=True, quick=(150000, 40), thorough=(900000, 700),
                passes=[dict(name="monotonic clock present", share=0.7), dict(name="no monotonic clock", share=0.3, env={"SIM_NO_MONOTONIC": "1"})]),
    "P23": dict(harness=["p23.cpp"], srcs=["src/edyn/math/quaternion.cpp", "src/edyn/math/geom.cpp"], mem=True, quick=(150000, 40), thorough=(900000, 700)),
    "P19": dict(harness=["p19.cpp"], srcs=[], mem=True, quick=(40000, 40), thorough=(900000, 700)),
    "P24": dict(harness=["p24.cpp"], srcs=[], mem=True, quick=(80000, 40), thorough=(900000, 700)),
    "P21": dict(harness=["p21.cpp"], srcs=["src/edyn/util/shape_io.cpp", "src/edyn/util/shape_util.cpp", "src/edyn/shapes/triangle_mesh.cpp", "src/edyn/shapes/polyhedron_shape.cpp", "src/edyn/shapes/convex_mesh.cpp", "src/edyn/shapes/compound_shape.cpp", "src/edyn/math/geom.cpp", "src/edyn/math/triangle.cpp", "src/edyn/math/quaternion.cpp", "src/edyn/math/shape_volume.cpp", "src/edyn/util/aabb_util.cpp", "src/edyn/sys/update_rotated_meshes.cpp", "src/edyn/shapes/box_shape.cpp", "src/edyn/shapes/cylinder_shape.cpp"], mem=True, quick=(40000, 40), thorough=(600000, 700)),
    "P22": dict(harness=["p22.cpp"], srcs=PAR + ["src/edyn/context/task.cpp", "src/edyn/parallel/message_dispatcher.cpp", "src/edyn/shapes/paged_triangle_mesh.cpp", "src/edyn/serialization/paged_triangle_mesh_s11n.cpp", "src/edyn/shapes/triangle_mesh.cpp", "src/edyn/math/geom.cpp", "src/edyn/math/triangle.cpp", "src/edyn/math/quaternion.cpp", "src/edyn/math/shape_volume.cpp"], mem=True, quick=(40000, 40), thorough=(600000, 700)),
    "P18": dict(harness=["p18.cpp"], srcs=["src/edyn/networking/util/clock_sync.cpp", "src/edyn/math/quaternion.cpp", "src/edyn/math/geom.cpp"], mem=True, quick=(40000, 40), thorough=(600000, 700)),
    "P06": dict(harness=["p06.cpp"], srcs=[], mem=True, quick=(120000, 40), thorough=(600000, 700)),
    "P08": dict(harness=["p08.cpp"], srcs="ALL", mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(3000, 60), thorough=(100000, 600)),
    "P14": dict(harness=["p14.cpp"], srcs="ALL", mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 60), thorough=(200000, 600)),
    "P13": dict(harness=["p13.cpp"], srcs="ALL", mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(3000, 80), thorough=(200000, 600)),
    "P25": dict(harness=["p25.cpp"], srcs="ALL", mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 70), thorough=(200000, 600)),
    "P26": dict(harness=["p26.cpp"], srcs="ALL", mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 60), thorough=(200000, 600)),
    "P10": dict(harness=["p10.cpp"], srcs="ALL", mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 60), thorough=(200000, 600)),
    "P11": dict(harness=["p11.cpp"], srcs="ALL", mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 60), thorough=(200000, 600)),
    "P12": dict(harness=["p12.cpp"], srcs="ALL", mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 60), thorough=(200000, 600)),
    "P15": dict(harness=["p15.cpp"], srcs="ALL", drop=NODES, mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 60), thorough=(200000, 600)),
    "P16": dict(harness=["p16.cpp"], srcs="ALL", drop=NODES, mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 60), thorough=(200000, 600)),
    "P20": dict(harness=["p20.cpp"], srcs="ALL", drop=NODES, mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 60), thorough=(200000, 600)),
    "P17": dict(harness=["p17.cpp"], srcs="ALL", drop=NODES, mem=True, opt="-O0", defs=["-D_GLIBCXX_ASSERTIONS"], quick=(4000, 60), thorough=(200000, 600)),
}
