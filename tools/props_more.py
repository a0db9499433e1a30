prop("P18", "Clock offset estimates respect causality and synchronise once the net is steady",
     "The estimated offset between two machines' clocks is never further from the truth than half the round trips it was measured with, whatever is lost, duplicated, delayed or reordered; answers to superseded requests have no effect and requests never pile up. Once the network is steady a synchronisation completes within a bounded time and repeats every period.",
     ["fault_sequences", "schedules", "inputs"], "for every pair of clocks with constant offset and small drift, every latency and every sequence of lost, duplicated, delayed and reordered time packets, partitions and stalled nodes",
     "No test exercises clock synchronisation at all; a stale answer accepted after a timeout needs a delayed packet at one particular moment.",
     ["src/edyn/networking/util/clock_sync.cpp", "include/edyn/networking/util/clock_sync.hpp", "include/edyn/networking/packet/time_request.hpp", "include/edyn/networking/packet/time_response.hpp"],
     [("request/response state machine with identifiers", "src/edyn/networking/util/clock_sync.cpp: clock_sync_process_time_response"), ("loss timeout and period", "src/edyn/networking/util/clock_sync.cpp: update_clock_sync")],
     ["offset estimate against the simulator's true offset, number of requests on the wire, completed synchronisations"],
     "Real state machine and packet encoding; the network and both clocks are simulated; single threaded by design of the code.", state=[{"name": "clock_sync_data", "meaning": "pending request, measured offsets and countdown", "where": "include/edyn/networking/util/clock_sync.hpp"}])
prop("P19", "Redundantly sent actions are executed exactly once, in order, despite loss",
     "Actions recorded on one side and sent repeatedly while young enough are each merged and executed at most once on the other side, in time order and with their content unchanged, and every action contained in an update that arrives no later than updates with newer actions is executed; actions older than the retention time are dropped and younger ones kept.",
     ["fault_sequences", "histories", "inputs"], "for every sequence of recorded actions, every retention time and every sequence of lost, duplicated, delayed and reordered updates",
     "The only test merges two hand-written histories; duplicates and gaps arise from combinations of loss, overlap and reordering.",
     ["include/edyn/networking/comp/action_history.hpp"],
     [("merge of overlapping histories by time", "include/edyn/networking/comp/action_history.hpp: action_history::merge"), ("retention and consumption", "include/edyn/networking/comp/action_history.hpp: erase_until/each"), ("wire format", "include/edyn/networking/comp/action_history.hpp: serialize")],
     ["executed action log against a reference model fed with the same deliveries"],
     "Exact reference model of the receiving side; delivery schedules are sampled. Histories of up to 255 entries per update, the limit of the wire format.")
prop("P21", "What is saved to a file is exactly what is loaded from it",
     "Values, triangle meshes and mesh descriptions written to a file are read back identical, however the operating system splits or interrupts the reads and writes, from any position sought to and with files used from several threads at once; text meshes load with exactly the objects, vertices, colors, faces and triangulation they describe, transformed as asked, and missing files are reported.",
     ["inputs", "fault_sequences"], "for every sequence of values and meshes, every partition of the transfers and every interruption",
     "Tests write one small mesh on a disk that never delivers a short transfer.",
     ["include/edyn/serialization/file_archive.hpp", "include/edyn/serialization/triangle_mesh_s11n.hpp", "include/edyn/serialization/static_tree_s11n.hpp", "src/edyn/util/shape_io.cpp", "src/edyn/shapes/triangle_mesh.cpp", "include/edyn/serialization/std_s11n.hpp"],
     [("file archives", "include/edyn/serialization/file_archive.hpp"), ("mesh encoding", "include/edyn/serialization/triangle_mesh_s11n.hpp"), ("obj parser", "src/edyn/util/shape_io.cpp: load_meshes_from_obj_stream / read_face_indices")],
     ["values and meshes before saving and after loading; obj text generated from a known mesh"],
     "Transfers go through interposed system calls that shorten and interrupt them. Containers up to 65535 elements, the limit of the format. Hard I/O errors are not injected: the archives offer no error report for them.")
prop("P22", "Mesh pages loaded in the background are intact, loaded once and within the cache",
     "A mesh divided into pages contains every triangle exactly once with the neighbourhood data of the undivided mesh; pages loaded on demand, concurrently and in the background are exactly those saved, each requested page becomes available within a bounded time and is loaded once while cached, and queries by several threads see whole pages only. The cache drops the least recently visited pages and respects its limit.",
     ["schedules", "inputs", "histories", "fault_sequences"], "for every mesh, page size, cache limit, storage mode, interleaving of querying and loading threads and sequence of short or interrupted reads",
     "The only test builds a five-triangle mesh and never loads a page; torn pages need two loads to interleave.",
     ["src/edyn/shapes/paged_triangle_mesh.cpp", "include/edyn/shapes/paged_triangle_mesh.hpp", "include/edyn/shapes/create_paged_triangle_mesh.hpp", "src/edyn/serialization/paged_triangle_mesh_s11n.cpp"],
     [("on-demand loading with an is-loading flag", "src/edyn/shapes/paged_triangle_mesh.cpp: load_node_if_needed/assign_mesh"), ("eviction order", "src/edyn/shapes/paged_triangle_mesh.cpp: mark_recent_visit/unload_least_recently_visited_node"), ("file layout and background read", "src/edyn/serialization/paged_triangle_mesh_s11n.cpp: load_mesh_context::load")],
     ["pages compared with the originals, load counts, cache contents against a reference cache, page events"],
     "Real workers, tasks, message queues and file streams under the simulated scheduler with race detection. The cache limit is checked where loads are synchronous: outstanding background loads may exceed it by design.")
prop("P23", "Decoding memory buffers is exact and safe against damaged or truncated input",
     "Every value written to a memory buffer is read back identical; a buffer that was cut short is reported as failed by the first value it cannot supply and by everything after it; output that does not fit a bounded buffer is reported and never written beyond it; arbitrary corrupted bytes never make decoding read outside the buffer, loop without bound or allocate without bound.",
     ["inputs", "fault_sequences"], "for every sequence of values of every supported type and every truncation, capacity and corruption of the bytes",
     "Tests decode what they just encoded; damage at one particular byte of one particular type is not sampled.",
     ["include/edyn/serialization/memory_archive.hpp", "include/edyn/serialization/std_s11n.hpp", "include/edyn/serialization/math_s11n.hpp", "include/edyn/serialization/s11n_util.hpp", "include/edyn/networking/packet/time_request.hpp", "include/edyn/networking/packet/time_response.hpp", "include/edyn/networking/packet/set_playout_delay.hpp", "include/edyn/networking/packet/set_aabb_of_interest.hpp"],
     [("bounds check with sticky failure", "include/edyn/serialization/memory_archive.hpp: read_bytes/write_bytes"), ("length-prefixed containers", "include/edyn/serialization/std_s11n.hpp")],
     ["values, failure flags and heap accesses beyond exactly sized buffers"],
     "Heap accesses are checked against exactly sized blocks. Containers up to 65535 elements, the limit of the format.")
prop("P24", "A changed component is resent for the whole redundancy window and no longer",
     "A component marked as changed is included in outgoing updates until the redundancy window after its last change has elapsed, and not after, independently of how the time is divided into steps and of which other components change; marking any number of components any number of times never fails.",
     ["histories", "inputs"], "for every history of changes and elapsed time steps",
     "No test covers the window; early removal needs a particular order of expiry among several components.",
     ["include/edyn/networking/comp/exporter_modified_components.hpp"],
     [("remaining time per listed component, swap removal", "include/edyn/networking/comp/exporter_modified_components.hpp: bump_index/decay")],
     ["listed components against a reference model of remaining times"],
     "Exact reference model; histories are sampled. This part of the code has no concurrency of its own; time steps are the simulated input.")
prop("P08", "Elapsed time becomes whole fixed steps, none lost, invented or run while paused",
     "However elapsed time is divided into updates, the simulation runs as many fixed steps as fit the time that passed, up to the configured limit per update, carries the remainder over, and shows bodies on their path at the given time; a clock that goes back adds nothing. While paused only explicitly requested single steps run and the time spent paused is never made up; a simulation running in its own thread keeps pace with the clock without running ahead of it.",
     ["histories", "inputs", "schedules", "fault_sequences"], "for every sequence of updates, time gaps, stalls, clock jumps, pauses, single steps and settings changes, and every interleaving with the simulation thread",
     "Tests advance time by a constant; lost remainders and bursts need particular sequences of stalls, pauses and resumptions.",
     ["src/edyn/simulation/stepper_sequential.cpp", "src/edyn/simulation/stepper_async.cpp", "src/edyn/simulation/simulation_worker.cpp", "src/edyn/edyn.cpp", "src/edyn/sys/update_presentation.cpp"],
     [("time accumulator", "src/edyn/simulation/stepper_sequential.cpp: stepper_sequential::update"), ("worker loop", "src/edyn/simulation/simulation_worker.cpp: simulation_worker::update"), ("presentation interpolation", "src/edyn/sys/update_presentation.cpp")],
     ["step callbacks, position of a body moving uniformly, shown position, simulation time against a reference accumulator"],
     "Whole engine on the ECS stand-in. Reference accumulator in double precision; counts at an exact step boundary may go either way.")
prop("P14", "Islands are exactly the groups of connected bodies and sleep and wake as a whole",
     "After every update two moving bodies are in the same island exactly if a chain of constraints and contacts between moving bodies connects them, and constraints, contacts and fixed bodies are listed in precisely the islands they touch. An island is either wholly asleep or wholly awake; one that stays still falls asleep after the documented time, does not move while asleep and wakes as a whole when any part of it is disturbed.",
     ["histories", "inputs", "schedules"], "for every sequence of creating, destroying, moving, re-shaping and re-typing bodies and constraints between updates, in single and multi-threaded mode",
     "The tests split one hand-made island; wrong groupings arise from particular orders of edits between two steps.",
     ["src/edyn/simulation/island_manager.cpp", "src/edyn/util/island_util.cpp", "include/edyn/comp/island.hpp", "src/edyn/core/entity_graph.cpp", "src/edyn/util/rigidbody.cpp"],
     [("merging", "src/edyn/simulation/island_manager.cpp: init_new_nodes_and_edges"), ("splitting", "src/edyn/simulation/island_manager.cpp: split_islands"), ("sleeping", "src/edyn/simulation/island_manager.cpp: put_islands_to_sleep/could_go_to_sleep")],
     ["island components of the registry against connected components computed from constraints and contacts; body positions and sleep state over time"],
     "Whole engine on the ECS stand-in. Sequential modes; edits up to 24 batches on up to 9 bodies per run.")
prop("P13", "Multithreaded stepping gives exactly the result of single threaded stepping",
     "The same sequence of edits and updates played into a sequential and into a multithreaded simulation gives bit for bit the same positions, velocities, contacts, islands and sleep states after every update, whatever the number of worker threads and however they are scheduled. No worker reads or writes what another one is writing, and every update terminates.",
     ["schedules", "histories", "inputs", "configurations"], "for every history of edits, every number of worker threads and every interleaving of the workers with the stepping thread",
     "The tests run sequentially; a result that depends on the thread which happened to do the work needs several islands, many bodies or a particular schedule.",
     ["src/edyn/dynamics/solver.cpp", "src/edyn/dynamics/island_solver.cpp", "src/edyn/collision/narrowphase.cpp", "src/edyn/collision/broadphase.cpp", "src/edyn/simulation/stepper_sequential.cpp", "include/edyn/util/island_util.hpp", "src/edyn/context/task.cpp"],
     [("one solver job per island", "src/edyn/dynamics/solver.cpp: solver::update"), ("island solver stages", "src/edyn/dynamics/island_solver.cpp: island_solver_update"), ("parallel collision detection", "src/edyn/collision/narrowphase.cpp, src/edyn/collision/broadphase.cpp")],
     ["positions, orientations, velocities, contact points, island grouping and sleep state of every body after every update in both modes"],
     "Whole engine on the ECS stand-in, bitwise comparison of two simulations in one process; up to 12 bodies per run, or 150 in the scenario with large groups.")
prop("P25", "Any order of valid edits leaves a consistent, finite world",
     "After every update, whatever bodies and constraints were created, destroyed, cleared, moved, re-shaped, re-typed or filtered before it, contacts refer only to existing bodies, at most one contact exists per pair and is found by lookup, its points form one list of the stated length, and positions and velocities are finite. Bodies whose bounds overlap and that may collide are in contact, and bodies far apart or excluded are not; after destroying all bodies nothing derived from them remains.",
     ["histories", "inputs", "schedules"], "for every sequence of edits between updates, in single and multithreaded mode",
     "Tests make one edit to one hand-made scene; stale references and missed or leftover contacts need particular orders of edits between two steps.",
     ["src/edyn/util/rigidbody.cpp", "src/edyn/collision/broadphase.cpp", "src/edyn/collision/narrowphase.cpp", "src/edyn/util/contact_manifold_util.cpp", "src/edyn/collision/contact_manifold_map.cpp", "src/edyn/util/constraint_util.cpp", "src/edyn/util/collision_util.cpp"],
     [("creating and destroying contacts", "src/edyn/collision/broadphase.cpp, src/edyn/util/contact_manifold_util.cpp"), ("contact points", "src/edyn/util/collision_util.cpp"), ("editing bodies", "src/edyn/util/rigidbody.cpp")],
     ["contacts, contact points, bounds, positions, velocities, tags of the registry after each update; overlap of the bounds computed by brute force before it"],
     "Whole engine on the ECS stand-in. Brute-force overlap as the reference; memory errors and assertions of the engine are also reported.")
prop("P26", "Bodies that only act on each other keep their total momentum",
     "However bodies free of gravity collide with each other and are joined by constraints of any type, including motors, limits, springs and friction, the sum of their linear momenta changes only by impulses the application applies, and no step makes a position or velocity infinite.",
     ["histories", "inputs", "configurations"], "for every arrangement of shapes, materials, constraints and impulses and every setting of the solver iterations, in single and multithreaded mode",
     "Tests do not run the solver; an impulse applied to one side only needs a particular constraint option and state to show.",
     ["src/edyn/dynamics/island_solver.cpp", "src/edyn/dynamics/restitution_solver.cpp", "src/edyn/constraints/contact_constraint.cpp", "src/edyn/constraints/hinge_constraint.cpp", "src/edyn/constraints/generic_constraint.cpp", "src/edyn/constraints/cone_constraint.cpp", "src/edyn/constraints/cvjoint_constraint.cpp", "src/edyn/constraints/gravity_constraint.cpp"],
     [("impulses applied to both bodies of a row", "src/edyn/constraints/constraint_row.cpp: apply_row_impulse"), ("rows of each constraint type", "src/edyn/constraints")],
     ["sum of mass times velocity over all bodies after every step"],
     "Whole engine on the ECS stand-in; tolerance proportional to the momenta involved in single precision.")
prop("P10", "In asynchronous mode application and simulation agree once edits stop",
     "Whatever bodies, constraints and settings the application edits while the simulation runs in its own thread, and however the messages between them are timed, once edits stop and the simulation is paused both registries hold the same bodies, constraints, contacts and components with the same values. No edit is lost, applied to another entity or undone, no thread touches what the other is writing, and nothing fails along the way.",
     ["schedules", "histories", "inputs"], "for every history of edits, pauses and single steps, every timing of updates and every interleaving with the simulation thread and its workers",
     "Tests of replication execute one operation list by hand; conflicts arise only when an edit crosses an update that is on its way.",
     ["src/edyn/simulation/stepper_async.cpp", "src/edyn/simulation/simulation_worker.cpp", "include/edyn/replication/registry_operation.hpp", "include/edyn/replication/registry_operation_builder.hpp", "include/edyn/replication/registry_operation_observer.hpp", "include/edyn/replication/entity_map.hpp", "include/edyn/replication/map_child_entity.hpp", "src/edyn/collision/contact_manifold_map.cpp"],
     [("application to simulation", "src/edyn/simulation/stepper_async.cpp: sync; src/edyn/simulation/simulation_worker.cpp: on_update_entities"), ("simulation to application", "src/edyn/simulation/simulation_worker.cpp: sync; src/edyn/simulation/stepper_async.cpp: on_step_update"), ("entity mapping", "include/edyn/replication/entity_map.hpp, registry_operation.hpp")],
     ["snapshots of both registries after the last edit has settled, matched by an identifier component the harness adds to every body and constraint"],
     "Whole engine on the ECS stand-in with the simulation worker as a simulated thread. Entities are cleared and used again only when nothing about their former body is on its way; exclusion lists are compared only when no entity was destroyed.")
prop("P11", "Ray and box queries are answered exactly once and miss nothing in their way",
     "Every ray and box query sent to the simulation thread is answered exactly once, with its own number and points, within a bounded number of updates, and refers only to entities that exist for the application. Once the world stands still the answer of any query, asked of the simulation thread or in place, is what testing every body one by one gives: nothing in the way is missed, nothing ignored or far away is reported.",
     ["schedules", "histories", "inputs"], "for every history of edits, every set of concurrent queries and every interleaving of application, simulation and worker threads",
     "The tests cast single rays at single shapes; lost or mixed up answers need several queries in flight, and misses need particular trees.",
     ["src/edyn/collision/raycast.cpp", "src/edyn/collision/raycast_service.cpp", "src/edyn/collision/query_aabb.cpp", "include/edyn/collision/query_tree.hpp", "src/edyn/collision/dynamic_tree.cpp", "src/edyn/collision/broadphase.cpp", "src/edyn/simulation/stepper_async.cpp", "src/edyn/simulation/simulation_worker.cpp"],
     [("batching of rays over the workers", "src/edyn/collision/raycast_service.cpp"), ("requests and answers", "src/edyn/simulation/stepper_async.cpp: raycast, query_aabb, on_raycast_response, on_query_aabb_response; src/edyn/simulation/simulation_worker.cpp: on_raycast_request, on_query_aabb_request"), ("tree traversal", "src/edyn/collision/dynamic_tree.cpp, include/edyn/collision/query_tree.hpp")],
     ["number, identity and content of the answers; result of the engine's own per-shape test over all bodies"],
     "Whole engine on the ECS stand-in. Which point of a single shape a ray hits is taken from the engine itself. Bounds are indexed at the start of a step, so bodies that moved more than 5 cm in the last steps may or may not be found.")
prop("P12", "Detaching at any moment ends cleanly and leaves nothing of the simulation behind",
     "In every execution mode the simulation can be detached at any moment, also while messages, jobs and queries are under way, and attached again: detaching returns, the threads end, callbacks are paired and none comes later. No component, entity, context or mesh reference of the simulation remains in the registry, and entities of the application stay as they were.",
     ["schedules", "histories", "configurations"], "for every history of edits before detaching, every execution mode, every number of cycles and every interleaving with the simulation thread and its workers",
     "Tests attach and detach once, sequentially; a hang or a leftover needs detaching while particular work is in flight.",
     ["src/edyn/edyn.cpp", "src/edyn/simulation/stepper_async.cpp", "src/edyn/simulation/simulation_worker.cpp", "src/edyn/simulation/stepper_sequential.cpp", "src/edyn/simulation/island_manager.cpp", "src/edyn/util/polyhedron_shape_initializer.cpp", "src/edyn/util/paged_mesh_load_reporting.cpp", "src/edyn/context/start_thread.cpp"],
     [("stopping the simulation thread", "src/edyn/simulation/simulation_worker.cpp: stop/run"), ("cleaning the registry", "src/edyn/edyn.cpp: detach")],
     ["return of detach, live threads, callback counts, storage sizes, context variables, reference counts of meshes"],
     "Whole engine on the ECS stand-in; memory errors and assertions of the engine are also reported.")
prop("P15", "Server and clients agree on the networked world once changes and faults stop",
     "Whatever bodies, constraints and properties the server and the clients that own them create, change and destroy, in whatever order clients connect, change their area of interest and disconnect, and however packets are delayed, reordered, duplicated and, where the transport may do so, lost, once changes and faults stop each client holds exactly one replica of every networked entity inside its area of interest and none of what was destroyed or lies outside. Replicas match the server in kind, position, owner and properties; nothing a client created is lost or doubled, and nothing fails along the way.",
     ["schedules", "histories", "fault_sequences", "inputs"], "for every history of edits on every node, every connection history and every fate of the packets in transit",
     "The tests exercise single networking helpers; lost and leftover replicas come from packets that cross each other or from edits made before a previous one was acknowledged.",
     ["src/edyn/networking/sys/server_side.cpp", "src/edyn/networking/sys/client_side.cpp", "src/edyn/networking/sys/update_aabbs_of_interest.cpp", "src/edyn/networking/sys/accumulate_discontinuities.cpp", "src/edyn/networking/extrapolation/extrapolation_worker.cpp", "include/edyn/networking/util/server_snapshot_importer.hpp", "include/edyn/networking/util/client_snapshot_importer.hpp", "include/edyn/networking/util/server_snapshot_exporter.hpp", "include/edyn/networking/util/client_snapshot_exporter.hpp", "include/edyn/replication/entity_map.hpp"],
     [("creation, destruction and entity mapping", "src/edyn/networking/sys/server_side.cpp, client_side.cpp: process_packet overloads"), ("area of interest", "src/edyn/networking/sys/update_aabbs_of_interest.cpp; server_side.cpp: process_aabb_of_interest_*"), ("state updates", "snapshot exporters and importers")],
     ["the registries of the server and of every client at the end, matched by an identifier component the harness adds to each networked entity"],
     "Whole engine on the ECS stand-in: one server and up to three clients in one process, with a clock and a message dispatcher per node and a simulated network. Packets the library asks to be sent reliably are delivered once and in order, others are not. Values changed while a packet of theirs was lost are not compared, because the library resends changes only for a limited time.")
prop("P16", "A client cannot alter, claim or destroy what it does not own",
     "Whatever packets a client sends, with forged snapshots, repeated creations, forged destructions or claims of ownership over entities it can see, the server keeps entities of the server and of other clients as they are: existing, with their owner, position, velocity, mass, material and inputs. A client that was not given full ownership cannot set the state of its own entities either, and the inputs of honest clients still take effect.",
     ["inputs", "histories", "schedules"], "for every sequence of forged packets of the kinds that carry entity state, mixed with honest traffic, and every network timing",
     "Tests contain no server with a hostile client; which packets are honoured depends on the owner, on the kind of ownership and on what exists already.",
     ["src/edyn/networking/sys/server_side.cpp", "include/edyn/networking/util/server_snapshot_importer.hpp", "include/edyn/networking/comp/entity_owner.hpp", "include/edyn/networking/comp/remote_client.hpp"],
     [("filtering of components by owner", "include/edyn/networking/util/server_snapshot_importer.hpp"), ("creation and destruction requests", "src/edyn/networking/sys/server_side.cpp: process_packet(create_entity), process_packet(destroy_entity)")],
     ["existence, owner, position, velocity, mass, material and input of every body on the server after each forged packet"],
     "Whole engine on the ECS stand-in, same simulated network as P15. Forged packets are made with the library's own exporter from edited replicas.")
prop("P17", "Packets arrive as they were sent, and damaged ones are harmless",
     "Every packet the library produces decodes to the same contents, so that encoding it again gives the same bytes. Decoding a packet that was cut short or altered in any way ends without touching memory outside of the packet, and whatever is accepted has component pools with contents that refer only to entities listed in the same packet.",
     ["inputs", "fault_sequences"], "for every packet of every kind that runs produce, and every truncation and sequence of byte changes",
     "No test decodes damaged packets; sizes, indices and nested pools each can go wrong only for particular bytes.",
     ["include/edyn/networking/packet/edyn_packet.hpp", "include/edyn/networking/packet/registry_snapshot.hpp", "include/edyn/networking/packet/query_entity.hpp", "include/edyn/networking/packet/entity_entered.hpp", "include/edyn/networking/util/pool_snapshot.hpp", "include/edyn/networking/util/pool_snapshot_data.hpp", "include/edyn/serialization/memory_archive.hpp"],
     [("packet serialization", "include/edyn/networking/packet"), ("component pools", "include/edyn/networking/util/pool_snapshot.hpp, pool_snapshot_data.hpp")],
     ["bytes of packets before and after decoding and encoding, contents of decoded packets, memory accesses during decoding"],
     "Whole engine on the ECS stand-in produces the packets. Damaged polyhedron and compound shapes are a known finding and left out of the search.")
prop("P20", "An action performed in a client is executed exactly once by the server",
     "Every action a client performs on an entity it owns is executed at most once by the server, on that entity, and after the actions performed on it before; if no packet of that client was lost or held up for longer than the library resends actions, it is executed. This holds while several entities and kinds of actions are used at once and while the estimated offset between the clocks of client and server changes.",
     ["schedules", "histories", "fault_sequences"], "for every history of actions on any number of entities and clients, every clock offset and every fate of the packets that carry them redundantly",
     "Tests of the action history merge hand-made lists; losing or repeating an action takes two entities acting at one time or an offset estimate that moves between two copies of one action.",
     ["src/edyn/networking/sys/server_side.cpp", "src/edyn/networking/sys/client_side.cpp", "include/edyn/networking/comp/action_history.hpp", "include/edyn/networking/util/client_snapshot_exporter.hpp", "include/edyn/networking/util/server_snapshot_importer.hpp", "src/edyn/networking/util/clock_sync.cpp"],
     [("recording actions", "include/edyn/networking/util/client_snapshot_exporter.hpp: append_actions; src/edyn/networking/sys/client_side.cpp: trim_and_insert_actions"), ("merging and executing actions", "include/edyn/networking/util/server_snapshot_importer.hpp: merge_action_history; src/edyn/networking/sys/server_side.cpp: dispatch_actions")],
     ["action lists of the server's registry after every network update of the server, with a number in each action"],
     "Whole engine on the ECS stand-in, same simulated network as P15. Clients step at least once per frame; shorter frames are a known finding.")
prop("P27", "Geometric routines return correct closest points, overlaps, volumes and inertia",
     "Closest-point, separating-axis, clipping, convex hull, volume, inertia and ray-shape routines return what the geometry defines, within a tolerance stated by their scale, for every admissible input.",
     ["inputs"], "for every pair of admissible primitives, poses and shapes",
     "Tests sample a few poses; degenerate configurations are left out.",
     ["src/edyn/math/geom.cpp", "src/edyn/math/triangle.cpp", "src/edyn/math/shape_volume.cpp", "src/edyn/collision/collide", "src/edyn/util/moment_of_inertia.cpp"],
     [("closest points and clipping", "src/edyn/math/geom.cpp"), ("shape against shape", "src/edyn/collision/collide")],
     ["return values of pure functions"], "Not claimed.",
     na="Pure single-threaded functions of their arguments: there is no schedule, clock, I/O, message or crash for the property to depend on, so deterministic simulation has nothing to decide. Their uses inside a step are exercised, not judged, by P13, P25 and P26.")
prop("P28", "Each constraint type restricts exactly the relative motion it documents",
     "Once converged, a point, distance, hinge, cone, generic, cvjoint or soft distance constraint keeps the documented relation between its bodies within tolerance, and its limits, springs, motors and friction act only where documented.",
     ["inputs", "configurations"], "for every pair of bodies, frames and constraint parameters",
     "Tests of constraints cover single configurations.",
     ["src/edyn/constraints"], [("rows of each constraint", "src/edyn/constraints")], ["relative pose of the two bodies"], "Not claimed.",
     na="Numerical accuracy of an iterative solver on given inputs: it does not depend on interleaving, time, I/O or faults, and a sound oracle would be a physical reference and tolerances, not a simulation of the environment. What does depend on schedules and histories is decided by P13, P25 and P26.")
