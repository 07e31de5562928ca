TECH = "the real code on 1..7 simulated MPI processes under a seeded scheduler, compared with an independent model; seed replay and minimisation"
NOTE = ("Sampled search: seeded schedules, inputs and fault sequences, none enumerated. "
        "Trusts the deal.II/p4est/boost libraries as installed, the MPI simulator and the reference model of the harness.")
NOT_APPLICABLE = {}
HOOKS = None

P("C01", "Stitching numbers exactly the connected pieces, in every schedule",
  "When pieces of particles found by separate processes are joined through the pairs of touching pieces each process reports, two pieces get the same global number if and only if they are connected. "
  "The numbers are gapless from zero, every process computes the same numbering, and both available algorithms terminate and agree on the partition, whatever the message timing.",
  ["schedules", "inputs"],
  "every number of processes, every number of local pieces per process including none, every set of cross-process touching pairs (chains, stars, cycles, sparse and dense), every delivery order and delay",
  "The tests stitch a few fixed pictures on one process count with whatever timing MPI happens to have; late, early and reordered messages of the asynchronous exchange and empty processes are never forced.",
  ["src/grain_tracker/distributed_stitching.cc", GT + "distributed_stitching.h"],
  [("fixed-point exchange of cliques", "perform_distributed_stitching"),
   ("gathered graph and breadth-first search", "perform_distributed_stitching_via_graph, connected_components")],
  observe=["returned map from local piece to global number on every process"])

P("C02", "Detected grains are the connected regions of each order parameter",
  "For any field distributed over any partition of any adaptively refined mesh, the grains reported are exactly the face-connected regions where an order parameter exceeds the threshold (joined across periodic boundaries), each with its true volume, center, maximal value and radius. "
  "All processes report the same grains, and neither the partition nor message timing changes the result.",
  ["inputs", "configurations", "schedules"],
  "2D and 3D meshes with hanging nodes and periodic directions, 1..5 processes with arbitrary partition weights, any number of grains including none, spherical/elliptical/wavefront descriptions, all message schedules",
  "The tests track a handful of hand-placed circles on fixed meshes and compare printed output; regions cut by process borders in unusual ways, hanging nodes between grains and empty processes do not occur.",
  [GT + "tracker.h", GT + "distributed_stitching.h", GT + "periodicity_graph.h", GT + "elliptical_helpers.h", GT + "grain.h", GT + "segment.h"],
  [("flooding of local regions", "run_flooding"), ("numbering and stitching across processes", "detect_local_particle_groups"),
   ("reduction of volume, center, maximum and radius", "compute_particles_info, compute_particles_radii, compute_particles_inertia, compute_particles_max_values"),
   ("grouping across periodic boundaries", "PeriodicityGraph")],
  observe=["grains returned by the tracker", "grain number of a cell"])

P("C03", "A grain keeps its identity while it moves, grows and shrinks",
  "Over any history of tracking steps in which a grain still overlaps its old extent, and no other grain of its order parameter is a better match, it keeps its number; two grains never share a number, and a grain which did not exist before gets a fresh one or tracking fails, as configured. "
  "All processes agree on every number after every step.",
  ["histories", "schedules", "configurations"],
  "random histories of moving, growing, vanishing and appearing grains, mesh adaptation in between, periodic wrap-around, all partitions and message schedules",
  "Tests transfer numbers between two fixed lists of grains; long histories with mesh changes, several candidates and periodic segments are not reached.",
  [GT + "tracker.h", GT + "tracking.h"],
  [("bounding box search and conflict resolution", "transfer_grain_ids"), ("new number generation", "Tracker::track")],
  observe=["grain numbers over the history"])

P("C04", "Reassignment separates neighbours and terminates",
  "After order parameters are reassigned, no two grains that are closer than the safety distance share an order parameter, every grain has exactly one valid order parameter and the numbering of active order parameters is compact. "
  "The outcome is the same on all processes, and reassignment fails only if the allowed number of order parameters does not suffice.",
  ["histories", "configurations", "schedules"],
  "random grain arrangements and motions that collide, safety distances, greedy and minimal strategies, all descriptions of grain shape, all partitions and schedules",
  "The tests reassign a few circles with one strategy and no adaptation; histories that leave gaps, dangling order parameters and periodic images are not sampled.",
  [GT + "tracker.h", GT + "remap.h", GT + "representation.h", GT + "ellipsoid.h"],
  [("collision graph and colouring", "Tracker::reassign_grains"), ("distance between descriptions of grains", "Grain::distance, Representation::distance")],
  observe=["order parameter of every grain", "number of active order parameters"])

P("C05", "Moving grains between order parameters changes nothing else",
  "Remapping after a reassignment moves the values of every reassigned grain unchanged to its new order parameter, in every field handed over and on every process, and clears the old place. "
  "No value that belongs to no reassigned grain changes, and tracking again afterwards finds the same grains.",
  ["histories", "schedules", "configurations"],
  "random sequences of reassignments including swaps and cycles of order parameters among several grains, several field vectors, grains cut by process borders, all schedules",
  "Tests remap two or three fixed grains and compare printed norms; cycles, several vectors, dense packings and cut grains do not occur.",
  [GT + "tracker.h", GT + "remap.h", GT + "remap_graph.h"],
  [("ordering of moves with temporaries", "RemapGraph"), ("transfer of cell values", "Tracker::remap")],
  observe=["field values per degree of freedom before and after"])

P("C07", "Neighbourhood and distances of grains are complete and symmetric",
  "Two particles sharing a cell face across order parameters, also across process borders and hanging nodes, are always recognised as direct neighbours, and particles which do not touch never are. "
  "Every pair of particles of one order parameter separated by a single layer of cells gets a distance, distances are symmetric, never below the true gap by more than the mesh resolution, and equal on all processes in every message schedule.",
  ["inputs", "configurations", "schedules"],
  "random grain arrangements on adaptively refined meshes in 2D and 3D, arbitrary partitions, all message schedules",
  "One test prints the distances of a fixed arrangement; particles meeting at a process border or across refinement levels are not sampled.",
  [GT + "distributed_stitching.h", GT + "representation.h"],
  [("neighbour search over faces", "get_direct_neighbors"), ("front propagation", "estimate_particle_distances")],
  observe=["set of neighbours", "map of distances"])
