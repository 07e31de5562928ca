"""Which executable decides which property, and how much to run."""
GT = ["src/grain_tracker/distributed_stitching.cc", "src/base/timer.cc",
      "src/base/output.cc"]

# name -> (name, harness sources, sources of the code under test)
BUILDS = {
    "stitching": ("stitching", ["stitching.cc"], GT),
    "tracker": ("tracker", ["tracker.cc"], GT),
}

STUB = ["MPI library (simulated: matching, collectives, MPI-IO, timing)",
        "clocks", "file system error behaviour (files themselves are real, in a private scratch directory)",
        "heap placement of operator new", "process scheduling (nodes are forked images released one at a time)"]
ASSUME = ["deal.II/p4est/boost/Trilinos as installed (9.5.1 with the name-only header overlay of /verif/compat), compiled -O1 -DNDEBUG",
          "sampled schedules and fault sequences, not exhaustive"]

PROPS = {
    "C01": dict(build="stitching", quick=25, thorough=600,
                rule="random particle counts per rank (0..6 on 1..7 ranks), chain/star/random cross-rank graphs, both stitching algorithms, one seeded schedule each; non-trivial: at least one edge crosses ranks",
                real=["distributed stitching", "deal.II consensus algorithms"]),
    "C02": dict(build="tracker", quick=25, thorough=900,
                rule="random 2D/3D adaptive meshes, partitions on 1..5 ranks, grains, periodicity, shape descriptions and tracking histories, one seeded schedule each; non-trivial: a grain spans ranks",
                real=["grain tracker (flooding, stitching, reductions, representations)", "deal.II distributed triangulation, DoFs, vectors, p4est"],
                must_probe=["grain_spans_ranks", "periodic_grain"]),
    "C03": dict(build="tracker", quick=25, thorough=900,
                rule="random histories of moving, growing, shrinking and new grains with mesh adaptation; non-trivial: a grain spans ranks",
                real=["grain tracker (identity transfer)", "deal.II distributed triangulation, p4est"],
                must_probe=["identity_checked"]),
    "C04": dict(build="tracker", quick=25, thorough=900,
                rule="random colliding grain histories, safety distances, strategies and shape descriptions; non-trivial: a grain spans ranks",
                real=["grain tracker (reassignment)", "deal.II distributed triangulation, p4est"],
                must_probe=["reassigned", "collisions"]),
    "C05": dict(build="tracker", quick=25, thorough=900,
                rule="random reassignment histories with several field vectors, values compared degree of freedom by degree of freedom; non-trivial: a grain spans ranks",
                real=["grain tracker (remapping)", "deal.II distributed triangulation, vectors, p4est"],
                must_probe=["remapped", "remapped_across_ranks"]),
    "C07": dict(build="tracker", quick=25, thorough=900,
                rule="random particle arrangements on adaptive meshes, neighbours and distances compared with a gathered model; non-trivial: several ranks",
                real=["neighbour search, distance estimation", "deal.II distributed triangulation, p4est"],
                must_probe=["direct_neighbours", "wave_distances", "one_layer_gap"]),
}
