// C01: distributed stitching decides connected components, whatever the
// partition of the local particles over ranks and whatever the schedule.
#include <pf-applications/grain_tracker/distributed_stitching.h>

#include "common.h"

using namespace hs;

namespace
{
  using Tup   = std::tuple<unsigned int, unsigned int>;
  using Input = std::vector<std::vector<Tup>>;

  struct UF
  {
    std::vector<int> p;
    explicit UF(int n)
      : p(n)
    {
      std::iota(p.begin(), p.end(), 0);
    }
    int
    f(int i)
    {
      while (p[i] != i)
        i = p[i] = p[p[i]];
      return i;
    }
    void
    u(int a, int b)
    {
      p[f(a)] = f(b);
    }
  };

  void
  run(Sim &s)
  {
    const int n_ranks = 1 + s.W.draw(7);
    std::vector<int> count(n_ranks), off(n_ranks + 1, 0);
    for (int r = 0; r < n_ranks; ++r)
      {
        static const int mx[] = {0, 1, 3, 6};
        count[r]              = s.W.draw(mx[s.W.draw(4)] + 1);
        off[r + 1]            = off[r] + count[r];
      }
    const int        N = off[n_ranks];
    std::vector<int> owner(N);
    for (int r = 0; r < n_ranks; ++r)
      for (int i = off[r]; i < off[r + 1]; ++i)
        owner[i] = r;
    // graph: chains, stars and random edges between particles of different
    // ranks, known to both end points (as face neighbourhood is)
    std::set<std::pair<int, int>> edges;
    const int                     shape = s.W.draw(4);
    if (N > 1)
      {
        std::vector<int> perm(N);
        std::iota(perm.begin(), perm.end(), 0);
        s.W.shuffle(perm);
        if (shape == 1) // long chains
          for (int i = 0; i + 1 < N; ++i)
            if (!s.W.chance(0.2))
              edges.emplace(perm[i], perm[i + 1]);
        if (shape == 2) // stars
          {
            const int c = 1 + s.W.draw(3);
            for (int i = c; i < N; ++i)
              edges.emplace(perm[i % c], perm[i]);
          }
        const int extra = shape == 0 ? s.W.draw(2 * N) : s.W.draw(3);
        for (int i = 0; i < extra; ++i)
          edges.emplace(s.W.draw(N), s.W.draw(N));
      }
    std::vector<std::set<int>> adj(N);
    UF                         uf(N);
    int                        n_cross = 0;
    for (auto [a, b] : edges)
      if (a != b && owner[a] != owner[b])
        {
          adj[a].insert(b);
          adj[b].insert(a);
          uf.u(a, b);
          ++n_cross;
        }
    const bool via_graph = s.W.draw(2);
    s.draw_env();
    std::string desc = (via_graph ? "via_graph" : "fixed_point") +
                       std::string(" counts ") + str(count) + " edges";
    for (int a = 0; a < N; ++a)
      for (int b : adj[a])
        if (a < b)
          desc += " " + std::to_string(a) + "-" + std::to_string(b);
    s.note(desc);
    s.signature = desc;
    if (n_cross && n_ranks > 1)
      s.nontrivial = "cross";

    const auto res = s.launch(
      n_ranks,
      [&](int r) {
        node_init();
        Input in(count[r]);
        for (int i = 0; i < count[r]; ++i)
          for (int b : adj[off[r] + i])
            in[i].emplace_back(owner[b], b);
        const auto c =
          via_graph ?
            GrainTracker::perform_distributed_stitching_via_graph(MPI_COMM_WORLD,
                                                                  in) :
            GrainTracker::perform_distributed_stitching(MPI_COMM_WORLD, in);
        const unsigned int num =
          GrainTracker::number_of_stitched_particles(c, MPI_COMM_WORLD);
        Out o;
        o << c << num;
        record("result", o);
      },
      s.env);
    require_ok(s, res, "stitching");
    std::map<int, unsigned>      color_of_root;
    std::map<unsigned, int>      root_of_color;
    std::vector<unsigned> all;
    unsigned n_comp = 0;
    for (int i = 0; i < N; ++i)
      n_comp += uf.f(i) == i;
    for (int r = 0; r < n_ranks; ++r)
      {
        const auto rec = res.get(r, "result");
        if (rec.size() != 1)
          s.violate("no-result", "rank " + std::to_string(r));
        In   in(rec[0]->data);
        auto c   = in.get<std::vector<unsigned>>();
        auto num = in.get<unsigned>();
        if (int(c.size()) != count[r])
          s.violate("size", "rank " + std::to_string(r) + " got " + str(c));
        if (num != n_comp)
          s.violate("component-count",
                    "rank " + std::to_string(r) + " reports " +
                      std::to_string(num) + " particles, expected " +
                      std::to_string(n_comp));
        for (int i = 0; i < count[r]; ++i)
          {
            const int root = uf.f(off[r] + i);
            if (!color_of_root.emplace(root, c[i]).second &&
                color_of_root[root] != c[i])
              s.violate("split-component",
                        "particles of one component got colors " +
                          std::to_string(color_of_root[root]) + " and " +
                          std::to_string(c[i]));
            if (!root_of_color.emplace(c[i], root).second &&
                root_of_color[c[i]] != root)
              s.violate("merged-components",
                        "color " + std::to_string(c[i]) +
                          " is shared by two components");
            if (c[i] >= n_comp)
              s.violate("color-range",
                        "color " + std::to_string(c[i]) + " of " +
                          std::to_string(n_comp) + " components");
          }
      }
    if (n_comp < unsigned(N))
      s.probes["components_span_ranks"]++;
    for (int r = 0; r < n_ranks; ++r)
      if (!count[r])
        s.probes["rank_without_particles"]++;
  }
} // namespace

int
main(int argc, char **argv)
{
  return sim_main(argc, argv, {{"C01", {"stitching", run, zygote_init}}});
}
