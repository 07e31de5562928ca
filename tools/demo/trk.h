#include <deal.II/distributed/tria.h>
#include <deal.II/dofs/dof_handler.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/grid/grid_generator.h>
#include <pf-applications/grain_tracker/tracker.h>
#include <cstdio>
using namespace dealii;
using DVec = LinearAlgebra::distributed::DynamicBlockVector<double>;
struct Circle
{
  unsigned op;
  double   x, y, rx, ry;
};
// The unit square with smooth discs in several order parameters
struct Domain
{
  parallel::distributed::Triangulation<2> tria;
  FE_Q<2>                                 fe;
  DoFHandler<2>                           dof;
  bool                                    per[2];
  Domain(int levels, bool px = false, bool py = false)
    : tria(MPI_COMM_WORLD), fe(1), dof(tria), per{px, py}
  {
    GridGenerator::hyper_cube(tria, 0, 1, true);
    std::vector<GridTools::PeriodicFacePair<Triangulation<2>::cell_iterator>> pf;
    for (int d = 0; d < 2; ++d)
      if (per[d])
        GridTools::collect_periodic_faces(tria, 2 * d, 2 * d + 1, d, pf);
    if (!pf.empty())
      tria.add_periodicity(pf);
    tria.refine_global(levels);
    dof.distribute_dofs(fe);
  }
  double shape(const Circle &c, const Point<2> &p, double width) const
  {
    double dx = p[0] - c.x, dy = p[1] - c.y;
    if (per[0]) dx -= std::round(dx);
    if (per[1]) dy -= std::round(dy);
    const double q = std::sqrt(dx * dx / c.rx / c.rx + dy * dy / c.ry / c.ry);
    return 0.5 * (1 - std::tanh(2 * (q - 1) * std::min(c.rx, c.ry) / width));
  }
  // offset: number of leading blocks that are no order parameters
  void fill(DVec &v, const std::vector<Circle> &cs, unsigned n_ops, unsigned offset = 0, double width = 0.02, double scale = 1)
  {
    auto part = std::make_shared<Utilities::MPI::Partitioner>(
      dof.locally_owned_dofs(), DoFTools::extract_locally_relevant_dofs(dof), MPI_COMM_WORLD);
    v.reinit(n_ops + offset);
    for (unsigned b = 0; b < v.n_blocks(); ++b)
      v.block(b).reinit(part);
    v.zero_out_ghost_values();
    std::vector<types::global_dof_index> idx(4);
    for (const auto &cell : dof.active_cell_iterators())
      if (cell->is_locally_owned())
        {
          cell->get_dof_indices(idx);
          for (unsigned i = 0; i < 4; ++i)
            if (part->in_local_range(idx[i]))
              for (const auto &c : cs)
                {
                  auto &x = v.block(c.op + offset)(idx[i]);
                  x       = std::max(double(x), scale * shape(c, cell->vertex(i), width));
                }
        }
    v.update_ghost_values();
  }
};
using Tracker = GrainTracker::Tracker<2, double>;
