#ifndef verif_solution_transfer_h
#define verif_solution_transfer_h
// Newer deal.II merged parallel::distributed::SolutionTransfer into
// dealii::SolutionTransfer; hpsint uses the merged name.
#include <deal.II/distributed/solution_transfer.h>
namespace dealii
{
  template <int dim, typename VectorType = Vector<double>, int spacedim = dim>
  using SolutionTransfer =
    parallel::distributed::SolutionTransfer<dim, VectorType, spacedim>;
}
#endif
