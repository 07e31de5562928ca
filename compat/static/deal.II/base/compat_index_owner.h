#ifndef verif_compat_index_owner_h
#define verif_compat_index_owner_h
#include <boost/serialization/utility.hpp>
#include <deal.II/base/index_set.h>
#include <deal.II/base/mpi.h>
#include <deal.II/base/mpi_compute_index_owner_internal.h>
#include <map>
namespace dealii::Utilities::MPI
{
  inline std::pair<std::vector<unsigned int>, std::map<unsigned int, IndexSet>>
  compute_index_owner_and_requesters(const IndexSet &owned,
                                     const IndexSet &lookup,
                                     const MPI_Comm &comm)
  {
    std::vector<unsigned int> owning_ranks(lookup.n_elements());
    internal::ComputeIndexOwner::ConsensusAlgorithmsPayload process(
      owned, lookup, comm, owning_ranks, true);
    ConsensusAlgorithms::Selector<
      std::vector<std::pair<types::global_dof_index, types::global_dof_index>>,
      std::vector<unsigned int>>
      selector;
    selector.run(process, comm);
    return {owning_ranks, process.get_requesters()};
  }
} // namespace dealii::Utilities::MPI
#endif
