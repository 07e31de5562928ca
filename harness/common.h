// Shared by all harnesses.
#pragma once
#include "../sim/sim.h"

#include <deal.II/base/mpi.h>
#include <deal.II/base/multithread_info.h>
#include <deal.II/base/point.h>

#include <Kokkos_Core.hpp>
#include <p4est.h>
#include <p4est_extended.h>
#include <sc.h>

#include <algorithm>
#include <cmath>
#include <fstream>
#include <numeric>

namespace hs
{
  using namespace sim;

  inline void
  zygote_init()
  {
    dealii::MultithreadInfo::set_thread_limit(1);
    int          argc = 1;
    static char  nm[] = "sim";
    static char *av[] = {nm, nullptr};
    char       **argv = av;
    Kokkos::initialize(argc, argv);
    // force lazily created statics into the zygote
    (void)std::locale();
  }
  // start of every simulated node
  inline void
  node_init()
  {
    sc_init(MPI_COMM_WORLD, 0, 0, nullptr, SC_LP_SILENT);
    p4est_init(nullptr, SC_LP_SILENT);
  }

  // Any outcome other than normal termination of every rank is a violation
  // unless the job was subject to faults that may legitimately stop it.
  inline void
  require_ok(Sim &s, const JobResult &r, const std::string &what = "job")
  {
    if (r.status == JobResult::ok)
      return;
    std::string d = r.detail;
    for (unsigned i = 0; i < r.ranks.size(); ++i)
      if (r.ranks[i].threw)
        d += " | rank " + std::to_string(i) + " threw: " +
             r.ranks[i].what.substr(0, 600);
    s.violate(std::string("job-") + r.status_name(), what + ": " + d);
  }

  template <typename T>
  std::string
  str(const std::vector<T> &v)
  {
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < v.size(); ++i)
      o << (i ? " " : "") << v[i];
    o << "]";
    return o.str();
  }
  inline bool
  close(double a, double b, double rel = 1e-9, double abs = 1e-12)
  {
    if (std::isnan(a) || std::isnan(b))
      return std::isnan(a) && std::isnan(b);
    if (a == b)
      return true;
    return std::abs(a - b) <= abs + rel * std::max(std::abs(a), std::abs(b));
  }
} // namespace hs
