// C02-C05, C07: grain tracking on distributed, adaptively refined meshes.
//
// Simulated ranks run the real grain tracker over histories of moving,
// growing, shrinking, vanishing and appearing grains. The controller
// reassembles the global picture from what the ranks own and decides it
// against a centralised reference (connected components, geometry, conflict
// graph, simultaneous move).
#include <deal.II/distributed/tria.h>

#include <deal.II/dofs/dof_handler.h>

#include <deal.II/fe/fe_q.h>

#include <deal.II/grid/grid_generator.h>

#include <pf-applications/grain_tracker/tracker.h>

#include "common.h"

using namespace hs;
using namespace dealii;

namespace
{
  const char *prop = "C02"; // which property this run decides

  struct GSpec
  {
    double   c[3]   = {0, 0, 0};
    double   r[3]   = {1, 1, 1};
    double   angle  = 0;
    double   amp    = 1;
    unsigned op     = 0;
    int      id     = 0;
  };
  struct Step
  {
    std::vector<GSpec> grains; // op filled for the first step only
    bool               refine = false;
  };
  struct Spec
  {
    int                 dim      = 2;
    std::vector<int>    div      = {1, 1, 1};
    std::vector<double> size     = {1, 1, 1};
    int                 n_global = 2;
    bool                periodic[3] = {false, false, false};
    int                 n_adapt  = 0;
    double              ref_r    = 0.3;
    uint64_t            wseed    = 0; // cell weights
    int                 max_weight = 1;
    double              width    = 0.1;
    double              noise    = 0;
    int                 n_ops    = 1;
    // tracker
    bool   greedy = true, allow_new = false, fast = false, old_remap = false,
         logging = false, timing = true;
    int    max_op = 10;
    int    repr   = 0;
    double thr_lower = 0.01, thr_new = 0.02, ratio = 0.05, fixed = 0;
    int    offset = 2;
    std::vector<Step> steps;
  };

  double
  hash01(uint64_t x)
  {
    sim::Rng r(x);
    r.next();
    return double(r.next() >> 11) * 0x1p-53;
  }

  // ------------------------------------------------------------- guest side
  template <int dim>
  struct Node
  {
    const Spec                                &sp;
    parallel::distributed::Triangulation<dim>  tria;
    FE_Q<dim>                                  fe{1};
    DoFHandler<dim>                            dof{tria};
    using Vec = LinearAlgebra::distributed::DynamicBlockVector<double>;

    explicit Node(const Spec &sp)
      : sp(sp)
      , tria(MPI_COMM_WORLD)
    {}

    void
    make_mesh()
    {
      std::vector<unsigned> div;
      Point<dim>            lo, hi;
      for (int d = 0; d < dim; ++d)
        {
          div.push_back(sp.div[d]);
          hi[d] = sp.size[d];
        }
      GridGenerator::subdivided_hyper_rectangle(tria, div, lo, hi, true);
      std::vector<
        GridTools::PeriodicFacePair<typename Triangulation<dim>::cell_iterator>>
        per;
      for (int d = 0; d < dim; ++d)
        if (sp.periodic[d])
          GridTools::collect_periodic_faces(tria, 2 * d, 2 * d + 1, d, per);
      if (!per.empty())
        tria.add_periodicity(per);
      if (sp.max_weight > 1)
        {
          const uint64_t ws = sp.wseed;
          const int      mw = sp.max_weight;
          tria.signals.weight.connect(
            [ws, mw](const typename Triangulation<dim>::cell_iterator &c,
                     const auto &) -> unsigned int {
              uint64_t h = ws;
              for (int d = 0; d < dim; ++d)
                h = h * 1000003 + uint64_t(c->center()[d] * 4 + 100);
              return unsigned(1 + mw * hash01(h));
            });
        }
      tria.refine_global(sp.n_global);
      tria.repartition();
      for (int i = 0; i < sp.n_adapt; ++i)
        adapt(sp.steps[0].grains);
      setup();
    }
    double
    shape(const GSpec &g, const Point<dim> &p) const
    {
      // normalised elliptic radius, nearest periodic image
      double x[3] = {0, 0, 0};
      for (int d = 0; d < dim; ++d)
        {
          x[d] = p[d] - g.c[d];
          if (sp.periodic[d])
            x[d] -= sp.size[d] * std::round(x[d] / sp.size[d]);
        }
      const double ca = std::cos(g.angle), sa = std::sin(g.angle);
      const double u = ca * x[0] + sa * x[1], v = -sa * x[0] + ca * x[1];
      double q = (u / g.r[0]) * (u / g.r[0]) + (v / g.r[1]) * (v / g.r[1]);
      if (dim == 3)
        q += (x[2] / g.r[2]) * (x[2] / g.r[2]);
      const double dist = (std::sqrt(q) - 1.) * std::min(g.r[0], g.r[1]);
      return g.amp * 0.5 * (1. - std::tanh(2. * dist / sp.width));
    }
    void
    adapt(const std::vector<GSpec> &gs)
    {
      for (const auto &cell : tria.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            double s = 0;
            for (const auto &g : gs)
              s = std::max(s, shape(g, cell->center()));
            const double h = hash01(sp.wseed ^ uint64_t(cell->center()[0] * 64) *
                                                 977 ^
                                    uint64_t(cell->center()[1] * 64) * 131071);
            if ((s > 0.05 && s < 0.95 && h < 0.9) || h < 0.05)
              {
                if (cell->level() < sp.n_global + 2)
                  cell->set_refine_flag();
              }
            else if (cell->level() > sp.n_global && h > 0.5)
              cell->set_coarsen_flag();
          }
      tria.execute_coarsening_and_refinement();
    }
    void
    setup()
    {
      dof.distribute_dofs(fe);
    }
    std::shared_ptr<Utilities::MPI::Partitioner>
    partitioner() const
    {
      return std::make_shared<Utilities::MPI::Partitioner>(
        dof.locally_owned_dofs(),
        DoFTools::extract_locally_relevant_dofs(dof),
        MPI_COMM_WORLD);
    }
    void
    fill(Vec &v, const std::vector<GSpec> &gs, unsigned n_ops, double scale)
    {
      const auto part = partitioner();
      v.reinit(sp.offset + n_ops);
      for (unsigned b = 0; b < v.n_blocks(); ++b)
        v.block(b).reinit(part);
      v.zero_out_ghost_values();
      std::vector<types::global_dof_index> idx(fe.n_dofs_per_cell());
      for (const auto &cell : dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            cell->get_dof_indices(idx);
            for (unsigned i = 0; i < idx.size(); ++i)
              if (part->in_local_range(idx[i]))
                {
                  const auto     p = cell->vertex(i);
                  const uint64_t hp =
                    uint64_t(std::llround(p[0] * 4096)) * 7919 +
                    uint64_t(std::llround(p[1] * 4096)) * 104729 +
                    (dim == 3 ? uint64_t(std::llround(p[dim - 1] * 4096)) * 31 :
                                0);
                  for (unsigned b = 0; b < v.n_blocks(); ++b)
                    {
                      double x = 0;
                      if (int(b) >= sp.offset)
                        {
                          for (const auto &g : gs)
                            if (g.op + sp.offset == b)
                              x = std::max(x, shape(g, p));
                          if (sp.noise > 0)
                            x += sp.noise * (hash01(hp * 31 + b) - 0.5);
                        }
                      else
                        x = hash01(hp * 17 + b);
                      v.block(b)(idx[i]) = scale * x;
                    }
                }
          }
      v.update_ghost_values();
    }
    void
    record_cells(const std::string &key, const Vec &v, unsigned n_ops)
    {
      Out            o;
      uint64_t       n = 0;
      Out            rows;
      Vector<double> val(fe.n_dofs_per_cell());
      std::vector<types::global_dof_index> idx(fe.n_dofs_per_cell());
      auto id = [](const auto &c) {
        return uint64_t(c->global_active_cell_index());
      };
      for (const auto &cell : dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            ++n;
            rows << id(cell) << cell->measure() << cell->diameter()
                 << cell->level();
            const auto cc = cell->center(), bc = cell->barycenter();
            for (int d = 0; d < 3; ++d)
              rows << (d < dim ? cc[std::min(d, dim - 1)] : 0.);
            for (int d = 0; d < 3; ++d)
              rows << (d < dim ? bc[std::min(d, dim - 1)] : 0.);
            std::vector<double> mx(n_ops);
            for (unsigned b = 0; b < n_ops; ++b)
              {
                cell->get_dof_values(v.block(sp.offset + b), val);
                mx[b] = *std::max_element(val.begin(), val.end());
              }
            std::vector<uint64_t> nb, pn;
            for (const auto f : cell->face_indices())
              if (cell->has_periodic_neighbor(f))
                {
                  const auto q = cell->periodic_neighbor(f);
                  if (q->has_children())
                    for (unsigned s = 0; s < (1u << (dim - 1)); ++s)
                      pn.push_back(
                        id(cell->periodic_neighbor_child_on_subface(f, s)));
                  else
                    pn.push_back(id(q));
                }
              else if (!cell->at_boundary(f))
                {
                  const auto q = cell->neighbor(f);
                  if (q->has_children())
                    for (unsigned s = 0; s < (1u << (dim - 1)); ++s)
                      nb.push_back(id(cell->neighbor_child_on_subface(f, s)));
                  else
                    nb.push_back(id(q));
                }
            cell->get_dof_indices(idx);
            std::vector<uint64_t> di(idx.begin(), idx.end());
            rows << mx << nb << pn << di;
          }
      o << n;
      o.s += rows.s;
      record(key, o);
    }
    void
    record_dofs(const std::string &key, const Vec &v)
    {
      Out        o;
      const auto own = dof.locally_owned_dofs();
      o << unsigned(v.n_blocks()) << uint64_t(own.n_elements());
      for (const auto i : own)
        {
          o << uint64_t(i);
          for (unsigned b = 0; b < v.n_blocks(); ++b)
            o << double(v.block(b)(i));
        }
      record(key, o);
    }
    using Tracker = GrainTracker::Tracker<dim, double>;
    void
    record_tracker(const std::string &key, const Tracker &t, unsigned n_ops)
    {
      Out o;
      o << uint64_t(t.get_grains().size());
      for (const auto &[gid, g] : t.get_grains())
        {
          o << gid << g.get_grain_id() << g.get_order_parameter_id()
            << g.get_old_order_parameter_id() << g.get_max_radius()
            << g.get_max_value() << g.get_measure() << int(g.get_dynamics())
            << g.transfer_buffer() << g.n_segments();
          for (const auto &s : g.get_segments())
            {
              for (int d = 0; d < 3; ++d)
                o << (d < dim ? s.get_center()[std::min(d, dim - 1)] : 0.);
              o << s.get_radius() << s.get_measure() << s.get_max_value();
            }
        }
      o << t.get_active_order_parameters();
      o << t.n_segments() << t.empty();
      std::map<std::pair<unsigned, unsigned>, double> dist;
      if (sp.repr != 0)
        for (const auto &[i, gi] : t.get_grains())
          for (const auto &[j, gj] : t.get_grains())
            if (i != j)
              dist[{i, j}] = gi.distance(gj);
      o << dist;
      record(key, o);

      // cell -> particle -> grain map on owned cells
      Out      c;
      uint64_t n = 0;
      Out      rows;
      std::map<std::pair<unsigned, unsigned>, std::pair<unsigned, unsigned>> m;
      for (const auto &cell : dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            ++n;
            const auto gi = cell->global_active_cell_index();
            rows << uint64_t(gi);
            for (unsigned b = 0; b < n_ops; ++b)
              {
                const unsigned pid = t.get_particle_index(b, gi);
                rows << pid;
                if (pid != numbers::invalid_unsigned_int)
                  m[{b, pid}] = t.get_grain_and_segment(b, pid);
              }
          }
      c << n << n_ops;
      c.s += rows.s;
      c << m;
      std::map<std::pair<unsigned, unsigned>, unsigned> si;
      for (const auto &[gid, g] : t.get_grains())
        for (unsigned s = 0; s < g.n_segments(); ++s)
          si[{gid, s}] = t.get_grain_segment_index(gid, s);
      c << si;
      record(key + ".map", c);
    }
    // direct neighbours and wavefront distances computed by the code
    void
    record_neighbors(const std::string &key, const Vec &v, unsigned n_ops)
    {
      std::vector<LinearAlgebra::distributed::Vector<double>> blocks(n_ops);
      Vec                                                     ids(n_ops);
      for (unsigned b = 0; b < n_ops; ++b)
        {
          ids.block(b).reinit(
            tria.global_active_cell_index_partitioner().lock());
          const auto [off, l2g, mx] =
            GrainTracker::detect_local_particle_groups(ids.block(b),
                                                       dof,
                                                       v.block(sp.offset + b),
                                                       true,
                                                       sp.thr_lower);
          GrainTracker::switch_to_global_indices(ids.block(b), l2g, off, -1.);
        }
      const auto nb = GrainTracker::get_direct_neighbors(dof, ids);
      Out        o;
      o << nb;
      std::vector<std::map<std::pair<unsigned, unsigned>, double>> d(n_ops);
      for (unsigned b = 0; b < n_ops; ++b)
        d[b] = GrainTracker::estimate_particle_distances(ids.block(b), dof);
      o << uint64_t(n_ops);
      for (unsigned b = 0; b < n_ops; ++b)
        o << d[b];
      uint64_t n = 0;
      Out      rows;
      for (const auto &cell : dof.active_cell_iterators())
        if (cell->is_locally_owned())
          {
            ++n;
            rows << uint64_t(cell->global_active_cell_index());
            for (unsigned b = 0; b < n_ops; ++b)
              rows << int(ids.block(b)[cell->global_active_cell_index()]);
          }
      o << n;
      o.s += rows.s;
      record(key, o);
    }

    void
    go()
    {
      node_init();
      make_mesh();
      GrainTracker::GrainRepresentation rep =
        sp.repr == 0 ? GrainTracker::GrainRepresentation::spherical :
        sp.repr == 1 ? GrainTracker::GrainRepresentation::elliptical :
                       GrainTracker::GrainRepresentation::wavefront;
      Tracker  t(dof,
                tria,
                sp.greedy,
                sp.allow_new,
                sp.fast,
                sp.max_op,
                rep,
                sp.thr_lower,
                sp.thr_new,
                sp.ratio,
                sp.fixed,
                sp.offset,
                sp.timing,
                sp.logging,
                sp.old_remap);
      unsigned n_ops = sp.n_ops;
      std::map<int, unsigned> op_of;
      for (unsigned k = 0; k < sp.steps.size(); ++k)
        {
          auto gs = sp.steps[k].grains;
          if (sp.steps[k].refine && k > 0)
            {
              adapt(gs);
              setup();
            }
          for (auto &g : gs)
            {
              const auto it = op_of.find(g.id);
              if (it != op_of.end())
                g.op = it->second;
              g.op        = std::min(g.op, n_ops - 1);
              op_of[g.id] = g.op;
            }
          Vec v, w;
          fill(v, gs, n_ops, 1.);
          fill(w, gs, n_ops, -2.5);
          const std::string key = "s" + std::to_string(k);
          record_cells(key + ".cells", v, n_ops);
          if (std::string(prop) == "C07")
            {
              record_neighbors(key + ".nb", v, n_ops);
              continue;
            }
          bool     reass = false, opch = false;
          unsigned ncol = 0;
          try
            {
              std::tie(ncol, reass, opch) = k == 0 ? t.initial_setup(v, n_ops) :
                                                     t.track(v, n_ops);
            }
          catch (const std::exception &e)
            {
              Out o;
              o << std::string(e.what());
              record(key + ".exc", o);
              return;
            }
          {
            Out o;
            o << ncol << reass << opch << n_ops;
            record(key + ".ret", o);
          }
          record_tracker(key + ".trk", t, n_ops);
          const unsigned n_new = t.get_active_order_parameters().size();
          // as the driver does it
          for (auto &g : gs)
            {
              double   best = 1e300;
              unsigned to   = g.op;
              for (const auto &[gid, gr] : t.get_grains())
                if (gr.get_old_order_parameter_id() == g.op)
                  for (const auto &s : gr.get_segments())
                    {
                      double q = 0;
                      for (int d = 0; d < dim; ++d)
                        {
                          double x = s.get_center()[d] - g.c[d];
                          if (sp.periodic[d])
                            x -= sp.size[d] * std::round(x / sp.size[d]);
                          q += x * x;
                        }
                      if (q < best)
                        {
                          best = q;
                          to   = gr.get_order_parameter_id();
                        }
                    }
              op_of[g.id] = to;
            }
          if (std::string(prop) == "C05")
            record_dofs(key + ".before", v);
          unsigned nrem = 0;
          if (n_new > n_ops)
            {
              v.reinit(sp.offset + n_new);
              w.reinit(sp.offset + n_new);
            }
          if (reass)
            nrem = t.remap(std::vector<Vec *>{&v, &w});
          if (n_new > 0 && n_new < n_ops)
            {
              v.reinit(sp.offset + n_new);
              w.reinit(sp.offset + n_new);
            }
          if (std::string(prop) == "C05")
            {
              record_dofs(key + ".after", v);
              record_dofs(key + ".after2", w);
              Out o;
              o << nrem;
              record(key + ".nrem", o);
            }
          if (n_new > 0)
            n_ops = n_new;
        }
    }
  };

  // -------------------------------------------------------- controller side
  struct Cell
  {
    double                m = 0, diam = 0;
    int                   level = 0;
    double                c[3], b[3];
    std::vector<double>   mx;
    std::vector<uint64_t> nb, pn, di;
    int                   rank = -1;
  };
  struct Seg
  {
    double c[3], r, m, v;
  };
  struct Gr
  {
    unsigned         key, id, op, oldop;
    double           rmax, vmax, meas;
    int              dyn;
    double           buf;
    std::vector<Seg> segs;
  };
  struct Trk
  {
    std::map<unsigned, Gr>                          g;
    std::set<unsigned>                              active;
    unsigned                                        nseg;
    bool                                            empty;
    std::map<std::pair<unsigned, unsigned>, double> dist;
  };
  struct Comp
  {
    unsigned              op;
    std::vector<uint64_t> cells;
    double                m = 0, c[3] = {0, 0, 0}, r = 0, v = -1e300;
    int                   group = -1; // periodic group within the op
    std::set<int>         ranks;
  };

  struct World
  {
    std::map<uint64_t, Cell> cells;
    std::vector<Comp>        comps;
    std::vector<std::map<uint64_t, int>> comp_of; // op -> cell -> comp
    int n_groups = 0;
  };

  // Largest radius of the ellipsoid which has the same moments of inertia as
  // the cells of the region and covers them all
  double
  ellipsoid_radius(const World &w, const Comp &cp, int dim, bool &skip)
  {
    // covariance of the cell centers; its eigenvectors are the principal axes
    double C[3][3] = {{0}};
    for (const auto x : cp.cells)
      {
        const auto &c = w.cells.at(x);
        for (int i = 0; i < dim; ++i)
          for (int j = 0; j < dim; ++j)
            C[i][j] += c.m * (c.c[i] - cp.c[i]) * (c.c[j] - cp.c[j]) / cp.m;
      }
    double V[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    for (int sweep = 0; sweep < 60; ++sweep)
      for (int p = 0; p < dim; ++p)
        for (int q = p + 1; q < dim; ++q)
          {
            if (std::abs(C[p][q]) < 1e-300)
              continue;
            const double th = 0.5 * std::atan2(2 * C[p][q], C[q][q] - C[p][p]);
            const double c = std::cos(th), sn = std::sin(th);
            for (int k = 0; k < dim; ++k)
              {
                const double a = C[k][p], b = C[k][q];
                C[k][p] = c * a - sn * b;
                C[k][q] = sn * a + c * b;
              }
            for (int k = 0; k < dim; ++k)
              {
                const double a = C[p][k], b = C[q][k];
                C[p][k] = c * a - sn * b;
                C[q][k] = sn * a + c * b;
              }
            for (int k = 0; k < dim; ++k)
              {
                const double a = V[k][p], b = V[k][q];
                V[k][p] = c * a - sn * b;
                V[k][q] = sn * a + c * b;
              }
          }
    const double l = dim == 2 ? std::sqrt(cp.m) : std::cbrt(cp.m);
    double       r[3], rmax = 0, scale = 1;
    for (int d = 0; d < dim; ++d)
      {
        const double r2 = (dim == 2 ? 4. : 5.) * C[d][d];
        if (r2 > 1e-14 * l * l && r2 < 1e-8 * l * l)
          skip = true;
        r[d] = r2 > 1e-12 * l * l ? std::sqrt(r2) : 0.5 * l;
        rmax = std::max(rmax, r[d]);
      }
    for (const auto x : cp.cells)
      {
        const auto &c = w.cells.at(x);
        double      n = 0, f = 0, v[3];
        for (int d = 0; d < dim; ++d)
          {
            v[d] = c.b[d] - cp.c[d];
            n += v[d] * v[d];
          }
        n = std::sqrt(n);
        if (n < 1e-10 * c.diam)
          continue; // no direction for the cell in the middle of the region
        for (int d = 0; d < dim; ++d)
          {
            double y = 0;
            for (int k = 0; k < dim; ++k)
              y += V[k][d] * v[k];
            y *= (1 + c.diam / 2. / n) / r[d];
            f += y * y;
          }
        scale = std::max(scale, std::sqrt(f));
      }
    return rmax * scale;
  }

  int
  fnd(std::vector<int> &p, int i)
  {
    while (p[i] != i)
      i = p[i] = p[p[i]];
    return i;
  }

  World
  build_world(Sim &s, const Spec &sp, const JobResult &res, const std::string &key,
              unsigned n_ops)
  {
    World w;
    for (int r = 0; r < res.n_ranks; ++r)
      {
        const auto rec = res.get(r, key);
        if (rec.size() != 1)
          s.violate("no-result", "rank " + std::to_string(r) + " " + key);
        In         in(rec[0]->data);
        const auto n = in.get<uint64_t>();
        for (uint64_t i = 0; i < n; ++i)
          {
            const auto id = in.get<uint64_t>();
            Cell       c;
            in.get(c.m);
            in.get(c.diam);
            in.get(c.level);
            for (auto &x : c.c)
              in.get(x);
            for (auto &x : c.b)
              in.get(x);
            in.get(c.mx);
            in.get(c.nb);
            in.get(c.pn);
            in.get(c.di);
            c.rank      = r;
            w.cells[id] = c;
          }
      }
    w.comp_of.resize(n_ops);
    for (unsigned op = 0; op < n_ops; ++op)
      {
        const size_t first = w.comps.size();
        for (auto &[id, c] : w.cells)
          if (c.mx[op] > sp.thr_lower && !w.comp_of[op].count(id))
            {
              Comp                  cp;
              std::vector<uint64_t> st{id};
              const int             ci = w.comps.size();
              w.comp_of[op][id]        = ci;
              while (!st.empty())
                {
                  const auto x = st.back();
                  st.pop_back();
                  cp.cells.push_back(x);
                  for (const auto y : w.cells[x].nb)
                    if (w.cells.count(y) && w.cells[y].mx[op] > sp.thr_lower &&
                        !w.comp_of[op].count(y))
                      {
                        w.comp_of[op][y] = ci;
                        st.push_back(y);
                      }
                }
              cp.op = op;
              for (const auto x : cp.cells)
                {
                  const auto &q = w.cells[x];
                  cp.m += q.m;
                  for (int d = 0; d < 3; ++d)
                    cp.c[d] += q.c[d] * q.m;
                  cp.v = std::max(cp.v, q.mx[op]);
                  cp.ranks.insert(q.rank);
                }
              for (auto &x : cp.c)
                x /= cp.m;
              for (const auto x : cp.cells)
                {
                  const auto &q = w.cells[x];
                  double      d2 = 0;
                  for (int d = 0; d < 3; ++d)
                    d2 += (q.b[d] - cp.c[d]) * (q.b[d] - cp.c[d]);
                  cp.r = std::max(cp.r, std::sqrt(d2) + q.diam / 2);
                }
              w.comps.push_back(cp);
            }
        // periodic grouping
        std::vector<int> p(w.comps.size());
        std::iota(p.begin(), p.end(), 0);
        for (size_t ci = first; ci < w.comps.size(); ++ci)
          for (const auto x : w.comps[ci].cells)
            for (const auto y : w.cells[x].pn)
              {
                const auto it = w.comp_of[op].find(y);
                if (it != w.comp_of[op].end())
                  p[fnd(p, ci)] = fnd(p, it->second);
              }
        std::map<int, int> gid;
        for (size_t ci = first; ci < w.comps.size(); ++ci)
          {
            const auto it = gid.emplace(fnd(p, ci), w.n_groups);
            if (it.second)
              ++w.n_groups;
            w.comps[ci].group = it.first->second;
          }
      }
    return w;
  }

  Trk
  read_trk(const std::string &data)
  {
    Trk        t;
    In         in(data);
    const auto n = in.get<uint64_t>();
    for (uint64_t i = 0; i < n; ++i)
      {
        Gr g;
        in.get(g.key);
        in.get(g.id);
        in.get(g.op);
        in.get(g.oldop);
        in.get(g.rmax);
        in.get(g.vmax);
        in.get(g.meas);
        in.get(g.dyn);
        in.get(g.buf);
        const auto ns = in.get<unsigned>();
        for (unsigned k = 0; k < ns; ++k)
          {
            Seg q;
            for (auto &x : q.c)
              in.get(x);
            in.get(q.r);
            in.get(q.m);
            in.get(q.v);
            g.segs.push_back(q);
          }
        t.g[g.key] = g;
      }
    in.get(t.active);
    in.get(t.nseg);
    in.get(t.empty);
    in.get(t.dist);
    return t;
  }

  double
  cdist(const double *a, const double *b)
  {
    return std::sqrt((a[0] - b[0]) * (a[0] - b[0]) +
                     (a[1] - b[1]) * (a[1] - b[1]) +
                     (a[2] - b[2]) * (a[2] - b[2]));
  }

  void
  random_spec(Sim &s, Spec &sp)
  {
    auto            &W   = s.W;
    const std::string P  = prop;
    sp.dim               = W.chance(0.12) ? 3 : 2;
    const int dim        = sp.dim;
    for (int d = 0; d < dim; ++d)
      {
        sp.div[d]  = 1 + W.draw(dim == 2 ? 3 : 2);
        sp.size[d] = sp.div[d];
      }
    sp.n_global = dim == 2 ? 2 + W.draw(2) : 2;
    for (int d = 0; d < dim; ++d)
      if (W.chance(0.35))
        sp.periodic[d] = true;
    sp.n_adapt = W.draw(3);
    if (dim == 3)
      sp.n_adapt = W.draw(2);
    sp.wseed      = W.draw(1u << 30);
    sp.max_weight = W.chance(0.6) ? 20000 : 1;
    const double h = 1. / (1 << sp.n_global);
    sp.width       = h * W.real(0.3, 2.0, 20);
    sp.noise       = W.chance(0.3) ? 0.012 : 0;
    sp.n_ops       = 1 + W.draw(4);
    sp.greedy      = W.draw(2);
    sp.allow_new   = W.draw(4) != 1;
    sp.fast        = W.draw(2);
    sp.logging     = W.chance(0.3);
    sp.timing      = W.draw(2);
    sp.repr        = W.draw_p(3, P == "C07" ? 0. : 0.5);
    sp.max_op      = W.chance(0.3) ? 2 + W.draw(4) : 12;
    sp.thr_lower   = 0.01;
    static const double tn[] = {0.02, 0.2, 0.6};
    sp.thr_new                = tn[W.draw(3)];
    static const double ra[] = {0.05, 0., 0.3};
    sp.ratio                  = ra[W.draw(3)];
    sp.fixed                  = W.chance(0.3) ? 2 * h : 0.;
    sp.offset                 = W.chance(0.8) ? 2 : int(W.draw(4));
    sp.old_remap              = false;

    const int n_steps = P == "C02" || P == "C07" ? 1 + W.draw(2) :
                        P == "C03"               ? 2 + W.draw(4) :
                                                   1 + W.draw(4);
    const int n_grains = W.draw(dim == 2 ? 10 : 6);
    int       next_id  = 0;
    auto      fresh    = [&]() {
      GSpec g;
      for (int d = 0; d < dim; ++d)
        g.c[d] = W.real(0, sp.size[d], 64);
      const double r = W.real(0.6 * h, 5 * h, 24);
      for (int d = 0; d < 3; ++d)
        g.r[d] = r;
      if (W.chance(0.4))
        {
          g.r[1]  = r * W.real(0.4, 1.0, 6);
          g.angle = W.real(0, 3.14, 8);
        }
      static const double am[] = {1.0, 1.0, 0.5, 0.1, 0.015};
      g.amp                    = am[W.draw_p(5, 0.3)];
      g.op                     = W.draw(sp.n_ops);
      g.id                     = next_id++;
      return g;
    };
    std::vector<GSpec> cur;
    // rings of grains to force dense conflict graphs
    if (P == "C04" && W.chance(0.4))
      {
        const int    n  = 3 + W.draw(6);
        const double cx = sp.size[0] / 2., cy = sp.size[1] / 2.;
        for (int i = 0; i < n; ++i)
          {
            GSpec        g = fresh();
            const double a = 6.2831853 * i / n;
            const double R = W.real(2 * h, 4 * h, 8);
            g.c[0]         = cx + R * std::cos(a);
            g.c[1]         = cy + R * std::sin(a);
            if (dim == 3)
              g.c[2] = sp.size[2] / 2.;
            for (auto &r : g.r)
              r = W.real(0.8 * h, 2 * h, 8);
            cur.push_back(g);
          }
      }
    for (int i = 0; i < n_grains; ++i)
      cur.push_back(fresh());
    for (int k = 0; k < n_steps; ++k)
      {
        Step st;
        if (k > 0)
          {
            std::vector<GSpec> nx;
            for (auto g : cur)
              {
                const int a = W.draw(10);
                if (a == 9)
                  continue; // vanishes
                const double mv = a < 6 ? 0.5 * h : a == 6 ? 2.5 * h : 0.;
                for (int d = 0; d < dim; ++d)
                  {
                    g.c[d] += W.real(-mv, mv, 16);
                    if (sp.periodic[d])
                      g.c[d] -= sp.size[d] * std::floor(g.c[d] / sp.size[d]);
                  }
                if (a == 7)
                  for (auto &r : g.r)
                    r *= 1.25;
                if (a == 8)
                  for (auto &r : g.r)
                    r *= 0.75;
                nx.push_back(g);
              }
            // grains that come close force reassignment
            if (nx.size() > 1 && W.chance(0.4))
              {
                const int i = W.draw(nx.size()), j = W.draw(nx.size());
                if (i != j)
                  for (int d = 0; d < dim; ++d)
                    nx[i].c[d] += 0.3 * (nx[j].c[d] - nx[i].c[d]);
              }
            if (W.chance(sp.allow_new ? 0.5 : 0.12))
              nx.push_back(fresh());
            cur = nx;
            st.refine = W.chance(0.4);
          }
        st.grains = cur;
        sp.steps.push_back(st);
      }
  }

  std::string
  desc(const Spec &sp, int n)
  {
    std::ostringstream o;
    o << prop << " ranks " << n << " dim " << sp.dim << " div";
    for (int d = 0; d < sp.dim; ++d)
      o << " " << sp.div[d] << (sp.periodic[d] ? "p" : "");
    o << " refine " << sp.n_global << "+" << sp.n_adapt << " weights "
      << sp.max_weight << "/" << sp.wseed << " ops " << sp.n_ops << " width "
      << sp.width << " noise " << sp.noise << " greedy " << sp.greedy << " new "
      << sp.allow_new << " fast " << sp.fast << " max_op " << sp.max_op
      << " repr " << sp.repr << " thr " << sp.thr_lower << " " << sp.thr_new
      << " buffer " << sp.ratio << " " << sp.fixed << " offset " << sp.offset
      << " oldremap " << sp.old_remap;
    for (const auto &st : sp.steps)
      {
        o << "\nstep" << (st.refine ? " (adapt)" : "") << ":";
        for (const auto &g : st.grains)
          {
            o << " [" << g.id << ": op" << g.op << " c";
            for (int d = 0; d < sp.dim; ++d)
              o << " " << g.c[d];
            o << " r " << g.r[0] << " " << g.r[1] << " a " << g.angle << " amp "
              << g.amp << "]";
          }
      }
    return o.str();
  }

  // C07 ----------------------------------------------------------------
  void
  check_neighbors(Sim &s, const Spec &sp, const JobResult &res, unsigned k)
  {
    const std::string key = "s" + std::to_string(k);
    const auto        w = build_world(s, sp, res, key + ".cells", sp.n_ops);
    const auto        rec = res.get(-1, key + ".nb");
    using P2              = std::pair<unsigned, unsigned>;
    std::map<std::pair<unsigned, int>, int> pid_comp; // (op,pid) -> comp
    std::map<P2, std::set<P2>>                 nb0;
    std::vector<std::map<P2, double>>          d0;
    for (size_t r = 0; r < rec.size(); ++r)
      {
        In                         in(rec[r]->data);
        std::map<P2, std::set<P2>> nb;
        {
          const auto n = in.get<uint64_t>();
          for (uint64_t i = 0; i < n; ++i)
            {
              P2           a;
              std::set<P2> b;
              in.get(a);
              in.get(b);
              nb[a] = b;
            }
        }
        std::vector<std::map<P2, double>> d(in.get<uint64_t>());
        for (auto &x : d)
          in.get(x);
        const auto n = in.get<uint64_t>();
        for (uint64_t i = 0; i < n; ++i)
          {
            const auto id = in.get<uint64_t>();
            for (int op = 0; op < sp.n_ops; ++op)
              {
                const int  pid = in.get<int>();
                const auto it  = w.comp_of[op].find(id);
                if (pid >= 0 && it != w.comp_of[op].end())
                  pid_comp[{op, pid}] = it->second;
              }
          }
        if (r == 0)
          {
            nb0 = nb;
            d0  = d;
          }
        else
          {
            if (nb != nb0)
              s.violate("rank-disagreement",
                        "direct neighbours differ between ranks");
            if (d != d0)
              s.violate("rank-disagreement", "distances differ between ranks");
          }
      }
    // reference: particles of different order parameters that share a cell or
    // sit on two cells sharing a face
    std::set<std::pair<int, int>> ref, got;
    for (const auto &[id, c] : w.cells)
      for (int i = 0; i < sp.n_ops; ++i)
        if (w.comp_of[i].count(id))
          for (int j = 0; j < sp.n_ops; ++j)
            if (i != j)
              {
                auto add = [&](uint64_t y) {
                  const auto it = w.comp_of[j].find(y);
                  if (it != w.comp_of[j].end())
                    {
                      ref.emplace(w.comp_of[i].at(id), it->second);
                      ref.emplace(it->second, w.comp_of[i].at(id));
                    }
                };
                add(id);
                for (const auto y : c.nb)
                  add(y);
              }
    for (const auto &[a, b] : nb0)
      for (const auto &x : b)
        {
          if (!pid_comp.count({a.first, int(a.second)}) ||
              !pid_comp.count({x.first, int(x.second)}))
            s.violate("unknown-particle", "neighbour entry without particle");
          got.emplace(pid_comp[{a.first, int(a.second)}],
                      pid_comp[{x.first, int(x.second)}]);
        }
    for (const auto &x : ref)
      if (!got.count(x))
        s.violate("missing-neighbour",
                  "components " + std::to_string(x.first) + " (op " +
                    std::to_string(w.comps[x.first].op) + ") and " +
                    std::to_string(x.second) + " (op " +
                    std::to_string(w.comps[x.second].op) +
                    ") touch but are not reported as neighbours");
    for (const auto &x : got)
      if (!ref.count(x))
        s.violate("spurious-neighbour",
                  "components " + std::to_string(x.first) + " and " +
                    std::to_string(x.second) +
                    " are reported as neighbours but do not touch");
    if (!ref.empty())
      s.probes["direct_neighbours"]++;
    // distances: every pair of same-op particles that can be connected through
    // the domain with nothing else between must be known; never shorter than
    // the geometric gap allows
    for (int op = 0; op < sp.n_ops; ++op)
      for (const auto &[ab, dist] : d0[op])
        {
          if (!pid_comp.count({unsigned(op), int(ab.first)}) ||
              !pid_comp.count({unsigned(op), int(ab.second)}))
            s.violate("unknown-particle", "distance entry without particle");
          if (ab.first == ab.second)
            s.violate("self-distance", "distance of a particle to itself");
          if (!(dist >= 0) || dist > 1e10)
            s.violate("bad-distance", str(std::vector<double>{dist}));
          s.probes["wave_distances"]++;
        }
    // the fronts of all particles together cover the (connected) domain, so
    // the pairs with a known distance connect all particles of a field; and a
    // distance is the length of a real path, so it is never below the shortest
    double hmin = 1e300;
    int    lmax = 0, lmin = 1000;
    for (const auto &[id, c] : w.cells)
      {
        hmin = std::min(hmin, c.diam / std::sqrt(double(sp.dim)));
        lmax = std::max(lmax, c.level);
        lmin = std::min(lmin, c.level);
      }
    auto weight = [&](uint64_t id) {
      return double(1 << (lmax - w.cells.at(id).level));
    };
    for (int op = 0; op < sp.n_ops; ++op)
      {
        std::vector<int> comps;
        for (size_t c = 0; c < w.comps.size(); ++c)
          if (int(w.comps[c].op) == op)
            comps.push_back(c);
        if (comps.size() < 2)
          continue;
        std::vector<int> uf(w.comps.size());
        std::iota(uf.begin(), uf.end(), 0);
        for (const auto &[ab, dist] : d0[op])
          {
            const int a = pid_comp[{unsigned(op), int(ab.first)}],
                      b = pid_comp[{unsigned(op), int(ab.second)}];
            uf[fnd(uf, a)] = fnd(uf, b);
            // shortest path a -> b through cells free of this field
            std::map<uint64_t, double>                  best;
            std::set<std::pair<double, uint64_t>>       q;
            for (const auto x : w.comps[a].cells)
              {
                bool boundary = false;
                for (const auto y : w.cells.at(x).nb)
                  boundary |= !w.comp_of[op].count(y);
                if (boundary)
                  {
                    best[x] = weight(x) - 1;
                    q.emplace(best[x], x);
                  }
              }
            double shortest = 1e300;
            while (!q.empty())
              {
                const auto [dd, x] = *q.begin();
                q.erase(q.begin());
                if (dd > best[x])
                  continue;
                for (const auto y : w.cells.at(x).nb)
                  {
                    const auto it = w.comp_of[op].find(y);
                    if (it != w.comp_of[op].end())
                      {
                        if (it->second == b)
                          shortest = std::min(shortest, dd + weight(y) - 1);
                        continue;
                      }
                    const double nd = dd + weight(y);
                    const auto   bi = best.find(y);
                    if (bi == best.end() || nd < bi->second)
                      {
                        best[y] = nd;
                        q.emplace(nd, y);
                      }
                  }
              }
            if (dist < hmin * shortest * (1 - 1e-9))
              s.violate("distance-too-short",
                        fmt("reported %.9g, shortest path %.9g",
                            dist,
                            hmin * shortest));
            if (res.n_ranks == 1 && lmin == lmax && comps.size() == 2)
              {
                s.probes["exact_distance"]++;
                if (!close(dist, hmin * shortest, 1e-9))
                  s.violate("distance-not-shortest",
                            fmt("reported %.9g, shortest path %.9g",
                                dist,
                                hmin * shortest));
              }
            else if (dist > 1.5 * hmin * shortest + 1e-12)
              s.probes["distance_above_1.5x"]++;
          }
        for (int c : comps)
          if (fnd(uf, c) != fnd(uf, comps[0]))
            s.violate("missing-distance",
                      fmt("no chain of distances between two of the %zu "
                          "particles of field %d",
                          comps.size(),
                          op));
      }
    // particles separated by exactly one layer: a cell outside the op's
    // particles that shares faces with both must yield a distance entry
    for (int op = 0; op < sp.n_ops; ++op)
      {
        std::set<std::pair<int, int>> have;
        for (const auto &[ab, dist] : d0[op])
          {
            int a = pid_comp[{unsigned(op), int(ab.first)}],
                b = pid_comp[{unsigned(op), int(ab.second)}];
            have.emplace(std::min(a, b), std::max(a, b));
          }
        for (const auto &[id, c] : w.cells)
          if (!w.comp_of[op].count(id))
            {
              std::set<int> t;
              for (const auto y : c.nb)
                {
                  const auto it = w.comp_of[op].find(y);
                  if (it != w.comp_of[op].end())
                    t.insert(it->second);
                }
              for (int a : t)
                for (int b : t)
                  if (a < b)
                    {
                      s.probes["one_layer_gap"]++;
                      if (!have.count({a, b}))
                        s.violate("missing-distance",
                                  "two particles of order parameter " +
                                    std::to_string(op) +
                                    " are separated by the single cell " +
                                    std::to_string(id) +
                                    " but no distance is known");
                    }
            }
      }
  }

  void
  run(Sim &s)
  {
    const std::string P       = prop;
    const int         n_ranks = 1 + s.W.draw(5);
    Spec              sp;
    random_spec(s, sp);
    s.draw_env();
    const auto d = desc(sp, n_ranks);
    s.note(d);
    s.signature = d;
    Env env     = s.env;
    env.p_probe_miss = std::min(env.p_probe_miss, 0.1);
    const auto res = s.launch(
      n_ranks,
      [&](int) {
        if (sp.dim == 2)
          Node<2>(sp).go();
        else
          Node<3>(sp).go();
      },
      env);
    require_ok(s, res, "tracking");
    if (P == "C07")
      {
        for (unsigned k = 0; k < sp.steps.size(); ++k)
          check_neighbors(s, sp, res, k);
        if (n_ranks > 1)
          s.nontrivial = "multi-rank";
        return;
      }

    Trk      prev;
    bool     have_prev = false;
    unsigned n_ops     = sp.n_ops;
    for (unsigned k = 0; k < sp.steps.size(); ++k)
      {
        const std::string key = "s" + std::to_string(k);
        if (res.get(0, key + ".cells").empty())
          break;
        const auto w = build_world(s, sp, res, key + ".cells", n_ops);
        bool       cross = false;
        for (const auto &c : w.comps)
          cross |= c.ranks.size() > 1;
        if (cross)
          {
            s.nontrivial = "grain spans ranks";
            s.probes["grain_spans_ranks"]++;
          }
        // groups
        struct Group
        {
          unsigned         op;
          std::vector<int> comps;
          double           rmax = 0, vmax = -1e300;
        };
        std::vector<Group> groups(w.n_groups);
        for (size_t c = 0; c < w.comps.size(); ++c)
          {
            auto &g = groups[w.comps[c].group];
            g.op    = w.comps[c].op;
            g.comps.push_back(c);
            g.rmax = std::max(g.rmax, w.comps[c].r);
            g.vmax = std::max(g.vmax, w.comps[c].v);
          }
        auto cc_dist = [&](const Group &g, const Gr &o) {
          double m = 1e300;
          for (int c : g.comps)
            for (const auto &q : o.segs)
              m = std::min(m, cdist(w.comps[c].c, q.c));
          return m;
        };
        for (const auto &g : groups)
          if (g.comps.size() > 1)
            s.probes["periodic_grain"]++;

        // ---- exceptions must be common to all ranks and justified
        const auto exc = res.get(-1, key + ".exc");
        if (!exc.empty())
          {
            if (int(exc.size()) != n_ranks)
              s.violate("partial-exception",
                        "only " + std::to_string(exc.size()) + " of " +
                          std::to_string(n_ranks) + " ranks throw: " +
                          exc[0]->data.substr(8, 300));
            const std::string what = exc[0]->data.substr(8);
            if (what.find("Maximum number of order parameters") !=
                std::string::npos)
              {
                s.probes["max_ops_exceeded"]++;
                if (P == "C04" && sp.repr == 0)
                  {
                    // greedy colouring never needs more than degree+1 colours
                    unsigned deg = 0;
                    for (const auto &a : groups)
                      {
                        if (a.vmax <= sp.thr_lower)
                          continue;
                        unsigned n = 0;
                        for (const auto &b : groups)
                          if (&a != &b)
                            {
                              double gap = 1e300;
                              for (int i : a.comps)
                                for (int j : b.comps)
                                  gap = std::min(
                                    gap,
                                    cdist(w.comps[i].c, w.comps[j].c) -
                                      w.comps[i].r - w.comps[j].r);
                              n += gap <= sp.ratio * (a.rmax + b.rmax) +
                                            sp.fixed + 1e-9;
                            }
                        deg = std::max(deg, n);
                      }
                    if (int(deg) + 1 <= sp.max_op)
                      s.violate("spurious-exception",
                                "reassignment gave up although " +
                                  std::to_string(deg + 1) +
                                  " order parameters suffice");
                  }
              }
            else if (what.find("Unable to match") != std::string::npos)
              {
                s.probes["unmatched_exception"]++;
                if (P == "C03")
                  {
                    if (sp.allow_new)
                      s.violate("spurious-exception", what.substr(0, 300));
                    // some region above the threshold has no mutual match
                    bool just = false;
                    for (const auto &g : groups)
                      if (g.vmax > sp.thr_new)
                        just = true;
                    if (!just || k == 0)
                      s.violate("spurious-exception", what.substr(0, 300));
                    bool all_matched = true;
                    for (const auto &g : groups)
                      if (g.vmax > sp.thr_new)
                        {
                          // mutual nearest old grain?
                          const Gr *best = nullptr;
                          double    bd   = 1e300;
                          for (const auto &[id, o] : prev.g)
                            if (o.op == g.op && cc_dist(g, o) < bd)
                              {
                                bd   = cc_dist(g, o);
                                best = &o;
                              }
                          bool ok = best != nullptr && bd < 1e-9;
                          all_matched &= ok;
                        }
                    if (all_matched)
                      s.violate("spurious-exception",
                                "unmoved grains could not be matched");
                  }
              }
            else
              s.violate("exception", what.substr(0, 600));
            break;
          }

        // ---- every rank must have the same view
        const auto trk_rec = res.get(-1, key + ".trk");
        for (const auto *r : trk_rec)
          if (r->data != trk_rec[0]->data)
            s.violate("rank-disagreement",
                      "tracker state differs between rank " +
                        std::to_string(trk_rec[0]->rank) + " and rank " +
                        std::to_string(r->rank) + " at step " +
                        std::to_string(k));
        const auto ret_rec = res.get(-1, key + ".ret");
        for (const auto *r : ret_rec)
          if (r->data != ret_rec[0]->data)
            s.violate("rank-disagreement", "return values differ");
        if (int(trk_rec.size()) != n_ranks)
          s.violate("no-result", key);
        const Trk t = read_trk(trk_rec[0]->data);
        In        rin(ret_rec[0]->data);
        const auto ncol  = rin.get<unsigned>();
        const auto reass = rin.get<bool>();
        const auto opch  = rin.get<bool>();
        if (rin.get<unsigned>() != n_ops)
          s.violate("harness", "n_ops");

        // ---- cell map, particle map
        std::map<std::pair<unsigned, unsigned>, std::pair<unsigned, unsigned>>
          pmap;
        std::map<std::pair<unsigned, unsigned>, unsigned>           sidx;
        std::map<uint64_t, std::vector<unsigned>>                   cmap;
        for (const auto *r : res.get(-1, key + ".trk.map"))
          {
            In         in(r->data);
            const auto n  = in.get<uint64_t>();
            const auto no = in.get<unsigned>();
            for (uint64_t i = 0; i < n; ++i)
              {
                const auto            id = in.get<uint64_t>();
                std::vector<unsigned> v(no);
                for (auto &x : v)
                  in.get(x);
                cmap[id] = v;
              }
            std::map<std::pair<unsigned, unsigned>,
                     std::pair<unsigned, unsigned>>
              m;
            in.get(m);
            for (const auto &[a, b] : m)
              if (!pmap.emplace(a, b).second && pmap[a] != b)
                s.violate("rank-disagreement",
                          "ranks map particle " + std::to_string(a.second) +
                            " of order parameter " + std::to_string(a.first) +
                            " to different grains");
            std::map<std::pair<unsigned, unsigned>, unsigned> q;
            in.get(q);
            if (!sidx.empty() && q != sidx)
              s.violate("rank-disagreement", "segment numbering differs");
            sidx = q;
          }
        constexpr unsigned inv = numbers::invalid_unsigned_int;
        // component -> (grain, segment)
        std::vector<std::pair<unsigned, unsigned>> cg(w.comps.size(), {inv, inv});
        {
          std::map<std::pair<unsigned, unsigned>, int> pid_comp;
          for (unsigned op = 0; op < n_ops; ++op)
            for (const auto &[id, c] : w.cells)
              {
                const unsigned pid = cmap.at(id)[op];
                const auto     it  = w.comp_of[op].find(id);
                if ((pid != inv) != (it != w.comp_of[op].end()))
                  s.violate("cell-membership",
                            "cell " + std::to_string(id) + " op " +
                              std::to_string(op) + " max " +
                              std::to_string(c.mx[op]) +
                              (pid != inv ? " is" : " is not") +
                              " part of a grain");
                if (pid == inv)
                  continue;
                const auto e = pid_comp.emplace(std::make_pair(op, pid),
                                                it->second);
                if (e.first->second != it->second)
                  s.violate("merged-components",
                            "two disconnected regions of order parameter " +
                              std::to_string(op) + " are one particle");
                const auto gs = pmap.at({op, pid});
                if (cg[it->second].first != inv && cg[it->second] != gs)
                  s.violate("split-component",
                            "one connected region of order parameter " +
                              std::to_string(op) + " belongs to segments " +
                              std::to_string(gs.first) + "/" +
                              std::to_string(gs.second) + " and " +
                              std::to_string(cg[it->second].first) + "/" +
                              std::to_string(cg[it->second].second));
                if (e.second && cg[it->second].first == inv)
                  {
                    // each component exactly one particle
                    for (const auto &[x, ci] : pid_comp)
                      if (ci == it->second && x != std::make_pair(op, pid))
                        s.violate("split-component",
                                  "a connected region got two particle ids");
                  }
                cg[it->second] = gs;
              }
        }

        if (P == "C02")
          {
            // segments <-> components
            std::set<std::pair<unsigned, unsigned>> used;
            unsigned                                n_valid = 0;
            for (size_t c = 0; c < w.comps.size(); ++c)
              {
                const auto [gid, sid] = cg[c];
                const auto &cp        = w.comps[c];
                if (gid == inv)
                  {
                    if (k == 0)
                      s.violate("lost-component",
                                "region without grain at setup");
                    continue; // decided in C03
                  }
                ++n_valid;
                if (!t.g.count(gid))
                  s.violate("unknown-grain", std::to_string(gid));
                const auto &g = t.g.at(gid);
                if (g.id != gid)
                  s.violate("grain-id", "key and id differ");
                if (sid >= g.segs.size())
                  s.violate("segment-range", std::to_string(sid));
                if (!used.insert({gid, sid}).second)
                  s.violate("segment-shared", "two regions share a segment");
                if (!sidx.count({gid, sid}) || sidx[{gid, sid}] >= t.nseg)
                  s.violate("segment-index", "no index for segment");
                if (g.oldop != cp.op)
                  s.violate("order-parameter",
                            "grain found in " + std::to_string(cp.op) +
                              " reported in " + std::to_string(g.oldop));
                const auto &q = g.segs[sid];
                const double hs = std::cbrt(cp.m) + cp.r;
                if (!close(q.m, cp.m, 1e-8))
                  s.violate("measure", fmt("segment measure %.12g, cells %.12g",
                                           q.m,
                                           cp.m));
                if (cdist(q.c, cp.c) > 1e-8 * hs)
                  s.violate("center",
                            fmt("(%.9g %.9g %.9g) vs (%.9g %.9g %.9g)",
                                q.c[0],
                                q.c[1],
                                q.c[2],
                                cp.c[0],
                                cp.c[1],
                                cp.c[2]));
                if (!close(q.v, cp.v, 1e-12))
                  s.violate("max-value", fmt("%.15g vs %.15g", q.v, cp.v));
                if (sp.repr != 1)
                  {
                    if (!close(q.r, cp.r, 1e-8))
                      s.violate("radius", fmt("%.12g vs %.12g", q.r, cp.r));
                  }
                else
                  {
                    // the ellipsoid of inertia, enlarged just enough to cover
                    // all the cells of the region
                    bool         skip = false;
                    const double want = ellipsoid_radius(w, cp, sp.dim, skip);
                    if (!skip && !close(q.r, want, 1e-6))
                      s.violate("ellipsoid-cover",
                                fmt("largest radius %.12g, expected %.12g",
                                    q.r,
                                    want));
                  }
              }
            size_t nseg = 0;
            for (const auto &[gid, g] : t.g)
              {
                nseg += g.segs.size();
                double m = 0, v = -1e300, r = 0;
                for (const auto &q : g.segs)
                  {
                    m += q.m;
                    v = std::max(v, q.v);
                    r = std::max(r, q.r);
                  }
                if (!close(m, g.meas) || !close(v, g.vmax) || !close(r, g.rmax))
                  s.violate("grain-summary", "grain totals inconsistent");
              }
            if (nseg != n_valid)
              s.violate("segment-count",
                        fmt("%zu segments for %u regions", nseg, n_valid));
            std::set<unsigned> idxs;
            for (const auto &[a, b] : sidx)
              if (!idxs.insert(b).second)
                s.violate("segment-index", "duplicate segment index");
            if (t.empty != t.g.empty())
              s.violate("empty-flag", "");
            // periodic grouping
            for (const auto &g : groups)
              for (int c : g.comps)
                if (cg[c].first != cg[g.comps[0]].first)
                  s.violate("periodic-split",
                            "regions joined across a periodic boundary belong "
                            "to different grains");
            for (size_t a = 0; a < groups.size(); ++a)
              for (size_t b = 0; b < a; ++b)
                if (cg[groups[a].comps[0]].first != inv &&
                    cg[groups[a].comps[0]].first == cg[groups[b].comps[0]].first)
                  s.violate("merged-grains",
                            "unconnected regions form one grain");
          }

        if (P == "C03")
          {
            std::set<unsigned> cur;
            for (const auto &g : groups)
              {
                const unsigned gid = cg[g.comps[0]].first;
                for (int c : g.comps)
                  if (cg[c].first != gid)
                    s.violate("periodic-split", "one grain has two ids");
                if (gid != inv && !cur.insert(gid).second)
                  s.violate("duplicate-id",
                            "two grains have id " + std::to_string(gid));
              }
            for (const auto &[gid, g] : t.g)
              if (!cur.count(gid))
                s.violate("phantom-grain", std::to_string(gid));
            if (have_prev)
              for (const auto &g : groups)
                {
                  const unsigned gid = cg[g.comps[0]].first;
                  if (gid == inv)
                    {
                      // only weak regions may be left out
                      if (g.vmax > sp.thr_new)
                        s.violate("lost-grain",
                                  fmt("region with maximum %g is not tracked",
                                      g.vmax));
                      s.probes["weak_region_skipped"]++;
                    }
                  else if (prev.g.count(gid))
                    {
                      if (prev.g.at(gid).op != g.op)
                        s.violate("id-jumped", "id moved to another field");
                    }
                  else
                    {
                      s.probes["new_id"]++;
                      if (g.vmax <= sp.thr_new)
                        s.violate("weak-new-grain",
                                  fmt("new grain with maximum %g", g.vmax));
                      if (!sp.allow_new)
                        s.violate("new-grain-not-allowed", "");
                      for (const auto &[o, x] : prev.g)
                        if (o >= gid)
                          s.violate("stale-id",
                                    "new grain got id " + std::to_string(gid));
                    }
                  // closest candidate of each other, extents intersecting:
                  // identity must persist
                  const Gr *best = nullptr;
                  double    bd = 1e300, second = 1e300;
                  for (const auto &[id, o] : prev.g)
                    if (o.op == g.op)
                      {
                        const double q = cc_dist(g, o);
                        if (q < bd)
                          {
                            second = bd;
                            bd     = q;
                            best   = &o;
                          }
                        else
                          second = std::min(second, q);
                      }
                  if (!best || !(second > bd * (1 + 1e-9) + 1e-9))
                    continue;
                  // in the pair realising bd the extents must intersect
                  bool inter = false;
                  for (int c : g.comps)
                    for (const auto &q : best->segs)
                      if (cdist(w.comps[c].c, q.c) <= bd + 1e-12 &&
                          bd < w.comps[c].r)
                        inter = true;
                  if (!inter)
                    continue;
                  bool mutual = true;
                  for (const auto &h : groups)
                    if (&h != &g && h.op == g.op &&
                        cc_dist(h, *best) <= bd * (1 + 1e-9) + 1e-9)
                      mutual = false;
                  if (!mutual)
                    continue;
                  s.probes["identity_checked"]++;
                  if (gid != best->id)
                    s.violate(
                      "identity-lost",
                      fmt("grain %u (field %u) moved by %g, next candidate at "
                          "%g, but is now grain %d",
                          best->id,
                          g.op,
                          bd,
                          second,
                          gid == inv ? -1 : int(gid)));
                }
          }

        if (P == "C04")
          {
            std::set<unsigned> ops;
            bool               moved = false;
            for (const auto &[id, g] : t.g)
              {
                ops.insert(g.op);
                moved |= g.op != g.oldop;
              }
            if (ops != t.active)
              s.violate("active-set",
                        "active order parameters do not match the grains");
            if (!ops.empty() && *ops.rbegin() != ops.size() - 1)
              s.violate("active-gap",
                        fmt("%zu fields in use but highest is %u",
                            ops.size(),
                            *ops.rbegin()));
            if (moved && !reass)
              s.violate("silent-move", "grain moved but not reported");
            if (opch != (t.active.size() != n_ops))
              s.violate("op-number-flag", "");
            // the limit binds whenever new fields had to be opened
            if (ops.size() > n_ops && int(ops.size()) > sp.max_op)
              s.violate("max-ops",
                        fmt("%zu > %d", ops.size(), sp.max_op));
            if (moved)
              s.probes["reassigned"]++;
            if (ncol)
              s.probes["collisions"]++;
            unsigned coll = 0;
            for (const auto &[i, a] : t.g)
              {
                bool hit = false;
                for (const auto &[j, b] : t.g)
                  if (i != j)
                    {
                      double gap = 1e300;
                      for (const auto &x : a.segs)
                        for (const auto &y : b.segs)
                          gap = std::min(gap, cdist(x.c, y.c) - x.r - y.r);
                      const double lim =
                        sp.ratio * (a.rmax + b.rmax) + sp.fixed;
                      if (gap > lim - 1e-9)
                        continue;
                      if (sp.repr != 0)
                        {
                          const unsigned lo = std::min(i, j),
                                         hi = std::max(i, j);
                          if (!(t.dist.at({lo, hi}) < lim - 1e-9))
                            continue;
                        }
                      if (a.op == b.op)
                        s.violate("collision-left",
                                  fmt("grains %u and %u share field %u with "
                                      "gap %g, limit %g",
                                      i,
                                      j,
                                      a.op,
                                      gap,
                                      lim));
                      if (a.oldop == b.oldop && j < i)
                        hit = true;
                    }
                coll += hit;
              }
            if (sp.repr == 0 && coll > ncol)
              s.violate("collision-count",
                        fmt("%u reported, at least %u", ncol, coll));
          }

        if (P == "C05")
          {
            std::map<uint64_t, std::vector<double>> bef, aft, af2;
            auto rd = [&](const std::string &kk,
                          std::map<uint64_t, std::vector<double>> &o) {
              unsigned nb = 0;
              for (const auto *r : res.get(-1, kk))
                {
                  In in(r->data);
                  nb            = in.get<unsigned>();
                  const auto n  = in.get<uint64_t>();
                  for (uint64_t i = 0; i < n; ++i)
                    {
                      const auto          id = in.get<uint64_t>();
                      std::vector<double> v(nb);
                      for (auto &x : v)
                        in.get(x);
                      o[id] = v;
                    }
                }
              return nb;
            };
            rd(key + ".before", bef);
            const unsigned na = rd(key + ".after", aft);
            rd(key + ".after2", af2);
            const unsigned n_new = t.active.size();
            if (n_new && na != n_new + sp.offset)
              s.violate("block-count", "");
            unsigned nmoved = 0;
            for (const auto &[id, g] : t.g)
              nmoved += g.op != g.oldop;
            for (const auto *r : res.get(-1, key + ".nrem"))
              {
                In in(r->data);
                if (in.get<unsigned>() != nmoved)
                  s.violate("remap-count", "");
              }
            if (nmoved)
              {
                s.probes["remapped"]++;
                if (cross)
                  s.probes["remapped_across_ranks"]++;
              }
            // dof -> (op,grain) in whose cells it lies
            std::map<uint64_t, std::set<std::pair<unsigned, unsigned>>> touch;
            for (unsigned op = 0; op < n_ops; ++op)
              for (const auto &[id, ci] : w.comp_of[op])
                for (const auto dd : w.cells.at(id).di)
                  touch[dd].emplace(op, cg[ci].first);
            for (const auto &[dd, v] : bef)
              {
                const auto &a = aft.at(dd), &a2 = af2.at(dd);
                for (int b = 0; b < sp.offset; ++b)
                  if (a[b] != v[b])
                    s.violate("other-field",
                              "a field that holds no grains changed");
                // expected values of order parameters
                std::map<unsigned, std::pair<double, bool>> exp;
                std::set<unsigned>                          unspecified;
                const auto                                  it = touch.find(dd);
                std::set<unsigned> src, dst;
                if (it != touch.end())
                  for (const auto &[op, gid] : it->second)
                    if (gid != inv && t.g.count(gid) && t.g.at(gid).op != op)
                      {
                        src.insert(op);
                        if (!dst.insert(t.g.at(gid).op).second)
                          unspecified.insert(t.g.at(gid).op);
                      }
                for (unsigned op = 0; op < std::max(n_ops, n_new); ++op)
                  {
                    const double ov =
                      op < n_ops ? v[sp.offset + op] : 0.;
                    const bool gone = op >= n_new && n_new > 0;
                    if (!src.count(op) && !dst.count(op))
                      {
                        if (!gone &&
                            (a[sp.offset + op] != ov ||
                             a2[sp.offset + op] != -2.5 * ov))
                          s.violate("untouched-value",
                                    fmt("dof %lu field %u: %.9g became %.9g, "
                                        "no grain moves here",
                                        dd,
                                        op,
                                        ov,
                                        a[sp.offset + op]));
                        // a dropped field must not have carried a grain
                        if (gone && ov > sp.thr_new && it != touch.end())
                          for (const auto &[o2, gid] : it->second)
                            if (o2 == op && gid != inv)
                              s.violate("dropped-grain",
                                        "field with a grain was dropped");
                        continue;
                      }
                  }
                // moved grains arrive
                if (it != touch.end())
                  for (const auto &[op, gid] : it->second)
                    if (gid != inv && t.g.count(gid) && t.g.at(gid).op != op)
                      {
                        const unsigned to = t.g.at(gid).op;
                        const double   ov = v[sp.offset + op];
                        if (ov <= sp.thr_lower || unspecified.count(to))
                          continue;
                        s.probes["moved_dofs"]++;
                        if (a[sp.offset + to] != ov ||
                            a2[sp.offset + to] != -2.5 * ov)
                          s.violate("value-not-moved",
                                    fmt("dof %lu: grain %u moves %u -> %u, "
                                        "value %.9g, destination holds %.9g "
                                        "(second vector %.9g)",
                                        dd,
                                        gid,
                                        op,
                                        to,
                                        ov,
                                        a[sp.offset + to],
                                        a2[sp.offset + to]));
                        if (!dst.count(op) && (op < n_new || !n_new) &&
                            (a[sp.offset + op] != 0 ||
                             a2[sp.offset + op] != 0))
                          s.violate("value-not-removed",
                                    fmt("dof %lu: grain %u moved %u -> %u but "
                                        "the source holds %.9g",
                                        dd,
                                        gid,
                                        op,
                                        to,
                                        a[sp.offset + op]));
                      }
              }
          }
        prev      = t;
        have_prev = true;
        if (!t.active.empty())
          n_ops = t.active.size();
      }
    if (P != "C07" && s.nontrivial.empty() && n_ranks > 1 &&
        s.probes.count("reassigned"))
      s.nontrivial = "reassigned";
  }
  std::function<void(Sim &)>
  as(const char *p)
  {
    return [p](Sim &s) {
      prop = p;
      run(s);
    };
  }
} // namespace

int
main(int argc, char **argv)
{
  std::map<std::string, Harness> m;
  for (const char *p : {"C02", "C03", "C04", "C05", "C07"})
    m[p] = {"tracker", as(p), zygote_init};
  return sim_main(argc, argv, m);
}
