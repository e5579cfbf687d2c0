// Event trace of the time loop, compiled in with -DRYUJIN_VERIF_HOOKS only.
// Nothing happens unless VERIF_TRACE names a directory; every rank then appends binary
// records to <directory>/trace.<rank>.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <deal.II/base/mpi.h>
#include <deal.II/fe/mapping.h>

namespace ryujin_verif
{
  inline FILE *file()
  {
    static FILE *f = [] {
      const char *d = std::getenv("VERIF_TRACE");
      if (!d)
        return (FILE *)nullptr;
      return std::fopen((std::string(d) + "/trace." + std::to_string(dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD))).c_str(), "ab");
    }();
    return f;
  }

  inline int &skip()
  {
    static int s = std::getenv("VERIF_TRACE_EVERY") ? std::atoi(std::getenv("VERIF_TRACE_EVERY")) : 1;
    return s;
  }

  struct Rec {
    std::vector<double> v;
    char tag;
    explicit Rec(char tag) : tag(tag) {}
    void put() const
    {
      if (!file())
        return;
      const std::uint64_t n = v.size(), t = (unsigned char)tag;
      std::fwrite(&t, 8, 1, file());
      std::fwrite(&n, 8, 1, file());
      std::fwrite(v.data(), 8, n, file());
      std::fflush(file());
    }
  };

  // mesh record: dim, number of owned nodes, then per node position, cell centre (discontinuous
  // spaces: tells the copies apart), lumped mass, constrained?; then the boundary map
  template <typename OD>
  void mesh(const OD &od)
  {
    if (!file())
      return;
    const auto &dh = od.dof_handler();
    constexpr int dim = std::decay_t<decltype(dh)>::dimension;
    const unsigned int n = od.n_locally_owned();
    Rec r('M');
    std::vector<double> x((2 * dim + 2) * n, 0.);
    const auto &fe = dh.get_fe();
    const auto &part = *od.scalar_partitioner();
    std::vector<dealii::types::global_dof_index> g(fe.dofs_per_cell);
    const bool dg = fe.dofs_per_vertex == 0;
    std::vector<double> levels;
    for (const auto &cell : dh.active_cell_iterators()) {
      if (cell->is_locally_owned())
        levels.push_back(cell->level());
      if (cell->is_artificial())
        continue;
      cell->get_dof_indices(g);
      for (unsigned int j = 0; j < g.size(); ++j) {
        if (!part.in_local_range(g[j]))
          continue;
        const unsigned int i = part.global_to_local(g[j]);
        const auto p = od.discretization().mapping().transform_unit_to_real_cell(cell, fe.get_unit_support_points()[j]);
        for (int d = 0; d < dim; ++d) {
          x[i * (2 * dim + 2) + d] = p[d];
          x[i * (2 * dim + 2) + dim + d] = dg ? cell->center()[d] : 0.;
        }
      }
    }
    for (unsigned int i = 0; i < n; ++i) {
      x[i * (2 * dim + 2) + 2 * dim] = od.lumped_mass_matrix().local_element(i);
      x[i * (2 * dim + 2) + 2 * dim + 1] = od.affine_constraints().is_constrained(part.local_to_global(i));
    }
    r.v = {double(dim), double(n), double(levels.size()), double(od.boundary_map().size())};
    r.v.insert(r.v.end(), x.begin(), x.end());
    r.v.insert(r.v.end(), levels.begin(), levels.end());
    for (const auto &e : od.boundary_map()) {
      r.v.push_back(std::get<0>(e));
      for (int d = 0; d < dim; ++d)
        r.v.push_back(std::get<1>(e)[d]);
      r.v.push_back(std::get<2>(e));
      r.v.push_back(std::get<3>(e));
      r.v.push_back(double(std::get<4>(e)));
      for (int d = 0; d < dim; ++d)
        r.v.push_back(std::get<5>(e)[d]);
    }
    r.put();
  }

  template <typename OD, typename SV>
  void state(Rec &r, const OD &od, const SV &sv)
  {
    const auto &U = std::get<0>(sv);
    const unsigned int n = od.n_locally_owned();
    for (unsigned int i = 0; i < n; ++i) {
      const auto t = U.get_tensor(i);
      for (unsigned int k = 0; k < decltype(t)::dimension; ++k)
        r.v.push_back(t[k]);
    }
  }

  // the head of the main loop
  template <typename OD, typename SV>
  void loop(const OD &od, const SV &sv, double t, unsigned int timer_cycle, unsigned int cycle)
  {
    if (!file())
      return;
    static bool first = true;
    if (first)
      mesh(od);
    first = false;
    Rec r('L');
    r.v = {t, double(timer_cycle), double(cycle)};
    if ((cycle - 1) % skip() == 0)
      state(r, od, sv);
    r.put();
  }

  // output(): which files this call writes
  inline void output(const std::string &name, double t, unsigned int cycle, bool full, bool levelsets, bool checkpoint)
  {
    if (!file())
      return;
    Rec r('O');
    r.v = {t, double(cycle), double(full), double(levelsets), double(checkpoint), double(name.size() > 9 && name.substr(name.size() - 9) == "-solution"),
           double(name.find("analytic_solution") != std::string::npos)};
    r.put();
  }

  inline void step(double tau, double t)
  {
    Rec r('S');
    r.v = {tau, t};
    r.put();
  }

  template <typename OD, typename SV>
  void adapt(int after, const OD &od, const SV &sv, double t)
  {
    if (!file())
      return;
    if (after)
      mesh(od);
    Rec r(after ? 'B' : 'A');
    r.v = {t};
    state(r, od, sv);
    r.put();
  }

  // output(): the state with boundary values enforced, as it is handed to files
  template <typename OD, typename SV>
  void prepared(const OD &od, const SV &sv, double t, unsigned int cycle)
  {
    if (!file())
      return;
    Rec r('P');
    r.v = {t, double(cycle)};
    state(r, od, sv);
    r.put();
  }

  template <typename OD, typename SV>
  void checkpoint(const OD &od, const SV &sv, double t, unsigned int cycle)
  {
    if (!file())
      return;
    Rec r('C');
    r.v = {t, double(cycle)};
    state(r, od, sv);
    r.put();
  }

  template <typename OD, typename SV>
  void finish(const OD &od, const SV &sv, double t, unsigned int cycle)
  {
    if (!file())
      return;
    Rec r('E');
    r.v = {t, double(cycle)};
    state(r, od, sv);
    r.put();
  }
} // namespace ryujin_verif

#define RYUJIN_VERIF_HOOK(event, ...) ::ryujin_verif::event(__VA_ARGS__)
