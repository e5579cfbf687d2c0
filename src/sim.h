// Construction of a complete solver stack from a parameter file, per equation
// and dimension, through the public interface of the repository only.
#pragma once
#include "mon.h"

#include <compile_time_options.h>

#include "description.h"

#include "discretization.h"
#include "hyperbolic_module.h"
#include "initial_values.h"
#include "local_index_handling.h"
#include "mesh_adaptor.h"
#include "offline_data.h"
#include "openmp.h"
#include "parabolic_module.h"
#include "postprocessor.h"
#include "quantities.h"
#include "simd.h"
#include "state_vector.h"
#include "time_integrator.h"
#include "vtu_output.h"

#include <deal.II/base/mpi.h>
#include <deal.II/base/parameter_acceptor.h>
#include <deal.II/fe/fe_values.h>

#include <fstream>
#include <memory>
#include <omp.h>
#include <sstream>
#include <vector>

#if defined(VEQ_euler)
using Desc = ryujin::Euler::Description;
#define VEQ_NAME "euler"
#elif defined(VEQ_euler_aeos)
using Desc = ryujin::EulerAEOS::Description;
#define VEQ_NAME "euler_aeos"
#elif defined(VEQ_shallow_water)
using Desc = ryujin::ShallowWater::Description;
#define VEQ_NAME "shallow_water"
#elif defined(VEQ_scalar_conservation)
using Desc = ryujin::ScalarConservation::Description;
#define VEQ_NAME "scalar_conservation"
#elif defined(VEQ_navier_stokes)
using Desc = ryujin::NavierStokes::Description;
#define VEQ_NAME "navier_stokes"
#else
#error "no equation selected"
#endif

namespace sim
{
  using namespace ryujin;

#if defined(VEQ_shallow_water)
  constexpr bool is_sw = true, is_scalar = false, is_gas = false, is_aeos = false;
#elif defined(VEQ_scalar_conservation)
  constexpr bool is_sw = false, is_scalar = true, is_gas = false, is_aeos = false;
#elif defined(VEQ_euler_aeos)
  constexpr bool is_sw = false, is_scalar = false, is_gas = true, is_aeos = true;
#else
  constexpr bool is_sw = false, is_scalar = false, is_gas = true, is_aeos = false;
#endif

  // "#@ key=value" lines of a case file
  struct Options {
    std::map<std::string, std::string> m;
    std::string file;
    std::string s(const std::string &k, const std::string &d = "") const
    {
      auto it = m.find(k);
      return it == m.end() ? d : it->second;
    }
    double d(const std::string &k, double def) const
    {
      auto it = m.find(k);
      return it == m.end() ? def : std::stod(it->second);
    }
    long i(const std::string &k, long def) const
    {
      auto it = m.find(k);
      return it == m.end() ? def : std::stol(it->second);
    }
  };
  inline Options read_options(const std::string &file)
  {
    Options o;
    o.file = file;
    std::ifstream in(file);
    std::string line;
    while (std::getline(in, line)) {
      if (line.rfind("#@ ", 0) != 0)
        continue;
      const auto eq = line.find('=');
      o.m[line.substr(3, eq - 3)] = line.substr(eq + 1);
    }
    return o;
  }

  inline unsigned long long mix(unsigned long long z)
  {
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }

  // the entries the equation dispatcher adds to the equation section
  struct Head : dealii::ParameterAcceptor {
    int dimension = 2;
    std::string equation;
    Head() : dealii::ParameterAcceptor("/B - Equation")
    {
      add_parameter("dimension", dimension, "");
      add_parameter("equation", equation, "");
    }
  };

  template <int dim>
  struct Sim {
    using Number = double;
    using View = typename Desc::template HyperbolicSystemView<dim, Number>;
    using HyperbolicSystem = typename Desc::HyperbolicSystem;
    using ParabolicSystem = typename Desc::ParabolicSystem;
    using state_type = typename View::state_type;
    using StateVector = typename View::StateVector;
    using HV = typename View::HyperbolicVector;
    static constexpr int pd = View::problem_dimension;
    static constexpr int np = View::n_precomputed_values;

    MPI_Comm comm = MPI_COMM_WORLD;
    std::map<std::string, dealii::Timer> timers;
    Head head;
    HyperbolicSystem hs;
    ParabolicSystem ps;
    Discretization<dim> disc;
    OfflineData<dim, Number> od;
    InitialValues<Desc, dim, Number> iv;
    HyperbolicModule<Desc, dim, Number> hm;
    ParabolicModule<Desc, dim, Number> pm;
    TimeIntegrator<Desc, dim, Number> ti;
    MeshAdaptor<Desc, dim, Number> ma;
    Postprocessor<Desc, dim, Number> pp;
    VTUOutput<Desc, dim, Number> vtu;
    Quantities<Desc, dim, Number> qu;

    std::vector<dealii::Point<dim>> pos, cell; // per locally relevant dof
    std::vector<char> free_dof;                // owned and unconstrained
    std::vector<unsigned int> free_list;
    unsigned int n_owned = 0;
    int rank = 0, nranks = 1;
    double diameter = 1.;
    dealii::Point<dim> lo, hi;

    Sim()
        : hs("/B - Equation"), ps("/B - Equation"), disc(comm, "/C - Discretization"),
          od(comm, disc, "/D - OfflineData"), iv(hs, od, "/E - InitialValues"),
          hm(comm, timers, od, hs, iv, "/F - HyperbolicModule"),
          pm(comm, timers, od, hs, ps, iv, "/G - ParabolicModule"),
          ti(comm, od, hm, pm, "/H - TimeIntegrator"),
          ma(comm, od, hs, ps, "/I - MeshAdaptor"),
          pp(comm, od, hs, ps, "/J - VTUOutput"),
          vtu(comm, od, hs, ps, pp, hm.initial_precomputed(), hm.alpha(), "/J - VTUOutput"),
          qu(comm, od, hs, ps, "/K - Quantities")
    {
      rank = dealii::Utilities::MPI::this_mpi_process(comm);
      nranks = dealii::Utilities::MPI::n_mpi_processes(comm);
    }

    void setup(const std::string &base, const int local_refinement = 0, const unsigned long seed = 0)
    {
      disc.prepare(base);
      refine_locally(local_refinement, seed);
      prepare_all(base);
    }

    // mark cells by a position hash (independent of the number of ranks)
    void refine_locally(const int rounds, const unsigned long seed)
    {
      for (int r = 0; r < rounds; ++r) {
        auto &tria = const_cast<typename Discretization<dim>::Triangulation &>(disc.triangulation());
        for (auto &c : tria.active_cell_iterators())
          if ((dim == 1 || c->is_locally_owned()) && mix(poskey(c->center()) + seed * 77 + r) % 3 == 0)
            c->set_refine_flag();
        tria.prepare_coarsening_and_refinement();
        tria.execute_coarsening_and_refinement();
      }
    }

    void prepare_all(const std::string &base)
    {
      od.prepare(pd, np);
      hm.prepare();
      pm.prepare();
      ti.prepare();
      ma.prepare(0.);
      pp.prepare();
      vtu.prepare();
      qu.prepare(base);
      positions();
    }

    static unsigned long long poskey(const dealii::Point<dim> &p)
    {
      unsigned long long h = 1469598103934665603ull;
      for (int d = 0; d < dim; ++d) {
        const long long q = llround(p[d] * 1.e7);
        h = mix(h * 1099511628211ull + (unsigned long long)q);
      }
      return h;
    }

    bool dg() const { return disc.have_discontinuous_ansatz(); }

    void positions()
    {
      const auto &dh = od.dof_handler();
      const auto &part = od.scalar_partitioner();
      n_owned = od.n_locally_owned();
      pos.assign(od.n_locally_relevant(), dealii::Point<dim>());
      cell.assign(od.n_locally_relevant(), dealii::Point<dim>());
      std::vector<char> seen(od.n_locally_relevant(), 0);
      const auto &fe = disc.finite_element();
      const dealii::Quadrature<dim> quad(fe.get_unit_support_points());
      dealii::FEValues<dim> fv(disc.mapping(), fe, quad, dealii::update_quadrature_points);
      std::vector<dealii::types::global_dof_index> idx(fe.dofs_per_cell);
      for (const auto &c : dh.active_cell_iterators()) {
        if (c->is_artificial())
          continue;
        fv.reinit(c);
        c->get_dof_indices(idx);
        for (unsigned int k = 0; k < idx.size(); ++k) {
          if (!part->in_local_range(idx[k]) && !part->is_ghost_entry(idx[k]))
            continue;
          const auto i = part->global_to_local(idx[k]);
          pos[i] = fv.quadrature_point(k);
          cell[i] = c->center();
          seen[i] = 1;
        }
      }
      for (int d = 0; d < dim; ++d)
        lo[d] = 1e300, hi[d] = -1e300;
      for (unsigned int i = 0; i < n_owned; ++i)
        if (seen[i])
          for (int d = 0; d < dim; ++d)
            lo[d] = std::min(lo[d], pos[i][d]), hi[d] = std::max(hi[d], pos[i][d]);
      for (int d = 0; d < dim; ++d) {
        lo[d] = dealii::Utilities::MPI::min(lo[d], comm);
        hi[d] = dealii::Utilities::MPI::max(hi[d], comm);
      }
      free_dof.assign(n_owned, 0);
      free_list.clear();
      const auto &sp = od.sparsity_pattern_simd();
      for (unsigned int i = 0; i < n_owned; ++i)
        if (sp.row_length(i) > 1)
          free_dof[i] = 1, free_list.push_back(i);
      double dd = 0.;
      for (int d = 0; d < dim; ++d)
        dd = std::max(dd, hi[d] - lo[d]);
      diameter = dd;
    }

    // periodic copies: which of them carries the unknown depends on the partition
    bool wrap = false;
    dealii::Point<dim> representative(unsigned int i) const
    {
      auto x = pos[i];
      if (wrap && !dg())
        for (int d = 0; d < dim; ++d)
          if (std::abs(x[d] - hi[d]) < 1e-9)
            x[d] = lo[d];
      return x;
    }

    unsigned long long key(unsigned int i, bool with_cell = true) const
    {
      unsigned long long h = poskey(representative(i));
      if (with_cell && dg())
        h = mix(h ^ mix(poskey(cell[i]) + 17));
      return h;
    }

    StateVector vec() const
    {
      StateVector s;
      Vectors::reinit_state_vector<Desc>(s, od);
      return s;
    }

    bool constrained(unsigned int i) const
    {
      return od.affine_constraints().is_constrained(od.scalar_partitioner()->local_to_global(i));
    }

    // set every owned entry from f(position, key), constrained ones from their own position
    template <typename F>
    void fill(StateVector &s, F &&f) const
    {
      auto &U = std::get<0>(s);
      for (unsigned int i = 0; i < n_owned; ++i)
        U.write_tensor(f(pos[i], i), i);
      U.update_ghost_values();
    }

    std::array<long double, pd> totals(const HV &U) const
    {
      std::array<long double, pd> t;
      t.fill(0.L);
      const auto &m = od.lumped_mass_matrix();
      for (auto i : free_list) {
        const auto u = U.get_tensor(i);
        for (int k = 0; k < pd; ++k)
          t[k] += (long double)m.local_element(i) * (long double)u[k];
      }
      for (auto &x : t)
        x = dealii::Utilities::MPI::sum(double(x), comm) + (long double)0.;
      return t;
    }

    state_type random_state(mon::Rng &r, const std::string &mode) const;
    state_type state_at(const dealii::Point<dim> &x, unsigned int i, const std::string &mode,
                        unsigned long seed, bool cellwise) const;
    void fill_mode(StateVector &s, const std::string &mode, unsigned long seed) const
    {
      if (mode == "initial") {
        std::get<0>(s) = iv.interpolate_hyperbolic_vector(0.);
        return;
      }
      fill(s, [&](const auto &x, unsigned int i) { (void)x; return state_at(representative(i), i, mode, seed, true); });
    }
  };

  // ---------------------------------------------------------------- states
#if defined(VEQ_euler) || defined(VEQ_navier_stokes) || defined(VEQ_euler_aeos)
  template <int dim>
  typename Sim<dim>::state_type make_gas(const Sim<dim> &S, double rho, const std::array<double, dim> &v, double p)
  {
    typename Sim<dim>::state_type U;
    const auto view = S.hs.template view<dim, double>();
    double v2 = 0.;
    U[0] = rho;
    for (int d = 0; d < dim; ++d) {
      U[1 + d] = rho * v[d];
      v2 += v[d] * v[d];
    }
#ifdef VEQ_euler_aeos
    const double e = view.eos_specific_internal_energy(rho, p);
#else
    const double e = p / (rho * (view.gamma() - 1.));
#endif
    U[dim + 1] = rho * (e + .5 * v2);
    return U;
  }
#endif

  template <int dim>
  auto Sim<dim>::random_state(mon::Rng &r, const std::string &mode) const -> state_type
  {
#if defined(VEQ_shallow_water)
    state_type U;
    double h = mode == "vacuum" ? r.lg(1e-9, 1.) : mode == "shock" ? r.lg(.01, 2.) : r.u(.8, 1.2);
    if (mode == "vacuum" && r.u() < .3)
      h = 0.;
    U[0] = h;
    const double vm = mode == "smooth" ? .3 : mode == "shock" ? 3. : 1.;
    for (int d = 0; d < dim; ++d)
      U[1 + d] = h == 0. ? 0. : h * r.u(-vm, vm);
    return U;
#elif defined(VEQ_scalar_conservation)
    state_type U;
    U[0] = mode == "smooth" ? r.u(-.5, .5) : r.u(-2., 2.);
    return U;
#else
    double rho, p;
    std::array<double, dim> v;
    if (mode == "smooth") {
      rho = r.u(.8, 1.2), p = r.u(.8, 1.2);
      for (auto &x : v)
        x = r.u(-.3, .3);
    } else if (mode == "vacuum") {
      rho = r.lg(1e-6, 1.), p = rho * r.lg(1e-4, 1.);
      for (auto &x : v)
        x = r.u(-1., 1.);
    } else {
      rho = r.lg(.1, 5.), p = r.lg(.01, 50.);
      for (auto &x : v)
        x = r.u(-3., 3.);
    }
    return make_gas<dim>(*this, rho, v, p);
#endif
  }

  template <int dim>
  auto Sim<dim>::state_at(const dealii::Point<dim> &x, unsigned int i, const std::string &mode,
                          unsigned long seed, bool cellwise) const -> state_type
  {
    mon::Rng r0(seed * 31 + 5);
    if (mode == "uniform") {
      return random_state(r0, "smooth");
    }
    if (mode == "smooth") {
      const state_type a = random_state(r0, "smooth"), b = random_state(r0, "smooth");
      double s = 0.;
      for (int d = 0; d < dim; ++d)
        s += std::sin(2. * M_PI * ((x[d] - lo[d]) / std::max(hi[d] - lo[d], 1e-30) + r0.u()));
      s = .5 + .5 * s / dim;
      return s * a + (1. - s) * b; // convex combination of admissible states
    }
    if (mode == "shock" || mode == "vacuumshock") {
      const std::string mm = mode == "shock" ? "shock" : "vacuum";
      const state_type a = random_state(r0, mm), b = random_state(r0, mm), c = random_state(r0, mm);
      double s = 0., q = 0.;
      for (int d = 0; d < dim; ++d) {
        s += r0.normal() * ((x[d] - lo[d]) / (hi[d] - lo[d]) - r0.u(.2, .8));
        q += r0.normal() * ((x[d] - lo[d]) / (hi[d] - lo[d]) - r0.u(.2, .8));
      }
      return s > 0. ? a : q > 0. ? b : c;
    }
    // rough / vacuum: independent at every degree of freedom
    mon::Rng r(key(i, cellwise) ^ mix(seed + 99));
    return random_state(r, mode == "rough" ? "shock" : mode);
  }

  inline void sim_flush_denormals()
  {
#if defined(DENORMALS_ARE_ZERO) && defined(__x86_64)
    unsigned int m = __builtin_ia32_stmxcsr();
    __builtin_ia32_ldmxcsr(m | (1 << 6) | (1 << 15));
#endif
  }
} // namespace sim

// ------------------------------------------------------------------- main
#define SIM_MAIN(DISPATCH)                                                                         \
  int main(int argc, char **argv)                                                                  \
  {                                                                                                \
    dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);                                   \
    if (const char *t = getenv("VERIF_THREADS"))                                                   \
      omp_set_num_threads(atoi(t));                                                                \
    sim::sim_flush_denormals();                                                                         \
    for (int k = 1; k < argc; ++k) {                                                               \
      const auto o = sim::read_options(argv[k]);                                                   \
      if (dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0) {                         \
        printf("CASE %s\n", argv[k]);                                                              \
        fflush(stdout);                                                                            \
      }                                                                                            \
      const long e0 = mon::evals();                                                                \
      try {                                                                                        \
        DISPATCH(o);                                                                               \
      } catch (std::exception & e) {                                                               \
        mon::fail("exception/" + o.s("name", "?"), "%.1200s", e.what());                           \
      } catch (ryujin::Restart &) {                                                                \
        mon::fail("restart-escaped/" + o.s("name", "?"), "Restart left the driver");               \
      }                                                                                            \
      if (mon::evals() == e0 && dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0)     \
        printf("STAT empty-case 1\n");                                                             \
      MPI_Barrier(MPI_COMM_WORLD);                                                                 \
    }                                                                                              \
    mon::finish();                                                                                 \
    return 0;                                                                                      \
  }
