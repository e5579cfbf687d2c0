// C01 / C02: conservation and admissibility monitors attached to real runs.
#include "ops.h"

namespace sim
{
  template <int dim>
  struct Health {
    double bad = 0;              // number of inadmissible nodes
    double smin = 1e300;         // gas: minimal specific entropy
    double umin = 1e300, umax = -1e300;
    double nan = 0;
    double worst = 1e300;
    std::string what;
  };

  template <int dim>
  Health<dim> health(const Sim<dim> &S, const typename Sim<dim>::HV &U)
  {
    Health<dim> h;
    const auto view = S.hs.template view<dim, double>();
    for (auto i : S.free_list) {
      const auto u = U.get_tensor(i);
      bool fin = true;
      for (int k = 0; k < Sim<dim>::pd; ++k)
        fin = fin && std::isfinite(u[k]);
      if (!fin) {
        h.nan += 1;
        continue;
      }
#if defined(VEQ_scalar_conservation)
      h.umin = std::min(h.umin, u[0]);
      h.umax = std::max(h.umax, u[0]);
#elif defined(VEQ_shallow_water)
      h.umin = std::min(h.umin, u[0]);
      h.umax = std::max(h.umax, u[0]);
      if (u[0] < h.worst)
        h.worst = u[0];
      if (u[0] < 0.)
        h.bad += 1;
#else
      double m2 = 0.;
      for (int d = 0; d < dim; ++d)
        m2 += u[1 + d] * u[1 + d];
      const double rho = u[0], e = u[dim + 1] - .5 * m2 / rho;
#if defined(VEQ_euler_aeos)
      const double b = view.eos_interpolation_b(), pinf = view.eos_interpolation_pinfty(),
                   q = view.eos_interpolation_q();
      const double shift = e - rho * q - pinf * (1. - b * rho);
      if (!(rho > 0.) || !(shift > 0.) || !(1. - b * rho > 0.))
        h.bad += 1;
      h.worst = std::min(h.worst, std::min(rho, shift));
#else
      if (!(rho > 0.) || !(e > 0.))
        h.bad += 1;
      h.worst = std::min(h.worst, std::min(rho, e));
      const double g = view.gamma();
      h.smin = std::min(h.smin, (g - 1.) * e / std::pow(rho, g));
#endif
#endif
    }
    h.bad = dealii::Utilities::MPI::sum(h.bad, S.comm);
    h.nan = dealii::Utilities::MPI::sum(h.nan, S.comm);
    h.smin = dealii::Utilities::MPI::min(h.smin, S.comm);
    h.umin = dealii::Utilities::MPI::min(h.umin, S.comm);
    h.umax = dealii::Utilities::MPI::max(h.umax, S.comm);
    h.worst = dealii::Utilities::MPI::min(h.worst, S.comm);
    return h;
  }

  template <int dim>
  void op_march(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("c", o.i("refine", 0), o.i("seed", 1));
    auto s = S.vec();
    const std::string mode = o.s("mode", "shock"), name = o.s("name", o.file);
    S.fill_mode(s, mode, o.i("seed", 1));
    double t = 0.;
    S.hm.prepare_state_vector(s, t);
    const int steps = o.i("steps", 3);
    const std::string conserve = o.s("conserve", "all"); // all | noflux | none
    const double tol = o.d("tol", 1e-11);
    const bool root = S.rank == 0;
    const long nfree = dealii::Utilities::MPI::sum((double)S.free_list.size(), S.comm);
    double r_max = 0.;
    {
      const double f = o.d("relax", 1.);
      const double vol = S.od.measure_of_omega();
      for (auto i : S.free_list) {
        const double hd = S.od.lumped_mass_matrix().local_element(i) / vol;
        // all documented relaxation windows are of this form, capped at one
        r_max = std::max(r_max, std::min(1., f * std::pow(hd, 1.5 / dim)));
      }
      r_max = dealii::Utilities::MPI::max(r_max, S.comm);
    }
    const int nst = o.i("stages", 1);
    auto h0 = health<dim>(S, std::get<0>(s));
    if (h0.bad || h0.nan) {
      mon::fail("driver/inadmissible-start/" + name, "%g", h0.bad);
      return;
    }
    long changed = 0;
    double worst = 1e300;
    for (int n = 0; n < steps; ++n) {
      const auto T0 = S.totals(std::get<0>(s));
      // magnitude of what was added up
      std::array<double, Sim<dim>::pd> scale;
      scale.fill(0.);
      {
        const auto &m = S.od.lumped_mass_matrix();
        for (auto i : S.free_list) {
          const auto u = std::get<0>(s).get_tensor(i);
          const double mi = m.local_element(i);
          for (int k = 0; k < Sim<dim>::pd; ++k) {
            double a = std::abs(u[k]);
#if defined(VEQ_scalar_conservation)
            a += 1.;
#elif defined(VEQ_shallow_water)
            a += u[0] * std::sqrt(9.81 * u[0]) + 1e-8;
#else
            a += k == 0 ? 0. : k == dim + 1 ? 0. : std::sqrt(2. * u[0] * u[dim + 1]);
#endif
            scale[k] += mi * a;
          }
        }
        for (auto &x : scale)
          x = dealii::Utilities::MPI::sum(x, S.comm);
      }
      const auto old = std::get<0>(s);
      const auto w0 = S.hm.n_warnings();
      const auto re0 = S.hm.n_restarts();
      const double tau = S.ti.step(s, t);
      if (!(tau > 0.) || !std::isfinite(tau)) {
        mon::fail("C02/step-size/" + name, "tau=%g at step %d", tau, n);
        return;
      }
      t += tau;
      const auto T1 = S.totals(std::get<0>(s));
      const bool warned = S.hm.n_warnings() != w0;
      for (auto i : S.free_list)
        if ((std::get<0>(s).get_tensor(i) - old.get_tensor(i)).norm() > 0.)
          ++changed;
      auto h1 = health<dim>(S, std::get<0>(s));
      worst = std::min(worst, h1.worst);
      if (root) {
        mon::evals() += 1;
        for (int k = 0; k < Sim<dim>::pd; ++k) {
          if (conserve == "none" || (conserve == "first" && k > 0))
            continue;
          if (conserve == "noflux" && !(k == 0 || (is_gas && k == dim + 1)))
            continue;
          const double err = std::abs(double(T1[k] - T0[k]));
          if (!(err <= tol * scale[k]))
            mon::fail("C01/total/" + name,
                      "step %d component %d total %.17g -> %.17g (rel %.3g) scheme=%s mode=%s", n, k, double(T0[k]),
                      double(T1[k]), err / scale[k], o.s("scheme").c_str(), mode.c_str());
        }
        if (h1.nan > 0)
          mon::fail("C02/nan/" + name, "step %d: %g nodes not finite", n, h1.nan);
        if (!warned) {
          if (h1.bad > 0)
            mon::fail("C02/admissible/" + name, "step %d: %g nodes inadmissible, worst %.6g", n, h1.bad, h1.worst);
        } else {
          // also the last resort of the CFL recovery must accept admissible states only
          if (h1.bad > 0)
            mon::fail("C02/admissible-after-warning/" + name, "step %d: %g nodes, worst %.6g", n, h1.bad, h1.worst);
        }
        if (warned && o.i("nowarn", 0))
          mon::fail("C02/permitted-step/" + name,
                    "step %d at the permitted step size left the invariant domain (%u warnings)", n,
                    S.hm.n_warnings());
        if (o.i("norestart", 0) && S.hm.n_restarts() != re0)
          mon::fail("C02/permitted-step/" + name, "step %d at the permitted step size was rejected", n);
#if defined(VEQ_scalar_conservation)
        // every stage may use the relaxation window r |u|
        const double slack = nst * r_max * 1.05 * std::max(std::abs(h0.umax), std::abs(h0.umin)) + 1e-9 * (std::abs(h0.umax) + std::abs(h0.umin));
        if (!warned && (h1.umin < h0.umin - slack || h1.umax > h0.umax + slack))
          mon::fail("C02/range/" + name, "step %d: [%.12g,%.12g] outside [%.12g,%.12g] slack %.3g", n, h1.umin,
                    h1.umax, h0.umin, h0.umax, slack);
        if (o.d("relax", 1.) != 0.)
          h0 = h1;
#elif defined(VEQ_euler)
        if (o.i("entropy", 1) && !warned) {
          const double bound = h0.smin * std::pow(1. - r_max, nst) * (1. - 1e-7 * nst);
          if (!(h1.smin >= bound))
            mon::fail("C02/entropy/" + name, "step %d: min entropy %.12g -> %.12g, allowed %.12g (r=%g)", n, h0.smin,
                      h1.smin, bound, r_max);
        }
        if (o.d("relax", 1.) != 0.)
          h0 = h1;
#endif
      }
      if (h1.nan > 0 || h1.bad > 0)
        break;
      S.hm.prepare_state_vector(s, t);
    }
    changed = dealii::Utilities::MPI::sum((double)changed, S.comm);
    if (root) {
      if (changed > 0)
        mon::nontriv() += 1;
      mon::sample("%s: %ld free nodes, %d steps to t=%.4g, %ld nodal changes, %u restarts, %u warnings, worst=%.3g r=%.3g",
                  name.c_str(), nfree, steps, t, changed, S.hm.n_restarts(), S.hm.n_warnings(), worst, r_max);
      if (o.i("verbose", 0))
        printf("INFO %s changed=%ld restarts=%u warnings=%u worst=%.3g smin=%.6g r=%.3g t=%.4g\n", name.c_str(), changed,
               S.hm.n_restarts(), S.hm.n_warnings(), worst, h0.smin, r_max, t);
    }
  }
} // namespace sim
INSTANTIATE_OP(op_march)
