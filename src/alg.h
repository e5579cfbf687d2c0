// State population shared by the algebra monitors.
#pragma once
#include "ops.h"

namespace sim
{
  using LD = long double;

  template <int dim>
  struct Alg {
    using St = typename Sim<dim>::state_type;
    using View = typename Sim<dim>::View;
    Sim<dim> &S;
    typename Sim<dim>::StateVector sv;
    mon::Rng r;
    View v;
    std::vector<unsigned int> ids;
    std::string mode;

    Alg(Sim<dim> &S, const Options &o)
        : S(S), sv(S.vec()), r(o.i("seed", 1)), v(S.hs.template view<dim, double>()), mode(o.s("mode", "wide"))
    {
      S.fill(sv, [&](const auto &, unsigned int) { return make(); });
      S.hm.prepare_state_vector(sv, 0.);
      ids = S.free_list;
    }
    const auto &prec() const { return std::get<1>(sv); }
    St U(unsigned int i) const { return std::get<0>(sv).get_tensor(i); }
    unsigned int pick() { return ids[r.i(0, int(ids.size()) - 1)]; }
    dealii::Tensor<1, dim> direction()
    {
      dealii::Tensor<1, dim> n;
      if (r.u() < .3) {
        n[r.i(0, dim - 1)] = r.sgn();
        return n;
      }
      do
        for (int d = 0; d < dim; ++d)
          n[d] = r.normal();
      while (n.norm() < 1e-3);
      n /= n.norm();
      return n;
    }

    // a few base states that are met again and again give equal and nearly
    // equal neighbours, the rest spans many orders of magnitude
    std::vector<St> base;
    St make()
    {
      if (base.size() > 3 && r.u() < .2) {
        St u = base[r.i(0, int(base.size()) - 1)];
        if (r.u() < .5)
          u *= 1. + r.sgn() * r.lg(1e-15, 1e-3);
        return u;
      }
      St u = fresh();
      if (base.size() < 6)
        base.push_back(u);
      return u;
    }
    St fresh()
    {
#if defined(VEQ_shallow_water)
      St u;
      const double k = r.u();
      double h = k < .08 ? 0. : k < .3 ? r.lg(1e-6, 1e3) : r.lg(1e-2, 10.);
      if (mode == "mild")
        h = r.lg(.05, 5.);
      u[0] = h;
      const double c = std::sqrt(v.gravity() * h);
      const double fr = mode == "mild" ? r.u(0., 2.) : r.lg(1e-3, 50.);
      for (int d = 0; d < dim; ++d)
        u[1 + d] = r.u() < .15 ? 0. : h * c * fr * r.u(-1., 1.);
      return u;
#elif defined(VEQ_scalar_conservation)
      St u;
      const double k = r.u();
      u[0] = k < .05 ? 0. : k < .4 ? r.u(-1., 1.) : mode == "mild" ? r.u(-3., 3.) : r.sgn() * r.lg(1e-6, 20.);
      return u;
#else
      const bool mild = mode == "mild";
      double rho = mild ? r.lg(.1, 10.) : r.lg(1e-6, 1e4);
      double p = mild ? r.lg(.1, 10.) : rho * r.lg(1e-6, 1e6);
      double rhomax = 1e300;
#ifdef VEQ_euler_aeos
      const double b = v.eos_interpolation_b();
      if (b > 0.) {
        rhomax = .9 / b;
        rho = rhomax * (mild ? r.u(.05, .9) : r.lg(1e-5, 1.));
        p = mild ? r.lg(1., 10.) : rho * r.lg(.1, 1e4);
      }
      const double pinf = v.eos_interpolation_pinfty();
      const double pt = p + pinf;
#else
      const double pt = p;
#endif
      const double c = std::sqrt(1.4 * pt / rho);
      const double mach = mild ? r.u(0., 2.) : r.u() < .2 ? 0. : r.lg(1e-4, 200.);
      std::array<double, dim> w;
      for (auto &x : w)
        x = r.u() < .1 ? 0. : c * mach * r.u(-1., 1.);
#ifdef VEQ_euler_aeos
      // outside of the region of hyperbolicity of the equation of state
      const double cs = v.eos_speed_of_sound(rho, v.eos_specific_internal_energy(rho, p));
      if (!(cs * cs > .3 * p / rho))
        return fresh();
      // the interpolatory surrogate needs a positive shifted energy
      const double er = rho * v.eos_specific_internal_energy(rho, p);
      if (!(er - rho * v.eos_interpolation_q() - pinf * (1. - b * rho) > .01 * std::abs(er)))
        return fresh();
#endif
      return make_gas<dim>(S, rho, w, p);
#endif
    }
  };

} // namespace sim
