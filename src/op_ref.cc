// C05: one explicit step against a plain re-computation of the documented
// scheme; C15: time integrators against their documented composition.
#include "ops.h"
#include <functional>
#include <set>

namespace sim
{
  template <int dim>
  struct Reference {
    using S_t = Sim<dim>;
    using View = typename S_t::View;
    using state_type = typename S_t::state_type;
    using SV = typename S_t::StateVector;
    using Limiter = typename Desc::template Limiter<dim, double>;
    using Indicator = typename Desc::template Indicator<dim, double>;
    using RS = typename Desc::template RiemannSolver<dim, double>;
    using Bounds = typename Limiter::Bounds;

    typename Indicator::Parameters ip;
    typename Limiter::Parameters lp;
    typename RS::Parameters rp;

    Reference()
        : ip("/F - HyperbolicModule/indicator"), lp("/F - HyperbolicModule/limiter"),
          rp("/F - HyperbolicModule/riemann solver")
    {
    }

    std::vector<double> alpha;
    std::vector<state_type> result, low;
    double tau_cfl = 0., tau = 0.;
    std::vector<Bounds> bounds_;
    long n_fail = 0, n_limited = 0, n_edges = 0;

    void step(const S_t &S, const SV &old, const std::vector<const SV *> &stages, const std::vector<double> &w,
              const double cfl, const double tau_given, const double tau_max)
    {
      const auto &od = S.od;
      const auto &sp = od.sparsity_pattern_simd();
      const unsigned int n = od.n_locally_owned();
      const auto view = S.hs.template view<dim, double>();
      const auto &U = std::get<0>(old);
      const auto &pre = std::get<1>(old);
      const auto &ipre = S.hm.initial_precomputed();
      const auto &c = od.cij_matrix();
      const auto &M = od.mass_matrix();
      const auto &lm = od.lumped_mass_matrix();
      const double vol = od.measure_of_omega();
      const bool dg = S.dg();

      auto cols = [&](unsigned int i, std::vector<unsigned int> &v) {
        v.clear();
        const unsigned int st = sp.stride_of_row(i);
        for (unsigned int k = 0; k < sp.row_length(i); ++k)
          v.push_back(sp.columns(i)[k * st]);
      };
      std::vector<unsigned int> js;

      alpha.assign(n, 0.);
      std::vector<std::vector<double>> d(n);
      {
        Indicator ind(S.hs, ip, pre);
        RS rs(S.hs, rp, pre);
        for (unsigned int i = 0; i < n; ++i) {
          cols(i, js);
          if (js.size() == 1)
            continue;
          d[i].assign(js.size(), 0.);
          const auto U_i = U.get_tensor(i);
          ind.reset(i, U_i);
          for (unsigned int k = 0; k < js.size(); ++k) {
            const unsigned int j = js[k];
            const auto U_j = U.get_tensor(j);
            const auto c_ij = c.get_tensor(i, k);
            ind.accumulate(&js[k], U_j, c_ij);
            if (k == 0)
              continue;
            const auto c_ji = c.get_transposed_tensor(i, k);
            const double l1 = c_ij.norm() * rs.compute(U_i, U_j, i, &js[k], c_ij / c_ij.norm());
            const double l2 = c_ji.norm() * rs.compute(U_j, U_i, j, &i, c_ji / c_ji.norm());
            d[i][k] = std::max(l1, l2);
          }
          alpha[i] = ind.alpha(lm.local_element(i) / vol);
        }
      }
      tau_cfl = tau_max;
      for (unsigned int i = 0; i < n; ++i) {
        if (d[i].empty())
          continue;
        double s = 0.;
        for (unsigned int k = 1; k < d[i].size(); ++k)
          s -= d[i][k];
        s = std::min(s, -1e6 * std::numeric_limits<double>::min());
        d[i][0] = s;
        tau_cfl = std::min(tau_cfl, cfl * lm.local_element(i) / (-2. * s));
      }
      tau = tau_given == 0. ? tau_cfl : tau_given;

      double weight = 1.;
      for (double x : w)
        weight -= x;

      result.assign(n, state_type());
      std::vector<state_type> F(n);
      std::vector<std::vector<state_type>> P(n);
      std::vector<Bounds> bnd(n);
      Limiter lim(S.hs, lp, pre);
      for (unsigned int i = 0; i < n; ++i) {
        const auto U_i = U.get_tensor(i);
        result[i] = U_i;
        cols(i, js);
        if (js.size() == 1)
          continue;
        const double m_i = lm.local_element(i);
        const auto f_i = view.flux_contribution(pre, ipre, i, U_i);
        P[i].assign(js.size(), state_type());
        state_type affine, Fi, Ui = U_i;
        [[maybe_unused]] state_type S_i, S_iH;
        if constexpr (View::have_source_terms) {
          S_i = view.nodal_source(pre, i, U_i, tau);
          S_iH = weight * S_i;
          for (unsigned int s = 0; s < w.size(); ++s)
            S_iH += w[s] * view.nodal_source(std::get<1>(*stages[s]), i, std::get<0>(*stages[s]).get_tensor(i), tau);
          Ui += tau * S_i;
          Fi += m_i * S_iH;
        }
        lim.reset(i, U_i, f_i);
#if defined(VEQ_shallow_water)
        for (unsigned int k = 0; k < js.size(); ++k) {
          const auto f_j = view.flux_contribution(pre, ipre, &js[k], U.get_tensor(js[k]));
          affine += view.affine_shift(f_i, f_j, c.get_tensor(i, k), d[i][k]);
        }
        affine *= tau / m_i;
#endif
        if constexpr (View::have_source_terms)
          affine += tau * S_i;
        for (unsigned int k = 0; k < js.size(); ++k) {
          const unsigned int j = js[k];
          const auto U_j = U.get_tensor(j);
          const auto f_j = view.flux_contribution(pre, ipre, &js[k], U_j);
          const auto c_ij = c.get_tensor(i, k);
          const double m_ij = M.get_entry(i, k);
          double factor = .5 * (alpha[i] + alpha[j]);
          if (dg)
            factor = std::max(factor, od.incidence_matrix().get_entry(i, k));
          const double dH = d[i][k] * factor;
          const auto f_ij = view.flux_divergence(f_i, f_j, c_ij);
          const auto sc = c_ij / std::max(d[i][k], 100. * std::numeric_limits<double>::min());
          Ui += tau / m_i * f_ij;
          state_type p = -f_ij;
#if defined(VEQ_shallow_water)
          const auto st = view.equilibrated_states(f_i, f_j);
          const state_type Uij = std::get<0>(st), Uji = std::get<1>(st);
          const state_type diff = Uji - Uij;
          lim.accumulate(U_j, Uij, Uji, sc, affine);
#else
          const state_type diff = U_j - U_i;
          lim.accumulate(&js[k], U_j, f_j, sc, affine);
#endif
          Ui += tau / m_i * d[i][k] * diff;
          Fi += dH * diff;
          p += (dH - d[i][k]) * diff;
          state_type h;
          if constexpr (View::have_high_order_flux)
            h = weight * view.high_order_flux_divergence(f_i, f_j, c_ij);
          else
            h = weight * f_ij;
          for (unsigned int s = 0; s < w.size(); ++s) {
            const auto &Us = std::get<0>(*stages[s]);
            const auto &ps = std::get<1>(*stages[s]);
            const auto a = view.flux_contribution(ps, ipre, i, Us.get_tensor(i));
            const auto b = view.flux_contribution(ps, ipre, &js[k], Us.get_tensor(j));
            if constexpr (View::have_high_order_flux)
              h += w[s] * view.high_order_flux_divergence(a, b, c_ij);
            else
              h += w[s] * view.flux_divergence(a, b, c_ij);
          }
          if constexpr (View::have_source_terms) {
            Fi -= m_ij * S_iH;
            // the diagonal is not limited: its source goes into the others
            p += m_i / double(js.size() - 1) * (S_iH - S_i) - m_ij * S_iH;
            h += weight * m_ij * view.nodal_source(pre, &js[k], U_j, tau);
            for (unsigned int s = 0; s < w.size(); ++s)
              h += w[s] * m_ij *
                   view.nodal_source(std::get<1>(*stages[s]), &js[k], std::get<0>(*stages[s]).get_tensor(j), tau);
          }
          Fi += h;
          p += h;
          P[i][k] = p;
        }
        F[i] = Fi;
        result[i] = Ui;
        bnd[i] = lim.bounds(m_i / vol);
      }
      low = result;
      bounds_ = bnd;
      n_fail = n_limited = n_edges = 0;
      if (lp.iterations() == 0)
        return;

      if (dg) {
        const auto b0 = bnd;
        for (unsigned int i = 0; i < n; ++i) {
          cols(i, js);
          for (unsigned int k = 1; k < js.size(); ++k)
            bnd[i] = Limiter::combine_bounds(bnd[i], b0[js[k]]);
        }
      }
      std::vector<std::vector<double>> L(n);
      std::vector<std::map<unsigned int, unsigned int>> at(n);
      for (unsigned int i = 0; i < n; ++i) {
        cols(i, js);
        if (js.size() == 1)
          continue;
        L[i].assign(js.size(), 1.);
        const double m_i = lm.local_element(i);
        for (unsigned int k = 1; k < js.size(); ++k) {
          const unsigned int j = js[k];
          at[i][j] = k;
          const double m_j = lm.local_element(j);
          double bij, bji;
          if (dg) {
            const double x = od.mass_matrix_inverse().get_entry(i, k);
            bij = m_i * x, bji = m_j * x;
          } else {
            const double m_ij = M.get_entry(i, k);
            bij = -m_ij / m_j, bji = -m_ij / m_i;
          }
          P[i][k] += bij * F[j] - bji * F[i];
          P[i][k] *= tau / m_i * double(js.size() - 1);
          const auto [l, ok] = lim.limit(bnd[i], result[i], P[i][k]);
          L[i][k] = l;
          if (!ok)
            ++n_fail;
        }
      }
      for (unsigned int pass = 0; pass < lp.iterations(); ++pass) {
        auto Ls = L;
        for (unsigned int i = 0; i < n; ++i) {
          if (L[i].empty())
            continue;
          cols(i, js);
          const double lambda = 1. / double(js.size() - 1);
          for (unsigned int k = 1; k < js.size(); ++k) {
            const unsigned int j = js[k];
            double lji = 1.;
            if (!L[j].empty()) {
              auto it = at[j].find(i);
              if (it != at[j].end())
                lji = L[j][it->second];
            }
            Ls[i][k] = std::min(L[i][k], lji);
            ++n_edges;
            if (Ls[i][k] < 1.)
              ++n_limited;
            result[i] += Ls[i][k] * lambda * P[i][k];
          }
        }
        if (pass + 1 == lp.iterations())
          break;
        for (unsigned int i = 0; i < n; ++i)
          for (unsigned int k = 1; k < L[i].size(); ++k) {
            const auto [l, ok] = lim.limit(bnd[i], result[i], (1. - Ls[i][k]) * P[i][k]);
            L[i][k] = (1. - Ls[i][k]) * l;
          }
      }
    }
  };

  template <int dim>
  double scaled_difference(const Sim<dim> &S, const typename Sim<dim>::HV &A,
                           const std::function<typename Sim<dim>::state_type(unsigned int)> &B, unsigned int &where)
  {
    std::array<double, Sim<dim>::pd> scale;
    scale.fill(1e-12);
    double worst = 0.;
    for (auto i : S.free_list) {
      const auto b = B(i);
      for (int k = 0; k < Sim<dim>::pd; ++k)
        scale[k] = std::max(scale[k], std::abs(b[k]));
    }
    // momentum and energy share a scale with the other components of the state
    for (auto i : S.free_list) {
      const auto a = A.get_tensor(i), b = B(i);
      for (int k = 0; k < Sim<dim>::pd; ++k) {
        double e = std::abs(a[k] - b[k]) / scale[k];
        if (std::isfinite(a[k]) != std::isfinite(b[k]))
          e = 1e300;
        if (e > worst)
          worst = e, where = i;
      }
    }
    return worst;
  }

  template <int dim, int st>
  void refstep_impl(const Options &o, Sim<dim> &S, Reference<dim> &R)
  {
    const std::string name = o.s("name");
    const unsigned long seed = o.i("seed", 1);
    const std::string mode = o.s("mode", "shock");
    const double tol = o.d("tol", 1e-8);
    mon::Rng rng(seed * 7 + 3);
    auto old = S.vec(), neu = S.vec();
    S.fill_mode(old, mode, seed);
    S.hm.prepare_state_vector(old, 0.);
    const double cfl = o.d("cfl", .3);
    S.hm.cfl(cfl);
    std::vector<typename Sim<dim>::StateVector> stv(st);
    std::vector<const typename Sim<dim>::StateVector *> sp;
    std::vector<double> w;
    std::array<double, st> wa;
    for (int s = 0; s < st; ++s) {
      stv[s] = S.vec();
      S.fill_mode(stv[s], o.s("stagemode", mode), seed + 13 * (s + 1));
      // stages close to the old state, as in a Runge-Kutta method
      const double th = o.d("blend", .1);
      auto &V = std::get<0>(stv[s]);
      for (unsigned int i = 0; i < S.n_owned; ++i)
        V.write_tensor(th * V.get_tensor(i) + (1. - th) * std::get<0>(old).get_tensor(i), i);
      S.hm.prepare_state_vector(stv[s], 0.);
      wa[s] = rng.u(-.8, 1.2);
      w.push_back(wa[s]);
    }
    for (int s = 0; s < st; ++s)
      sp.push_back(&stv[s]);
    const double inf = std::numeric_limits<double>::max();
    auto call = [&](double tau, double tau_max, bool &restart) -> double {
      restart = false;
      try {
        if constexpr (st == 0)
          return S.hm.template step<0>(old, {}, {}, neu, tau, tau_max);
        else if constexpr (st == 1)
          return S.hm.template step<1>(old, {{stv[0]}}, wa, neu, tau, tau_max);
        else
          return S.hm.template step<2>(old, {{stv[0], stv[1]}}, wa, neu, tau, tau_max);
      } catch (ryujin::Restart &) {
        restart = true;
        return 0.;
      }
    };

    double tau0 = 0.;
    for (int variant = 0; variant < 5; ++variant) {
      // 0: tau from the CFL condition; 1: tau given; 2: a tau_max below the
      // CFL limit; 3: tau_max above; 4: much too large tau with restarts on
      double tau = 0., tm = inf;
      if (variant == 1)
        tau = tau0 * rng.u(.2, .9);
      if (variant == 2)
        tm = tau0 * rng.u(.1, .9);
      if (variant == 3)
        tm = tau0 * rng.u(1.5, 3.);
      if (variant == 4)
        tau = tau0 * o.d("excess", 8.) / cfl;
      S.hm.id_violation_strategy_ = variant == 4 ? IDViolationStrategy::raise_exception : IDViolationStrategy::warn;
      const auto U_before = std::get<0>(old);
      const unsigned int w0 = S.hm.n_warnings(), r0 = S.hm.n_restarts();
      bool restart;
      std::get<0>(neu) = 0.;
      const double ret = call(tau, tm, restart);
      R.step(S, old, sp, w, cfl, tau, tm);
      mon::evals() += 1;
      for (unsigned int i = 0; i < S.n_owned; ++i)
        if ((U_before.get_tensor(i) - std::get<0>(old).get_tensor(i)).norm() != 0.) {
          mon::fail("C05/old-modified/" + name, "node %u of the old state changed", i);
          break;
        }
      const unsigned int dw = S.hm.n_warnings() - w0, dr = S.hm.n_restarts() - r0;
      // restart reporting
      if (variant == 4) {
        if (R.n_fail == 0 && restart)
          mon::fail("C05/restart-spurious/" + name, "restart although every limiter bound is satisfied");
        if (R.n_fail >= 4 && !restart)
          mon::fail("C05/restart-missed/" + name, "%ld edges violate the bounds, no restart", R.n_fail);
        if (restart != (dr == 1))
          mon::fail("C05/restart-count/" + name, "restart=%d counter +%u", int(restart), dr);
        if (dw)
          mon::fail("C05/restart-count/" + name, "warning counted while raising exceptions");
        mon::stat("restarts-raised", restart);
        if (restart)
          continue;
      } else {
        if (restart || dr)
          mon::fail("C05/restart-count/" + name, "restart under the warn strategy");
        if ((R.n_fail == 0 && dw) || (R.n_fail >= 4 && dw != 1))
          mon::fail("C05/warning-count/" + name, "%ld failing edges, %u warnings", R.n_fail, dw);
      }
      if (variant == 0)
        tau0 = R.tau;
      if (!(std::abs(ret - R.tau) <= 1e-10 * R.tau))
        mon::fail("C05/tau/" + name, "variant %d returned %.15g expected %.15g", variant, ret, R.tau);
      double wa_ = 0.;
      for (auto i : S.free_list)
        wa_ = std::max(wa_, std::abs(S.hm.alpha().local_element(i) - R.alpha[i]));
      if (!(wa_ <= 1e-8))
        mon::fail("C05/alpha/" + name, "indicator differs by %.3g", wa_);
      unsigned int wh = 0;
      const double e = scaled_difference<dim>(
          S, std::get<0>(neu), [&](unsigned int i) { return R.result[i]; }, wh);
      mon::stat("max-deviation", e);
      if (!(e <= tol)) {
        std::ostringstream q;
        q.precision(12);
        q << std::get<0>(neu).get_tensor(wh) << " expected " << R.result[wh] << " low " << R.low[wh];
        mon::fail("C05/update/" + name, "variant %d deviates by %.3g (stages %d) at node %u: %s", variant, e, st, wh,
                  q.str().c_str());
      }
      if (R.n_limited > 0 || R.lp.iterations() == 0)
        mon::nontriv() += 1;
      if (variant == 0)
        mon::sample("%s: tau=%.6g, %ld/%ld edges limited, %ld failing, deviation %.2g", name.c_str(), R.tau,
                    R.n_limited, R.n_edges, R.n_fail, e);
      // range monitor of the scalar equation: the low-order update
#if defined(VEQ_scalar_conservation)
      if (o.i("verbose", 0)) {
        double a = 1e300, b = -1e300, c = 1e300, d = -1e300, x = 1e300, y = -1e300;
        for (auto i : S.free_list) {
          a = std::min(a, R.low[i][0]), b = std::max(b, R.low[i][0]);
          c = std::min(c, R.result[i][0]), d = std::max(d, R.result[i][0]);
          x = std::min(x, U_before.get_tensor(i)[0]), y = std::max(y, U_before.get_tensor(i)[0]);
        }
        if (variant == 0) {
          double ob = 0, orr = 0, ol = 0;
          const auto &sp_ = S.od.sparsity_pattern_simd();
          for (auto i : S.free_list) {
            double mn = 1e300, mx = -1e300;
            for (unsigned int k = 0; k < sp_.row_length(i); ++k) {
              const double u = U_before.get_tensor(sp_.columns(i)[k * sp_.stride_of_row(i)])[0];
              mn = std::min(mn, u), mx = std::max(mx, u);
            }
            const auto &b_ = R.bounds_[i];
            ob = std::max(ob, std::max(mn - b_[0], b_[1] - mx));
            orr = std::max(orr, std::max(b_[0] - R.result[i][0], R.result[i][0] - b_[1]));
            ol = std::max(ol, std::max(b_[0] - R.low[i][0], R.low[i][0] - b_[1]));
          }
          long asym = 0, dup = 0, noself = 0;
          for (unsigned int i = 0; i < S.n_owned; ++i) {
            std::set<unsigned int> q;
            if (sp_.columns(i)[0] != i) ++noself;
            for (unsigned int k = 0; k < sp_.row_length(i); ++k) {
              const unsigned int j = sp_.columns(i)[k * sp_.stride_of_row(i)];
              if (!q.insert(j).second) ++dup;
              bool f = false;
              for (unsigned int l = 0; l < sp_.row_length(j); ++l)
                f = f || sp_.columns(j)[l * sp_.stride_of_row(j)] == i;
              if (!f) ++asym;
            }
          }
          printf("INFO asym %ld dup %ld noself %ld n_internal %u n_owned %u\n", asym, dup, noself, S.od.n_locally_internal(), S.n_owned);
          printf("INFO bounds beyond stencil %g, result beyond bounds %g, low beyond bounds %g\n", ob, orr, ol);
        }
        printf("INFO v%d old [%.12g,%.12g] low [%.12g,%.12g] result [%.12g,%.12g] fail=%ld\n", variant, x, y, a, b, c, d,
               R.n_fail);
      }
#endif
    }
  }

  template <int dim>
  void op_refstep(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    Reference<dim> R;
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("c", o.i("refine", 0), o.i("seed", 1));
    const int st = o.i("nstages", 0);
    if (st == 0)
      refstep_impl<dim, 0>(o, S, R);
    else if (st == 1)
      refstep_impl<dim, 1>(o, S, R);
    else
      refstep_impl<dim, 2>(o, S, R);
  }


  // explicit methods with equidistant abscissae c_i = (i-1)/s given by their
  // Butcher tableau; the last row holds the weights b
  struct Tableau {
    int s;
    std::vector<std::vector<double>> a; // a[k] coefficients of the k-th new stage
    int order;
  };
  inline Tableau tableau(const std::string &n)
  {
    if (n == "erk 11")
      return {1, {{1.}}, 1};
    if (n == "erk 22")
      return {2, {{.5}, {0., 1.}}, 2};
    if (n == "erk 33")
      return {3, {{1. / 3.}, {0., 2. / 3.}, {.25, 0., .75}}, 3};
    if (n == "erk 43")
      return {4, {{.25}, {0., .5}, {0., .25, .5}, {0., 2. / 3., -1. / 3., 2. / 3.}}, 3};
    return {5,
            {{.2},
             {0.26075582269554909, 0.13924417730445096},
             {-0.25856517872570289, 0.91136274166280729, -0.05279756293710430},
             {0.21623276431503774, 0.51534223099602405, -0.81662794199265554, 0.88505294668159373},
             {-0.10511678454691901, 0.87880047152100838, -0.58903404061484477, 0.46213380485434047,
              0.35321654878641495}},
            4};
  }
  // the tables above satisfy the order conditions they claim
  inline bool order_conditions(const Tableau &T)
  {
    const int s = T.s;
    std::vector<double> c(s), b = T.a[s - 1];
    std::vector<std::vector<double>> A(s, std::vector<double>(s, 0.));
    for (int i = 1; i < s; ++i)
      for (int j = 0; j < i; ++j)
        A[i][j] = T.a[i - 1][j], c[i] += A[i][j];
    double o1 = 0, o2 = 0, o3 = 0, o3b = 0, o4 = 0, o4b = 0, o4c = 0, o4d = 0, eq = 0;
    for (int i = 0; i < s; ++i) {
      eq = std::max(eq, std::abs(c[i] - double(i) / s));
      o1 += b[i], o2 += b[i] * c[i], o3 += b[i] * c[i] * c[i], o4 += b[i] * c[i] * c[i] * c[i];
      for (int j = 0; j < i; ++j) {
        o3b += b[i] * A[i][j] * c[j], o4b += b[i] * c[i] * A[i][j] * c[j], o4c += b[i] * A[i][j] * c[j] * c[j];
        for (int k = 0; k < j; ++k)
          o4d += b[i] * A[i][j] * A[j][k] * c[k];
      }
    }
    const double e = 1e-9;
    bool ok = eq < e && std::abs(o1 - 1.) < e;
    if (T.order >= 2)
      ok = ok && std::abs(o2 - .5) < e;
    if (T.order >= 3)
      ok = ok && std::abs(o3 - 1. / 3.) < e && std::abs(o3b - 1. / 6.) < e;
    if (T.order >= 4)
      ok = ok && std::abs(o4 - .25) < e && std::abs(o4b - .125) < e && std::abs(o4c - 1. / 12.) < e &&
           std::abs(o4d - 1. / 24.) < e;
    return ok;
  }

  template <int dim>
  struct Compose {
    using SV = typename Sim<dim>::StateVector;
    Sim<dim> &S;
    explicit Compose(Sim<dim> &S_) : S(S_) {}
    static constexpr double inf = std::numeric_limits<double>::max();

    double hyp(SV &base, double t, const std::vector<SV *> &st, const std::vector<double> &w, SV &out, double tau,
               double tau_max = inf)
    {
      S.hm.prepare_state_vector(base, t);
      switch (st.size()) {
      case 0:
        return S.hm.template step<0>(base, {}, {}, out, tau, tau_max);
      case 1:
        return S.hm.template step<1>(base, {{*st[0]}}, {{w[0]}}, out, tau, tau_max);
      case 2:
        return S.hm.template step<2>(base, {{*st[0], *st[1]}}, {{w[0], w[1]}}, out, tau, tau_max);
      case 3:
        return S.hm.template step<3>(base, {{*st[0], *st[1], *st[2]}}, {{w[0], w[1], w[2]}}, out, tau, tau_max);
      default:
        return S.hm.template step<4>(base, {{*st[0], *st[1], *st[2], *st[3]}}, {{w[0], w[1], w[2], w[3]}}, out, tau,
                                     tau_max);
      }
    }
    void blend(SV &x, double a, const SV &y, double b)
    {
      auto &X = std::get<0>(x);
      const auto &Y = std::get<0>(y);
      for (unsigned int i = 0; i < S.n_owned; ++i)
        X.write_tensor(a * X.get_tensor(i) + b * Y.get_tensor(i), i);
    }

    // advance by s substeps; tau==0: determine it with the given bound
    double erk(const Tableau &T, SV &u, double t, double tau, double bound)
    {
      std::vector<SV> Y(T.s + 1);
      Y[0] = u;
      const double c = 1. / T.s;
      for (int k = 0; k < T.s; ++k) {
        Y[k + 1] = S.vec();
        std::vector<SV *> st;
        std::vector<double> w;
        for (int j = 0; j < k; ++j) {
          const double prev = T.a[k - 1][j];
          const double x = (T.a[k][j] - prev) / c;
          st.push_back(&Y[j]);
          w.push_back(x);
        }
        const double r = hyp(Y[k], t + k * (k ? tau : 0.), st, w, Y[k + 1], tau, k == 0 && tau == 0. ? bound : inf);
        if (k == 0)
          tau = r;
      }
      u = Y[T.s];
      return tau;
    }
    double ssp(int order, SV &u, double t, double tau, double bound)
    {
      SV a = S.vec(), b = S.vec(), u0 = u;
      tau = hyp(u0, t, {}, {}, a, tau, tau == 0. ? bound : inf);
      hyp(a, t + tau, {}, {}, b, tau);
      if (order == 2) {
        blend(b, .5, u0, .5);
        u = b;
        return tau;
      }
      blend(b, .25, u0, .75);
      hyp(b, t + .5 * tau, {}, {}, a, tau);
      blend(a, 2. / 3., u0, 1. / 3.);
      u = a;
      return tau;
    }
#ifdef VEQ_navier_stokes
    void par(SV &base, double t, const std::vector<SV *> &st, const std::vector<double> &w, SV &out, double tau)
    {
      switch (st.size()) {
      case 0:
        S.pm.template step<0>(base, t, {}, {}, out, tau);
        return;
      case 1:
        S.pm.template step<1>(base, t, {{*st[0]}}, {{w[0]}}, out, tau);
        return;
      case 2:
        S.pm.template step<2>(base, t, {{*st[0], *st[1]}}, {{w[0], w[1]}}, out, tau);
        return;
      default:
        S.pm.template step<3>(base, t, {{*st[0], *st[1], *st[2]}}, {{w[0], w[1], w[2]}}, out, tau);
      }
    }
#endif
    double run(const std::string &sch, SV &u, double t, double room)
    {
      if (sch == "ssprk 22")
        return ssp(2, u, t, 0., room);
      if (sch == "ssprk 33")
        return ssp(3, u, t, 0., room);
      if (sch.rfind("erk", 0) == 0) {
        const auto T = tableau(sch);
        return T.s * erk(T, u, t, 0., room / T.s);
      }
#ifdef VEQ_navier_stokes
      if (sch.rfind("strang", 0) == 0) {
        const std::string h = sch.substr(7, sch.size() - 10);
        SV v = S.vec();
        double tau, H; // H: length of one hyperbolic half
        if (h == "ssprk 33") {
          tau = ssp(3, u, t, 0., room / 2.);
          H = tau;
        } else {
          const auto T = tableau(h);
          tau = erk(T, u, t, 0., room / (2. * T.s));
          H = T.s * tau;
        }
        // Crank-Nicolson over the whole step: backward Euler to the midpoint
        // and extrapolation
        par(u, t, {}, {}, v, H);
        blend(v, 2., u, -1.);
        if (h == "ssprk 33")
          ssp(3, v, t + H, tau, inf);
        else
          erk(tableau(h), v, t + H, tau, inf);
        u = v;
        return 2. * H;
      }
      SV T0 = S.vec(), T1 = S.vec(), T2 = S.vec(), T3 = S.vec(), T4 = S.vec(), T5 = S.vec();
      if (sch == "imex 11") {
        const double tau = hyp(u, t, {}, {}, T0, 0., room);
        par(T0, t, {}, {}, T1, tau);
        u = T1;
        return tau;
      }
      if (sch == "imex 22") {
        const double tau = hyp(u, t, {}, {}, T0, 0., room / 2.);
        par(T0, t, {}, {}, T1, tau);
        hyp(T1, t + tau, {&u}, {-1.}, T2, tau);
        par(T2, t + tau, {&u}, {1.}, T3, tau);
        u = T3;
        return 2. * tau;
      }
      if (sch == "imex 33") {
        const double g = .5 + .5 / std::sqrt(3.);
        const double tau = hyp(u, t, {}, {}, T0, 0., room / 3.);
        par(T0, t, {&u}, {1. - 3. * g}, T1, tau);
        hyp(T1, t + tau, {&u}, {-1.}, T2, tau);
        par(T2, t + tau, {&u, &T1}, {6. * g - 1., 2. - 9. * g}, T3, tau);
        hyp(T3, t + 2. * tau, {&u, &T1}, {.75, -2.}, T4, tau);
        par(T4, t + 2. * tau, {&u, &T1, &T3}, {.75 - 3. * g, 6. * g - 2., 9. / 4. - 3. * g}, T5, tau);
        u = T5;
        return 3. * tau;
      }
#endif
      throw std::runtime_error("unknown scheme " + sch);
    }
  };

  template <int dim>
  void op_scheme(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("c", o.i("refine", 0), o.i("seed", 1));
    const std::string name = o.s("name"), sch = o.s("scheme"), rec = o.s("recovery", "bang bang control");
    const double cmax = o.d("cfl_max", .5), cmin = o.d("cfl_min", .2);
    const unsigned long seed = o.i("seed", 1);
    if (sch.rfind("erk", 0) == 0 && !order_conditions(tableau(sch))) {
      mon::fail("driver/tableau/" + name, "reference tableau wrong");
      return;
    }
    mon::Rng rng(seed + 4);
    auto s = S.vec();
    S.fill_mode(s, o.s("mode", "smooth"), seed);
    Compose<dim> C(S);
    double t = o.d("t0", 0.);
    double last = 0.;
    long restarts = 0;
    for (int n = 0; n < o.i("steps", 3); ++n) {
      double t_final = std::numeric_limits<double>::max();
      if (n > 0 && rng.u() < .5)
        t_final = t + last * rng.u(.05, .95);
      auto ref = s;
      auto got = s;
      const auto r0 = S.hm.n_restarts(), w0 = S.hm.n_warnings();
      const auto pr0 = S.pm.n_restarts();
      bool threw = false;
      double tau = 0.;
      tau = S.ti.step(got, t, t_final);
      const long dr = S.hm.n_restarts() - r0, dw = S.hm.n_warnings() - w0, dpr = S.pm.n_restarts() - pr0;
      (void)threw;
      // the reference: same modules, own composition
      auto strat = [&](IDViolationStrategy x, double cfl) {
        S.hm.id_violation_strategy_ = x;
        S.pm.id_violation_strategy_ = x;
        S.hm.cfl(cfl);
      };
      double rtau = 0.;
      bool restarted = false;
      const auto r1 = S.hm.n_restarts(), w1 = S.hm.n_warnings(), pr1 = S.pm.n_restarts();
      if (rec == "none") {
        strat(IDViolationStrategy::warn, cmax);
        rtau = C.run(sch, ref, t, t_final - t);
      } else {
        strat(IDViolationStrategy::raise_exception, cmax);
        try {
          rtau = C.run(sch, ref, t, t_final - t);
        } catch (ryujin::Restart &) {
          restarted = true;
          ref = s;
          strat(IDViolationStrategy::warn, cmin);
          rtau = C.run(sch, ref, t, t_final - t);
        }
      }
      const long er = S.hm.n_restarts() - r1, ew = S.hm.n_warnings() - w1, epr = S.pm.n_restarts() - pr1;
      restarts += restarted;
      if (rec == "none")
        S.hm.cfl(cmax); // as left by prepare()
      mon::evals() += 1;
      if (dr != er || dw != ew || dpr != epr)
        mon::fail("C15/restart-policy/" + name, "step %d: restarts %ld/%ld warnings %ld expected %ld/%ld, %ld", n, dr, dpr,
                  dw, er, epr, ew);
      if (!(std::abs(tau - rtau) <= 1e-10 * rtau))
        mon::fail("C15/tau/" + name, "step %d: tau=%.15g expected %.15g", n, tau, rtau);
      if (!(t + tau <= t_final * (1. + 1e-14)))
        mon::fail("C15/final-time/" + name, "step %d passes the final time: %.17g + %.17g > %.17g", n, t, tau, t_final);
      unsigned int wh = 0;
      const double e = scaled_difference<dim>(
          S, std::get<0>(got), [&](unsigned int i) { return std::get<0>(ref).get_tensor(i); }, wh);
      mon::stat("scheme-deviation", e);
      if (!(e <= o.d("tol", 1e-8)))
        mon::fail("C15/state/" + name, "step %d (%s) deviates by %.3g from the documented composition", n, sch.c_str(), e);
      double moved = 0.;
      for (auto i : S.free_list)
        moved = std::max(moved, (std::get<0>(got).get_tensor(i) - std::get<0>(s).get_tensor(i)).norm());
      if (!std::isfinite(moved))
        break; // blew up in both, at a CFL number beyond the limit and without recovery
      if (moved > 1e-10)
        mon::nontriv() += 1;
      if (n == 0)
        mon::sample("%s: tau=%.6g restarted=%d deviation=%.2g moved=%.3g", name.c_str(), tau, int(restarted), e, moved);
      s = got;
      t += tau;
      last = tau;
    }
    mon::stat("restarted-steps", restarts);
  }

  // Water sliding over a flat bed with friction has a closed solution: each
  // integrator has to attain its formal order in time.
  template <int dim>
  void op_order(const Options &o)
  {
#if defined(VEQ_shallow_water)
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("c", o.i("refine", 0), o.i("seed", 1));
    const std::string name = o.s("name"), sch = o.s("scheme");
    const double h = o.d("h", 1.), v0 = o.d("v", 1.), mann = o.d("manning", .1), g = o.d("g", 9.81);
    const int order = o.i("order", 1);
    const double K = g * mann * mann / std::pow(h, 4. / 3.) * v0;
    const double T = o.d("KT", .2) / K;
    dealii::Tensor<1, dim> dir;
    mon::Rng rng(o.i("seed", 1));
    for (int d = 0; d < dim; ++d)
      dir[d] = rng.normal();
    dir /= dir.norm();
    auto run = [&](int n, double &spread, double &reached) {
      auto s = S.vec();
      S.fill(s, [&](const dealii::Point<dim> &, unsigned int) {
        typename Sim<dim>::state_type U;
        U[0] = h;
        for (int d = 0; d < dim; ++d)
          U[1 + d] = h * v0 * dir[d];
        return U;
      });
      S.hm.prepare_state_vector(s, 0.);
      double t = 0.;
      for (int k = 0; k < n; ++k) {
        const double target = T * (k + 1) / n;
        const double tau = S.ti.step(s, t, target);
        if (!(std::abs(t + tau - target) < 1e-8 * target)) {
          reached = -1.;
          return 0.;
        }
        t += tau;
      }
      reached = t;
      double err = 0.;
      const double want = v0 / (1. + K * T);
      for (auto i : S.free_list) {
        const auto U = std::get<0>(s).get_tensor(i);
        double e = std::abs(U[0] - h) / h;
        for (int d = 0; d < dim; ++d)
          e = std::max(e, std::abs(U[1 + d] / h - want * dir[d]) / v0);
        err = std::max(err, e);
      }
      err = dealii::Utilities::MPI::max(err, S.comm);
      (void)spread;
      return err;
    };
    const int n0 = o.i("n0", 2);
    double sp = 0., r0, r1, r2;
    const double e0 = run(n0, sp, r0), e1 = run(2 * n0, sp, r1), e2 = run(4 * n0, sp, r2);
    if (r0 < 0. || r1 < 0. || r2 < 0.) {
      mon::stat("order-cfl-too-small", 1);
      return; // the requested steps exceed the CFL limit: nothing observed
    }
    mon::evals() += 3;
    mon::nontriv() += 3;
    const double p1 = std::log2(e0 / e1), p2 = std::log2(e1 / e2);
    mon::sample("%s: errors %.3g %.3g %.3g orders %.3f %.3f", name.c_str(), e0, e1, e2, p1, p2);
    const double floor = 1e-12;
    if (!(e2 <= floor || p2 > order - .3 || (p1 > order - .3 && e2 < 1e-11)))
      mon::fail("C15/order/" + name, "%s: errors %.3g %.3g %.3g, orders %.3f %.3f instead of %d", sch.c_str(), e0, e1, e2, p1, p2, order);
#else
    (void)o;
#endif
  }
} // namespace sim
INSTANTIATE_OP(op_order)
INSTANTIATE_OP(op_refstep)
INSTANTIATE_OP(op_scheme)
