// Node-local algebra under random, extreme and degenerate data: limiter
// contract (C03).  All calls go through the public
// classes of the repository with a state vector prepared by the module.
#include "alg.h"

namespace sim
{
  // ------------------------------------------------------------ C03 limiter
#if defined(VEQ_euler) || defined(VEQ_navier_stokes)
  template <typename View, typename B>
  LD gas_psi(const View &v, const B &b, const LD rho, const LD re, LD &scale)
  {
    const LD g = v.gamma();
    const LD x = LD(b[2]) * std::pow(rho, g + 1.L);
    scale = x;
    return rho * re - x;
  }
#elif defined(VEQ_euler_aeos)
  template <typename View, typename B>
  LD gas_psi(const View &v, const B &b, const LD rho, const LD re, LD &scale)
  {
    const LD g = b[3], bb = v.eos_interpolation_b(), pinf = v.eos_interpolation_pinfty(), q = v.eos_interpolation_q();
    const LD cov = 1.L - bb * rho;
    const LD x = LD(b[2]) * std::pow(rho, g + 1.L) * std::pow(cov, -(g - 1.L));
    scale = x + rho * std::abs(rho * q) + rho * std::abs(pinf * cov);
    return rho * (re - rho * q - pinf * cov) - x;
  }
#endif

  // smallest normalised distance of U + t P to the bounds (negative: violated)
  template <int dim, typename View, typename B, typename St>
  LD margin(const View &v, const B &b, const St &U, const St &P, const LD t, const std::pair<bool, bool> sw, int &which)
  {
    LD m = 1e30L;
    auto upd = [&](LD x, int w) {
      if (!(x >= m))
        m = x, which = w;
    };
#if defined(VEQ_scalar_conservation)
    (void)v, (void)sw;
    const LD u = LD(U[0]) + t * LD(P[0]);
    const LD sc = std::abs(LD(b[0])) + std::abs(LD(b[1])) + std::abs(LD(U[0])) + 1e-300L;
    upd((u - LD(b[0])) / sc, 0);
    upd((LD(b[1]) - u) / sc, 1);
#elif defined(VEQ_shallow_water)
    const LD h = LD(U[0]) + t * LD(P[0]);
    LD q2 = 0.L, M = 0.L;
    for (int d = 0; d < dim; ++d) {
      const LD q = LD(U[1 + d]) + t * LD(P[1 + d]);
      q2 += q * q;
      M += LD(U[1 + d]) * LD(U[1 + d]) + t * t * LD(P[1 + d]) * LD(P[1 + d]);
    }
    // water depths below the round-off level of the reference depth count as dry
    const LD sc = LD(b[1]) + std::abs(LD(U[0])) + 1e-10L * v.reference_water_depth();
    upd((h - LD(b[0])) / sc, 0);
    upd((LD(b[1]) - h) / sc, 1);
    if (sw.first)
      upd((h * LD(b[3]) - .5L * q2) / (std::abs(LD(U[0])) * LD(b[3]) + std::abs(h) * LD(b[3]) + M + 1e-15L), 2);
    if (sw.second)
      upd((h * h * LD(b[4]) - q2) / (LD(U[0]) * LD(U[0]) * LD(b[4]) + h * h * LD(b[4]) + M + 1e-13L), 3);
#else
    (void)sw;
    const LD rho = LD(U[0]) + t * LD(P[0]);
    const LD rsc = LD(b[1]) + std::abs(LD(U[0]));
    upd((rho - LD(b[0])) / rsc, 0);
    upd((LD(b[1]) - rho) / rsc, 1);
    if (m < -1e-9L || rho <= 0.L)
      return m;
    LD m2 = 0.L, M2 = 0.L;
    for (int d = 0; d < dim; ++d) {
      const LD x = LD(U[1 + d]) + t * LD(P[1 + d]);
      m2 += x * x;
      M2 += LD(U[1 + d]) * LD(U[1 + d]) + t * t * LD(P[1 + d]) * LD(P[1 + d]);
    }
    const LD E = LD(U[dim + 1]) + t * LD(P[dim + 1]);
    LD sc;
    const LD psi = gas_psi(v, b, rho, E - .5L * m2 / rho, sc);
    const LD AE = std::abs(LD(U[dim + 1])) + std::abs(t * LD(P[dim + 1]));
    const LD ARHO = (std::abs(LD(U[0])) + std::abs(t * LD(P[0]))) / rho;
    upd(psi / (sc + rho * AE + M2 + .5L * m2 * ARHO), 2);
#endif
    return m;
  }

  template <int dim, typename T>
  using LimT = typename Desc::template Limiter<dim, T>;

  template <int dim>
  void op_limiter(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    using Limiter = LimT<dim, double>;
    using B = typename Limiter::Bounds;
    typename Limiter::Parameters p_raw("/L0"), p_rel("/L1"), p_deep("/L2");
    using RS = typename Desc::template RiemannSolver<dim, double>;
    typename RS::Parameters rp("/RS");
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("x");
    Alg<dim> A(S, o);
    auto &r = A.r;
    const auto &v = A.v;
    using St = typename Alg<dim>::St;
    const long n = o.i("n", 5000);
    std::pair<bool, bool> sw(true, true), swr(true, true);
#ifdef VEQ_shallow_water
    sw = {p_rel.limit_on_kinetic_energy(), p_rel.limit_on_square_velocity()};
    swr = {true, true};
#endif
    Limiter l_raw(S.hs, p_raw, A.prec()), l_rel(S.hs, p_rel, A.prec()), l_deep(S.hs, p_deep, A.prec());
    long n_full = 0, n_lim = 0, n_skip = 0, n_rep = 0, near_n = 0;
    double near_sum = 0., near_min = 1.;
    const std::string eqn = VEQ_NAME;

    for (long it = 0; it < n; ++it) {
      const unsigned int i = A.pick();
      const St Ui = A.U(i);
      std::vector<unsigned int> st = {i};
      const int k = r.i(1, 8);
      for (int a = 0; a < k; ++a)
        st.push_back(A.pick());
      const double hd = r.lg(1e-6, dim == 1 ? .3 : dim == 2 ? .1 : .03); // keeps 4 hd^(1.5/d) below one
      std::vector<St> bars;
      std::vector<double> sj;
      typename Sim<dim>::View::state_type zero;
      auto run = [&](Limiter &l, bool record) {
        mon::Rng rr(o.i("seed", 1) * 1000003 + it);
#ifndef VEQ_shallow_water
        const auto fi = v.flux_contribution(A.prec(), S.hm.initial_precomputed(), i, Ui);
#else
        const auto fi = std::make_tuple(Ui, 0.);
#endif
        l.reset(i, Ui, fi);
        for (auto j : st) {
          const St Uj = A.U(j);
          dealii::Tensor<1, dim> c;
          for (int d = 0; d < dim; ++d)
            c[d] = rr.normal();
          c /= c.norm();
          // wave speed that makes the bar state an average of the Riemann fan
          LD lam = 1.;
          {
            RS R(S.hs, rp, A.prec());
            lam = R.compute(Ui, Uj, i, &j, c);
          }
          const double scale = 1. / (double(lam) * (1. + 1e-12) + 1e-300);
          const auto sc = i == j ? dealii::Tensor<1, dim>() : (lam > 0. ? scale * rr.u(.05, 1.) : 0.) * c;
#ifdef VEQ_shallow_water
          l.accumulate(Uj, Ui, Uj, sc, zero);
          const auto fI = v.f(Ui), fJ = v.f(Uj);
#else
          const auto fj = v.flux_contribution(A.prec(), S.hm.initial_precomputed(), &j, Uj);
          l.accumulate(&j, Uj, fj, sc, zero);
          const auto &fI = fi, &fJ = fj;
#endif
          if (record) {
            St bar;
            for (int q = 0; q < Sim<dim>::pd; ++q) {
              LD x = LD(Ui[q]) + LD(Uj[q]);
              for (int d = 0; d < dim; ++d)
                x += (LD(fI[q][d]) - LD(fJ[q][d])) * LD(sc[d]);
              bar[q] = double(.5L * x);
            }
            bars.push_back(bar);
#if defined(VEQ_euler) || defined(VEQ_navier_stokes)
            sj.push_back(v.specific_entropy(Uj));
#elif defined(VEQ_euler_aeos)
            sj.push_back(v.surrogate_specific_entropy(Uj, A.prec().template get_tensor<double>(i)[1]));
#endif
          }
        }
      };
      run(l_raw, true);
      const B raw = l_raw.bounds(hd);
      run(l_rel, false);
      const B rel = l_rel.bounds(hd);
      mon::evals()++;

      // containment of the states the bounds are built from
      for (unsigned int a = 0; a < bars.size(); ++a) {
        int w = -1;
        B b = raw;
#if !defined(VEQ_shallow_water) && !defined(VEQ_scalar_conservation)
        b[2] = 0.; // entropy separately
        const double rho = bars[a][0];
        (void)rho;
#endif
        const St z;
        const LD m = margin<dim>(v, b, bars[a], z, 0.L, swr, w);
        if (!(m >= -1e-12L) && !(w == 2 && !is_sw) && !(w == 3 && m >= -1e-8L))
          mon::fail("C03/" + eqn + "/bounds-miss-bar-state", "case %s component %d margin %.3Le trial %ld", o.s("name").c_str(), w, m, it);
#if !defined(VEQ_shallow_water) && !defined(VEQ_scalar_conservation)
        if (!(raw[2] <= sj[a] * (1. + 1e-11)) && !(o.i("strict", 1) == 0))
          mon::fail("C03/" + eqn + "/entropy-bound-above-stencil", "case %s s_min %.17g s_j %.17g", o.s("name").c_str(), raw[2], sj[a]);
#endif
      }
      // relaxing only widens
      const int nb = Limiter::n_bounds;
      auto wider = [&](const B &in, const B &out, const char *what) {
#if defined(VEQ_scalar_conservation)
        const bool up[2] = {false, true};
#elif defined(VEQ_shallow_water)
        const bool up[5] = {false, true, false, true, true};
#elif defined(VEQ_euler_aeos)
        const bool up[4] = {false, true, false, false};
#else
        const bool up[3] = {false, true, false};
#endif
        for (int q = 0; q < nb; ++q) {
#ifdef VEQ_shallow_water
          if (q == 2 && std::string(what) == "relax")
            continue;
#endif
          const double tol = 1e-14 * std::abs(in[q]);
          if (up[q] ? !(out[q] >= in[q] - tol) : !(out[q] <= in[q] + tol))
            mon::fail("C03/" + eqn + "/" + what + "-narrows", "case %s bound %d: %.17g -> %.17g", o.s("name").c_str(), q, in[q], out[q]);
        }
      };
      wider(raw, rel, "relax");
      {
        B other = raw;
        for (auto &x : other)
          x *= r.u() < .2 ? 1. : r.lg(.5, 2.);
        const B c = Limiter::combine_bounds(raw, other), c2 = Limiter::combine_bounds(other, raw);
        wider(raw, c, "combine");
        wider(other, c, "combine");
        for (int q = 0; q < nb; ++q)
          if (c[q] != c2[q] || (c[q] != raw[q] && c[q] != other[q]))
            mon::fail("C03/" + eqn + "/combine-not-hull", "case %s bound %d", o.s("name").c_str(), q);
      }

      // a start inside the bounds
      const B &b = r.u() < .5 ? raw : rel;
      St U0;
      {
        double s = 0.;
        const int kind = r.i(0, 3);
        if (kind == 0)
          U0 = bars[r.i(0, int(bars.size()) - 1)], s = 1.;
        else
          for (auto &x : bars) {
            const double wgt = kind == 1 ? 1. : r.u();
            U0 += wgt * x, s += wgt;
          }
        U0 /= s;
      }
      St P;
      {
        const int kind = r.i(0, 7);
        const St V = A.U(A.pick());
        switch (kind) {
        case 0:
          P = V - U0;
          break;
        case 1:
          P = r.lg(1e-4, 1e2) * (V - U0);
          break;
        case 2:
          for (int q = 0; q < Sim<dim>::pd; ++q)
            P[q] = r.normal() * r.lg(1e-4, 10.) * (std::abs(U0[q]) + (r.u() < .3 ? std::abs(V[q]) : 0.));
          break;
        case 3:
          P[0] = r.sgn() * r.lg(1e-6, 3.) * U0[0];
          break;
        case 4:
          P[Sim<dim>::pd - 1] = -r.lg(1e-6, 3.) * std::abs(U0[Sim<dim>::pd - 1]);
          break;
        case 5:
          for (int q = 1; q < Sim<dim>::pd; ++q)
            P[q] = r.normal() * (std::abs(U0[q]) + std::abs(U0[0]));
          break;
        case 6:
          P = r.lg(1e-14, 1e-6) * (V - U0);
          break;
        default:
          P = bars[r.i(0, int(bars.size()) - 1)] - U0;
          P *= r.lg(.3, 3.);
        }
      }
      double t_min = 0., t_max = 1.;
      if (r.u() < .25) {
        t_min = r.u(0., .8);
        U0 -= t_min * P;
        if (r.u() < .3)
          t_max = r.u(t_min, 1.);
      }
      int w = -1;
      const LD m0 = margin<dim>(v, b, U0, P, t_min, sw, w);
      Limiter &l = r.u() < .5 ? l_rel : l_deep;
      const bool deep = &l == &l_deep;
      const auto [t, ok] = l.limit(b, U0, P, t_min, t_max);
      if (!std::isfinite(t) || t < t_min || t > t_max) {
        mon::fail("C03/" + eqn + "/factor-outside-interval", "case %s t=%.17g in [%g,%g] trial %ld", o.s("name").c_str(), t, t_min, t_max, it);
        continue;
      }
      if (o.i("dbg", 0) == it) {
        printf("DBG t %.17g tmin %g tmax %g deep %d m0 %.3Le\n", t, t_min, t_max, int(deep), m0);
        for (auto &x : b)
          printf("  b %.17g\n", double(x));
        for (int q = 0; q < Sim<dim>::pd; ++q)
          printf("  U %.17g P %.17g\n", U0[q], P[q]);
      }
      bool start_ok = m0 >= (t_min > 0. ? 1e-9L : -1e-13L);
      // Newton's method uses absolute thresholds: only data of order one is
      // expected to come close to the largest factor
      bool order_one = true;
#if defined(VEQ_shallow_water)
      order_one = U0[0] * b[3] > 1e-6 && U0[0] > 1e-3;
#elif !defined(VEQ_scalar_conservation)
      order_one = b[2] * std::pow(U0[0], 2.) > 1e-3 && U0[0] > 1e-3;
#endif
#ifdef VEQ_euler_aeos
      // relaxed density bounds may exceed the maximal compressibility
      if (b[1] * v.eos_interpolation_b() > .999)
        continue;
#endif
#ifdef VEQ_shallow_water
      // tiny water depths: velocity bounds use a mollified velocity
      if (U0[0] + t_min * P[0] < 1e-6 * v.reference_water_depth())
        start_ok = start_ok && m0 >= 0.L;
#endif
      if (start_ok) {
        int wz;
        if (!ok && m0 > 1e-9L && (t_min == 0. || margin<dim>(v, b, U0, P, 0.L, sw, wz) > 1e-9L))
          mon::fail("C03/" + eqn + "/good-start-reported", "case %s margin %.3Le trial %ld", o.s("name").c_str(), m0, it);
        const LD mt = margin<dim>(v, b, U0, P, t, sw, w);
        // Newton's tolerance is one in t: steep constraints are met up to it
        int wt;
        if (!(mt >= -3e-12L) && !(margin<dim>(v, b, U0, P, LD(t_min) + (LD(t) - LD(t_min)) * (1.L - 1e-8L) - 1e-12L, sw, wt) >= -3e-12L))
          mon::fail("C03/" + eqn + "/limited-state-violates-bound", "case %s bound %d margin %.3Le at t=%.17g (start %.3Le) trial %ld",
                    o.s("name").c_str(), w, mt, t, m0, it);
        int w1;
        const LD m1 = margin<dim>(v, b, U0, P, t_max, sw, w1);
#ifdef VEQ_shallow_water
        const bool dryish = U0[0] + t_max * P[0] < 1.001 * b[2];
#else
        const bool dryish = false;
#endif
        if (m1 >= 1e-10L && !dryish) {
          n_full++;
          if (t != t_max)
            mon::fail("C03/" + eqn + "/limits-without-need", "case %s t=%.17g instead of %g margin %.3Le trial %ld", o.s("name").c_str(), t,
                      t_max, m1, it);
        } else if (m0 > 1e-6L && order_one) {
          mon::nontriv()++;
          n_lim++;
          // largest admissible factor
          LD a = t_min, c = t_max;
          for (int q = 0; q < 90; ++q) {
            const LD mid = .5L * (a + c);
            int w2;
            bool good = margin<dim>(v, b, U0, P, mid, sw, w2) >= 0.L;
#ifdef VEQ_shallow_water
            if (LD(U0[0]) + mid * LD(P[0]) < LD(b[2]))
              good = false;
#endif
            (good ? a : c) = mid;
          }
          const double best = double(a);
          const double ratio = best > t_min ? (t - t_min) / (best - t_min) : 1.;
          if (best - t_min > 1e-6) {
            if (deep) {
              if (ratio < 1. - 1e-3)
                mon::fail("C03/" + eqn + "/not-largest-factor", "case %s t=%.17g largest %.17g bound %d trial %ld", o.s("name").c_str(), t,
                          best, w1, it);
            } else {
              near_sum += std::min(ratio, 1.), near_n++;
              near_min = std::min(near_min, ratio);
              if (o.i("dbg", 0) && ratio < .2)
                printf("LOW %ld ratio %g best %g w %d deep %d\n", it, ratio, best, w1, int(deep));
            }
          }
        }
      } else
        n_skip++;

      // a start outside the bounds is reported
      {
        B bad = b;
        const int kind = r.i(0, 1);
#if defined(VEQ_scalar_conservation)
        const double sc = std::abs(b[0]) + std::abs(b[1]);
        if (sc < 1e-3)
          continue;
        if (kind)
          bad[1] = U0[0] - r.lg(1e-6, 1.) * sc, bad[0] = bad[1] - sc;
        else
          bad[0] = U0[0] + r.lg(1e-6, 1.) * sc, bad[1] = bad[0] + sc;
#else
#if defined(VEQ_shallow_water)
        if (U0[0] < 1e-3 * v.reference_water_depth())
          continue;
#else
        if (U0[0] < 1e-5 * v.reference_density())
          continue;
#endif
        if (kind)
          bad[1] = U0[0] * (1. - r.lg(1e-6, .5)), bad[0] = .5 * bad[1];
        else
          bad[0] = U0[0] * (1. + r.lg(1e-6, .5)), bad[1] = 2. * bad[0];
#endif
        const auto [tb, okb] = l_rel.limit(bad, U0, P, 0., 1.);
        (void)tb;
        n_rep++;
        if (okb)
          mon::fail("C03/" + eqn + "/violation-not-reported", "case %s kind %d U %.17g bounds %.17g %.17g", o.s("name").c_str(), kind, U0[0],
                    bad[0], bad[1]);
      }
    }
    mon::stat("limiter-" + eqn + "-full", n_full);
    mon::stat("limiter-" + eqn + "-limited", n_lim);
    mon::stat("limiter-" + eqn + "-start-outside", n_skip);
    mon::stat("limiter-" + eqn + "-reports", n_rep);
    if (near_n) {
      mon::stat("limiter-" + eqn + "-mean-fraction-of-largest", near_sum / near_n);
      mon::stat("limiter-" + eqn + "-min-fraction-of-largest", near_min);
      if (near_n > 100 && near_sum / near_n < o.d("near", .5))
        mon::fail("C03/" + eqn + "/far-from-largest-factor", "case %s mean fraction %.4f", o.s("name").c_str(), near_sum / near_n);
    }
  }
} // namespace sim
INSTANTIATE_OP(op_limiter)
