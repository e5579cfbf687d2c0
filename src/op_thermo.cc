// Wave speed estimate against the exact Riemann solution (C04) and mutual
// consistency of thermodynamic, entropy, flux and conversion formulas (C18).
#include "alg.h"

namespace sim
{
  // --------------------------------------------- exact solutions (long double)
#if defined(VEQ_shallow_water)
  struct Data {
    LD h, u, a;
  };
  template <int dim, typename View>
  Data project(const View &v, const typename View::state_type &U, const dealii::Tensor<1, dim> &n)
  {
    Data D;
    // the solver regularises the depth of dry states (parameters of the
    // hyperbolic system); the speed is that of the regularised data
    D.h = v.water_depth_sharp(U);
    LD q = 0.L;
    for (int d = 0; d < dim; ++d)
      q += LD(U[1 + d]) * LD(n[d]);
    D.u = D.h > 0.L ? q / D.h : 0.L;
    D.a = std::sqrt(LD(v.gravity()) * D.h);
    return D;
  }
  // largest wave speed of the exact fan
  // speed of the fan if the middle state has depth hs
  inline LD fan_speed(const Data &L, const Data &R, LD hs)
  {
    auto s = [&](const Data &Z) { return hs > Z.h ? Z.a * std::sqrt(.5L * (hs + Z.h) * hs) / Z.h : Z.a; };
    return std::max(std::max(0.L, R.u + s(R)), std::max(0.L, s(L) - L.u));
  }
  inline LD larger(const Data &L, const Data &R)
  {
    return std::max(L.h, R.h);
  }
  inline bool known_branch(const LD, const Data &, const Data &, LD, LD)
  {
    return false;
  }
  inline LD exact_speed(const LD g, const Data &L, const Data &R, LD &strength, LD &star)
  {
    star = 0.L;
    auto f = [&](const Data &Z, LD h) {
      if (h <= Z.h)
        return 2.L * (std::sqrt(g * h) - Z.a);
      return (h - Z.h) * std::sqrt(.5L * g * (h + Z.h) / (h * Z.h));
    };
    strength = 0.L;
    if (L.h <= 0.L && R.h <= 0.L)
      return 0.L;
    if (L.h <= 0.L)
      return std::max(std::abs(R.u - 2.L * R.a), std::abs(R.u + R.a));
    if (R.h <= 0.L)
      return std::max(std::abs(L.u + 2.L * L.a), std::abs(L.u - L.a));
    auto phi = [&](LD h) { return f(L, h) + f(R, h) + R.u - L.u; };
    LD hs = 0.L;
    if (phi(0.L) < 0.L) {
      LD a = 1e-40L, b = std::max(L.h, R.h);
      while (phi(b) < 0.L)
        b *= 4.L;
      for (int k = 0; k < 300; ++k) {
        const LD m = std::sqrt(a) * std::sqrt(b);
        (phi(m) < 0.L ? a : b) = m;
      }
      hs = b;
    }
    star = hs;
    strength = hs / std::min(L.h, R.h);
    return fan_speed(L, R, hs);
  }
#elif !defined(VEQ_scalar_conservation)
  struct Data {
    LD rho, u, p, g, a, b, pinf, round;
  };
  template <int dim, typename View>
  Data project(const View &v, const typename View::state_type &U, const dealii::Tensor<1, dim> &n)
  {
    Data D;
    D.rho = U[0];
    LD q = 0.L, m2 = 0.L;
    for (int d = 0; d < dim; ++d)
      q += LD(U[1 + d]) * LD(n[d]), m2 += LD(U[1 + d]) * LD(U[1 + d]);
    D.u = q / D.rho;
    const LD re = LD(U[dim + 1]) - .5L * m2 / D.rho;
#ifdef VEQ_euler_aeos
    D.b = v.eos_interpolation_b(), D.pinf = v.eos_interpolation_pinfty();
    // exact pressure of the state; both equations of state used here have a closed form
    const double gam = v.surrogate_gamma(U, v.eos_pressure(U[0], v.internal_energy(U) / U[0]));
    D.g = gam;
    const LD shift = re - D.rho * LD(v.eos_interpolation_q()) - D.pinf * (1.L - D.b * D.rho);
    D.p = (D.g - 1.L) * shift / (1.L - D.b * D.rho) - D.pinf;
    D.round = LD(U[dim + 1]) / shift;
#else
    D.b = D.pinf = 0.L;
    D.g = v.gamma();
    D.p = (D.g - 1.L) * re;
    D.round = LD(U[dim + 1]) / re;
#endif
    D.a = std::sqrt(D.g * (D.p + D.pinf) / (D.rho * (1.L - D.b * D.rho)));
    return D;
  }
  // all pressures are shifted by the reference pressure below
  inline LD fan_speed(const Data &L, const Data &R, LD ps)
  {
    auto s = [&](const Data &Z) {
      const LD zt = Z.p + Z.pinf;
      return Z.a * std::sqrt(1.L + (Z.g + 1.L) / (2.L * Z.g) * std::max(0.L, (ps - zt) / zt));
    };
    return std::max(std::max(0.L, R.u + s(R)), std::max(0.L, s(L) - L.u));
  }
  inline LD larger(const Data &L, const Data &R)
  {
    return std::max(L.p + L.pinf, R.p + R.pinf);
  }
  // Registered finding (euler): an approximation of the middle pressure that
  // is an upper bound for two shocks only is also used with a rarefaction.
  inline bool known_branch(const LD, const Data &L, const Data &R, LD ps, LD lam)
  {
#ifdef VEQ_euler_aeos
    return false;
#endif
    const LD M = std::max(L.p, R.p);
    if (ps > M)
      return false;
    auto x = [&](const Data &Z) { return std::sqrt(2.L * M / (Z.rho * ((Z.g + 1.L) * M + (Z.g - 1.L) * Z.p))); };
    const LD a = x(L) + x(R), b = R.u - L.u, c = -L.p * x(L) - R.p * x(R);
    LD t = (-b + std::sqrt(b * b - 4.L * a * c)) / (2.L * a);
    t *= t;
    return t < ps && std::abs(fan_speed(L, R, t) - lam) <= 1e-9L * lam;
  }
  inline LD exact_speed(const LD, const Data &L, const Data &R, LD &strength, LD &star)
  {
    auto f = [&](const Data &Z, LD pt) { // pt = p + pinf
      const LD zt = Z.p + Z.pinf;
      if (pt >= zt) {
        const LD A = 2.L * (1.L - Z.b * Z.rho) / ((Z.g + 1.L) * Z.rho), B = (Z.g - 1.L) / (Z.g + 1.L) * zt;
        return (pt - zt) * std::sqrt(A / (pt + B));
      }
      return 2.L * Z.a * (1.L - Z.b * Z.rho) / (Z.g - 1.L) * (std::pow(pt / zt, (Z.g - 1.L) / (2.L * Z.g)) - 1.L);
    };
    auto phi = [&](LD p) { return f(L, p) + f(R, p) + R.u - L.u; };
    LD ps = 0.L;
    if (phi(0.L) < 0.L) {
      const LD m = std::max(L.p + L.pinf, R.p + R.pinf);
      LD a = m * 1e-600L, b = m;
      while (phi(b) < 0.L)
        b *= 4.L;
      for (int k = 0; k < 400; ++k) {
        const LD c = std::sqrt(a) * std::sqrt(b);
        (phi(c) < 0.L ? a : b) = c;
      }
      ps = b;
    }
    star = ps;
    strength = ps / std::min(L.p + L.pinf, R.p + R.pinf);
    return fan_speed(L, R, ps);
  }
#endif

  template <int dim>
  dealii::Tensor<2, dim> rotation(mon::Rng &r)
  {
    // product of random reflections (an even number of them)
    dealii::Tensor<2, dim> Q;
    for (int d = 0; d < dim; ++d)
      Q[d][d] = 1.;
    for (int k = 0; k < 2; ++k) {
      dealii::Tensor<1, dim> w;
      do
        for (int d = 0; d < dim; ++d)
          w[d] = r.normal();
      while (w.norm() < .1);
      w /= w.norm();
      dealii::Tensor<2, dim> H;
      for (int a = 0; a < dim; ++a)
        for (int b = 0; b < dim; ++b)
          H[a][b] = (a == b) - 2. * w[a] * w[b];
      Q = H * Q;
    }
    return Q;
  }

  template <int dim, typename St>
  St rotate(const dealii::Tensor<2, dim> &Q, const St &U)
  {
    if (is_scalar)
      return U;
    St V = U;
    for (int a = 0; a < dim; ++a) {
      V[1 + a] = 0.;
      for (int b = 0; b < dim; ++b)
        V[1 + a] += Q[a][b] * U[1 + b];
    }
    return V;
  }

  template <int dim>
  void op_riemann(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    using RS = typename Desc::template RiemannSolver<dim, double>;
    typename RS::Parameters rp("/RS");
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("x");
    Alg<dim> A(S, o);
    auto &r = A.r;
    const auto &v = A.v;
    using St = typename Alg<dim>::St;
    RS R(S.hs, rp, A.prec());
    const std::string eqn = VEQ_NAME;
    const std::string nms = o.s("name");
    const char *nm = nms.c_str();
    double worst = 1e300, over = 0., fronts = 1e300;
    const long n = o.i("n", 5000);
    const bool mild = o.s("mode") == "mild";
    for (long it = 0; it < n; ++it) {
      const unsigned int i = A.pick(), j = r.u() < .03 ? i : A.pick();
      const St Ui = A.U(i), Uj = A.U(j);
      const auto c = A.direction();
      const double lam = R.compute(Ui, Uj, i, &j, c);
      const double mal = R.compute(Uj, Ui, j, &i, -c);
      mon::evals()++;
      if (!std::isfinite(lam) || lam < 0.) {
        mon::fail("C04/" + eqn + "/not-finite-or-negative", "case %s lambda %g trial %ld", nm, lam, it);
        continue;
      }
      double round = 1.;
#if defined(VEQ_scalar_conservation)
      const auto pi = A.prec().template get_tensor<double, typename Alg<dim>::View::precomputed_type>(i);
      const auto pj = A.prec().template get_tensor<double, typename Alg<dim>::View::precomputed_type>(j);
      LD fi = 0.L, fj = 0.L, di = 0.L, dj = 0.L, fs = 0.L, ds = 0.L;
      for (int d = 0; d < dim; ++d) {
        fi += LD(pi[d]) * LD(c[d]), fj += LD(pj[d]) * LD(c[d]);
        di += LD(pi[dim + d]) * LD(c[d]), dj += LD(pj[dim + d]) * LD(c[d]);
        fs += std::abs(LD(pi[d]) * c[d]) + std::abs(LD(pj[d]) * c[d]);
        ds += std::abs(LD(pi[dim + d]) * c[d]) + std::abs(LD(pj[dim + d]) * c[d]);
      }
      const LD du = std::abs(LD(Ui[0]) - LD(Uj[0]));
      const LD h2 = 2.L * v.derivative_approximation_delta();
      // the quotient is documented to be regularised below twice the step
      // width that is used to approximate the derivative
      const LD rh = std::abs(fi - fj) / std::max(du, h2);
      const LD noise = 1e-15L * fs / std::max(du, h2);
      LD want = rh;
      const bool greedy = rp.use_greedy_wavespeed();
      if (!greedy)
        want = std::max(want, std::max(std::abs(di), std::abs(dj)));
      if (!(lam >= want * (1.L - 1e-13L) - noise - 1e-15L * ds))
        mon::fail("C04/" + eqn + "/below-characteristic-or-shock-speed", "case %s lambda %.17g needs %.17Lg (u %.17g %.17g) trial %ld", nm, lam, want,
                  Ui[0], Uj[0], it);
      // equals a speed of the problem: never above the largest of the
      // quotients and derivatives in between by more than a factor
      {
        LD top = std::max(rh, std::max(std::abs(di), std::abs(dj)));
        for (int q = 0; q <= 64; ++q) {
          const double k = Ui[0] + (Uj[0] - Ui[0]) * q / 64.;
          const auto g = v.flux_gradient_function(k) * c;
          top = std::max(top, std::abs(LD(g)));
        }
        const LD slack = 1e-5L * (1.L + ds) + 20.L * 2.3e-16L * (fs + 1e-3L) / std::max(du, h2) * 20.L;
        if (!(lam <= 2.05L * top + slack))
          mon::fail("C04/" + eqn + "/far-above-largest-speed", "case %s lambda %.17g largest speed %.17Lg (u %.17g %.17g) trial %ld", nm, lam, top,
                    Ui[0], Uj[0], it);
        if (top > 1e-3L && du > 1e-3L)
          over = std::max(over, double(LD(lam) / top));
      }
      if (want > 0.L && du > 1e-3L)
        worst = std::min(worst, double(LD(lam) / want)), mon::nontriv()++;
      const double tol = 1e-12 * lam + 1e-10 + double(noise) * 100.;
      if (rp.random_entropies() == 0 && std::abs(lam - mal) > tol)
        mon::fail("C04/" + eqn + "/not-symmetric", "case %s %.17g %.17g trial %ld", nm, lam, mal, it);
#else
      LD strength = 0.L;
#ifdef VEQ_shallow_water
      const LD g = v.gravity();
      const Data L = project<dim>(v, Ui, c), Q = project<dim>(v, Uj, c);
      const bool dry = Ui[0] <= 0. || Uj[0] <= 0.;
#else
      const LD g = 0.L;
      const Data L = project<dim>(v, Ui, c), Q = project<dim>(v, Uj, c);
      round = double(std::max(L.round, Q.round));
#endif
      LD star = 0.L;
      const LD ex = exact_speed(g, L, Q, strength, star);
#ifdef VEQ_shallow_water
      // exactly dry on one side: close to the speed of the wetting front
      if (dry) {
        Data l = L, q = Q;
        (Ui[0] <= 0. ? l : q) = Data{0.L, 0.L, 0.L};
        if (Ui[0] <= 0. && Uj[0] <= 0.)
          l = q = Data{0.L, 0.L, 0.L};
        LD t1, t2;
        const LD front = exact_speed(g, l, q, t1, t2);
        if (!(lam >= .97L * front))
          mon::fail("C04/" + eqn + "/below-wetting-front-speed", "case %s lambda %.17g front %.17Lg trial %ld", nm, lam, front, it);
        if (front > 0.L)
          fronts = std::min(fronts, double(lam / front));
      }
#endif
      const LD allow = 1e-13L + 4e-16L * round;
      if (strength > 1.0001L)
        mon::nontriv()++;
      if (!(lam >= ex * (1.L - 20.L * allow))) {
        const bool known = known_branch(g, L, Q, star, lam);
        mon::fail("C04/" + eqn + (known ? "/below-exact-speed-wrong-branch" : "/below-exact-speed"),
                  "case %s lambda %.17g exact %.17Lg ratio-1 %.3Le strength %.3Le trial %ld", nm, lam, ex, LD(lam) / ex - 1.L, strength, it);
      } else if (ex > 0.L)
        worst = std::min(worst, double(LD(lam) / ex / (1.L - allow)));
      if (ex > 0.L) {
        over = std::max(over, double(LD(lam) / ex));
        // moderate data: a sharp estimate; otherwise never above what the
        // larger of the two pressures (depths) yields
        LD top = mild ? 2.L * ex : 3.L * ex;
        if (!mild && star <= larger(L, Q))
          top = std::max(top, fan_speed(L, Q, larger(L, Q)));
        if (!(lam <= top * (1.L + 20.L * allow)))
          mon::fail("C04/" + eqn + "/far-above-exact-speed", "case %s lambda %.17g exact %.17Lg allowed %.17Lg strength %.3Le trial %ld", nm, lam, ex,
                    top, strength, it);
      }
      const double tol = (1e-12 + 1e-14 * round) * lam;
      if (std::abs(lam - mal) > tol)
        mon::fail("C04/" + eqn + "/not-symmetric", "case %s %.17g %.17g trial %ld", nm, lam, mal, it);
      {
        const auto T = rotation<dim>(r);
        dealii::Tensor<1, dim> tc = T * c;
        tc /= tc.norm();
        const double rot = R.compute(rotate<dim>(T, Ui), rotate<dim>(T, Uj), i, &j, tc);
        if (!(std::abs(lam - rot) <= (1e-11 + 1e-13 * round) * lam + 1e-300))
          mon::fail("C04/" + eqn + "/not-rotation-invariant", "case %s %.17g %.17g trial %ld", nm, lam, rot, it);
      }
#endif
      if (o.i("dbg", 0) == it && it)
        printf("DBG lam %.17g mal %.17g\n", lam, mal);
    }
    mon::stat("riemann-" + eqn + "-max-over-exact", over);
    mon::stat("riemann-" + eqn + "-min-over-exact", worst);
    if (fronts < 1e300)
      mon::stat("riemann-" + eqn + "-min-over-wetting-front", fronts);
    printf("INFO %s over %.4g min %.17g\n", nm, over, worst);
  }

  // ------------------------------------------------------------ C18 formulas
  template <int dim>
  struct Thermo {
    using St = typename Sim<dim>::state_type;
    const char *nm;
    std::string eqn;
    long it = 0;
    void same(const char *what, LD got, LD want, LD scale, LD tol = 1e-12L)
    {
      mon::evals()++;
      if (!(std::abs(got - want) <= tol * (std::abs(want) + scale)))
        mon::fail("C18/" + eqn + "/" + what, "case %s got %.17Lg expected %.17Lg (scale %.3Lg) trial %ld", nm, got, want, scale, it);
    }
  };

  // derivative of a function of the state by Richardson extrapolated central
  // differences in the components, relative to the size of the state
  template <typename St, typename F>
  St gradient(const F &f, const St &U, int n, St &err)
  {
    St g;
    for (int k = 0; k < n; ++k) {
      auto dq = [&](double h) {
        St a = U, b = U;
        a[k] += h, b[k] -= h;
        return (f(a) - f(b)) / (a[k] - b[k]);
      };
      double h = 1e-4 * std::abs(U[0]);
      if (k > 0)
        h = 1e-4 * (std::abs(U[k]) + .1 * std::abs(U[0]));
      const double d1 = dq(h), d2 = dq(.5 * h);
      g[k] = (4. * d2 - d1) / 3.;
      err[k] = std::abs(d1 - d2) * 1e-2 + std::abs(f(U)) * 1e-15 / h * 50.;
    }
    return g;
  }

  template <int dim>
  void op_thermo(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("x");
    Alg<dim> A(S, o);
    auto &r = A.r;
    const auto &v = A.v;
    using St = typename Alg<dim>::St;
    constexpr int pd = Sim<dim>::pd;
    Thermo<dim> M;
    const std::string name = o.s("name");
    M.nm = name.c_str();
    M.eqn = VEQ_NAME;
    const long n = o.i("n", 3000);
    for (long it = 0; it < n; ++it) {
      M.it = it;
      const unsigned int i = A.pick();
      const St U = A.U(i);
      St err;
      mon::nontriv()++;
      (void)err;
      // conversions
      {
        const St W = v.to_primitive_state(U);
        const St back = v.from_primitive_state(W);
        LD rel = 0.L;
        for (int k = 0; k < pd; ++k)
          rel += std::abs(LD(U[k]));
        const bool dry = is_sw && U[0] < 1e-8;
        for (int k = 0; k < pd && !dry; ++k)
          M.same("primitive-roundtrip", back[k], U[k], k == pd - 1 ? rel : 0.L, 1e-12L);
      }
      const auto T = rotation<dim>(r);
      const St UT = rotate<dim>(T, U);
#if defined(VEQ_scalar_conservation)
      {
        const double u = U[0], k = r.u(-2., 2.);
        M.same("square-entropy", v.square_entropy(u), .5L * u * u, 0.L);
        M.same("square-entropy-derivative", v.square_entropy_derivative(u), u, 0.L);
        M.same("kruzkov-entropy", v.kruzkov_entropy(k, u), std::abs(LD(u) - LD(k)), 0.L);
        M.same("kruzkov-derivative", v.kruzkov_entropy_derivative(k, u), u > k ? 1.L : u < k ? -1.L : 0.L, 0.L);
        const auto f = v.flux_function(u);
        const auto df = v.flux_gradient_function(u);
        const auto p = A.prec().template get_tensor<double, typename Alg<dim>::View::precomputed_type>(i);
        const auto ft = v.construct_flux_tensor(p), dft = v.construct_flux_gradient_tensor(p);
        const double h = 1e-4 * (1. + std::abs(u));
        for (int d = 0; d < dim; ++d) {
          M.same("precomputed-flux", ft[d], f[d], 0.L, 1e-14L);
          M.same("precomputed-flux-gradient", dft[d], df[d], 0.L, 1e-14L);
          const double a = v.flux_function(u + h)[d], b = v.flux_function(u - h)[d];
          const double a2 = v.flux_function(u + .5 * h)[d], b2 = v.flux_function(u - .5 * h)[d];
          const double d1 = (a - b) / (2. * h), d2 = (a2 - b2) / h, dd = (4. * d2 - d1) / 3.;
          M.same("flux-gradient", df[d], dd, 1e-2L * (std::abs(d1 - d2) / 1e-5 + 1.), 2e-4L);
        }
        const std::string fx = o.s("flux");
        if (fx == "burgers")
          for (int d = 0; d < dim; ++d)
            M.same("burgers-flux", f[d], d == 0 || true ? .5L * u * u : 0.L, 0.L, 1e-13L);
        if (fx == "kpp" && dim == 2) {
          M.same("kpp-flux", f[0], std::sin(LD(u)), 1e-3L, 1e-12L);
          M.same("kpp-flux", f[1], std::cos(LD(u)), 1e-3L, 1e-12L);
        }
        if (fx == "smoothfun") {
          const LD want[3] = {std::sin(LD(u)), std::cos(LD(u)), .4L * u * u};
          for (int d = 0; d < dim; ++d)
            M.same("function-flux", f[d], want[d], 1e-3L, 1e-12L);
        }
      }
#elif defined(VEQ_shallow_water)
      {
        const LD h = U[0], g = v.gravity();
        LD m2 = 0.L;
        for (int d = 0; d < dim; ++d)
          m2 += LD(U[1 + d]) * LD(U[1 + d]);
        const bool dry = h < 1e-6L * v.reference_water_depth();
        M.same("pressure", v.pressure(U), .5L * g * h * h, 0.L);
        M.same("speed-of-sound", v.speed_of_sound(U), std::sqrt(g * h), 0.L);
        M.same("water-depth", v.water_depth(U), h, 0.L, 0.L);
        if (!dry) {
          M.same("kinetic-energy", v.kinetic_energy(U), .5L * m2 / h, 0.L);
          M.same("entropy", v.mathematical_entropy(U), .5L * g * h * h + .5L * m2 / h, 0.L);
          M.same("inverse-depth-sharp", v.inverse_water_depth_sharp(U), 1.L / h, 0.L);
          const St de = v.mathematical_entropy_derivative(U);
          M.same("entropy-derivative-h", de[0], g * h - .5L * m2 / h / h, m2 / h / h, 1e-11L);
          for (int d = 0; d < dim; ++d)
            M.same("entropy-derivative-m", de[1 + d], LD(U[1 + d]) / h, 0.L, 1e-11L);
          const auto f = v.f(U), gg = v.g(U);
          for (int d = 0; d < dim; ++d) {
            M.same("flux-mass", f[0][d], U[1 + d], 0.L);
            M.same("flux-mass-g", gg[0][d], U[1 + d], 0.L);
            for (int e = 0; e < dim; ++e) {
              const LD mv = LD(U[1 + d]) * LD(U[1 + e]) / h;
              M.same("flux-momentum", f[1 + e][d], mv + (d == e ? .5L * g * h * h : 0.L), std::abs(mv), 1e-11L);
              M.same("flux-momentum-without-pressure", gg[1 + e][d], mv, std::abs(mv), 1e-11L);
            }
          }
          const auto fT = v.f(UT);
          for (int a = 0; a < dim; ++a)
            for (int b = 0; b < dim; ++b) {
              LD w = 0.L;
              for (int c = 0; c < dim; ++c)
                for (int d = 0; d < dim; ++d)
                  w += LD(T[a][c]) * LD(T[b][d]) * LD(f[1 + c][d]);
              M.same("flux-rotation", fT[1 + a][b], w, m2 / h + g * h * h, 1e-11L);
            }
          // equilibrated depth: reconstruction at a step in the topography
          const double Zl = r.u(-1., 1.), Zr = r.u(-1., 1.);
          const St s = v.star_state(U, Zl, Zr);
          const LD hs = std::max(0.L, h + LD(Zl) - std::max(LD(Zl), LD(Zr)));
          M.same("star-depth", s[0], hs, h + 2.L, 1e-15L);
          if (hs > 1e-6L)
            for (int d = 0; d < dim; ++d)
              M.same("star-velocity", s[1 + d], LD(U[1 + d]) * hs / h, std::abs(LD(U[1 + d])), 1e-11L + 4e-15L / h);
        }
        const St W = v.to_primitive_state(U);
        M.same("primitive-depth", W[0], h, 0.L, 0.L);
        if (!dry)
          for (int d = 0; d < dim; ++d)
            M.same("primitive-velocity", W[1 + d], LD(U[1 + d]) / h, 0.L, 1e-12L);
        dealii::Tensor<1, 2> ini;
        ini[0] = double(h), ini[1] = r.u(-2., 2.);
        const St I = v.from_initial_state(ini);
        M.same("initial-depth", I[0], h, 0.L, 0.L);
        M.same("initial-momentum", I[1], h * LD(ini[1]), 0.L);
        for (int d = 1; d < dim; ++d)
          M.same("initial-transversal", I[1 + d], 0.L, 0.L, 0.L);
      }
#else
      {
        const LD rho = U[0], E = U[dim + 1];
        LD m2 = 0.L;
        for (int d = 0; d < dim; ++d)
          m2 += LD(U[1 + d]) * LD(U[1 + d]);
        const LD re = E - .5L * m2 / rho, e = re / rho;
        const LD amp = (std::abs(E) + .5L * m2 / rho) / std::abs(re); // amplification of round-off in the internal energy
        const LD tole = 1e-13L + 4e-16L * amp;
        M.same("density", v.density(U), rho, 0.L, 0.L);
        M.same("internal-energy", v.internal_energy(U), re, 0.L, tole);
        const St di = v.internal_energy_derivative(U);
        M.same("internal-energy-derivative", di[0], .5L * m2 / rho / rho, 0.L);
        for (int d = 0; d < dim; ++d)
          M.same("internal-energy-derivative", di[1 + d], -LD(U[1 + d]) / rho, 0.L);
        M.same("internal-energy-derivative", di[dim + 1], 1.L, 0.L, 0.L);
        if (!v.is_admissible(U))
          mon::fail("C18/" + M.eqn + "/admissible-state-refused", "case %s trial %ld", M.nm, it);
        for (int k = 0; k < 2; ++k) {
          St X = U;
          if (k == 0)
            X[0] = -X[0], X[dim + 1] = std::abs(X[dim + 1]) + double(m2 / rho);
          else
            X[dim + 1] = double(E - 2.L * std::abs(re)) - 10. * std::abs(double(re));
          bool bad = true;
          if (k == 1) {
#ifdef VEQ_euler_aeos
            const double pinf = v.eos_interpolation_pinfty(), q = v.eos_interpolation_q(), b = v.eos_interpolation_b();
            bad = v.internal_energy(X) - double(rho) * q - pinf * (1. - b * double(rho)) < 0.;
#endif
          }
          fflush(stdout);
          const int fd = dup(1);
          FILE *nul = fopen("/dev/null", "w");
          dup2(fileno(nul), 1);
          const bool adm = v.is_admissible(X);
          std::cout.flush();
          fflush(stdout);
          dup2(fd, 1);
          close(fd);
          fclose(nul);
          if (bad && adm)
            mon::fail("C18/" + M.eqn + "/inadmissible-state-accepted", "case %s kind %d trial %ld", M.nm, k, it);
        }
#ifndef VEQ_euler_aeos
        const LD g = v.gamma(), p = (g - 1.L) * re;
        M.same("pressure", v.pressure(U), p, 0.L, tole);
        M.same("speed-of-sound", v.speed_of_sound(U), std::sqrt(g * p / rho), 0.L, tole);
        M.same("specific-entropy", v.specific_entropy(U), re * std::pow(rho, -g), 0.L, tole + 1e-12L);
        M.same("harten-entropy", v.harten_entropy(U), std::pow(rho * re, 1.L / (g + 1.L)), 0.L, tole + 1e-12L);
        M.same("mathematical-entropy", v.mathematical_entropy(U), std::pow(p, 1.L / g), 0.L, tole + 1e-12L);
        {
          const LD fac = std::pow(rho * re, 1.L / (g + 1.L) - 1.L) / (g + 1.L);
          const St dh = v.harten_entropy_derivative(U);
          M.same("harten-entropy-derivative", dh[0], fac * E, 0.L, 4. * tole + 1e-12L);
          for (int d = 0; d < dim; ++d)
            M.same("harten-entropy-derivative", dh[1 + d], -fac * LD(U[1 + d]), 0.L, 4. * tole + 1e-12L);
          M.same("harten-entropy-derivative", dh[dim + 1], fac * rho, 0.L, 4. * tole + 1e-12L);
          const LD fam = std::pow(p, 1.L / g - 1.L) * (g - 1.L) / g;
          const St dm = v.mathematical_entropy_derivative(U);
          M.same("mathematical-entropy-derivative", dm[0], fam * .5L * m2 / rho / rho, 0.L, 4. * tole + 1e-12L);
          for (int d = 0; d < dim; ++d)
            M.same("mathematical-entropy-derivative", dm[1 + d], -fam * LD(U[1 + d]) / rho, 0.L, 4. * tole + 1e-12L);
          M.same("mathematical-entropy-derivative", dm[dim + 1], fam, 0.L, 4. * tole + 1e-12L);
        }
        const auto f = v.f(U);
        const auto fT = v.f(UT);
        const auto prc = A.prec().template get_tensor<double>(i);
        M.same("precomputed-entropy", prc[0], v.specific_entropy(U), 0.L, 1e-12L);
        M.same("precomputed-harten", prc[1], v.harten_entropy(U), 0.L, 1e-12L);
        dealii::Tensor<1, 3> ini;
        ini[0] = double(rho), ini[1] = r.u(-2., 2.), ini[2] = double(p);
        const LD iniE = p / (g - 1.L) + .5L * rho * ini[1] * ini[1];
#else
        const double prho = U[0], pe = v.internal_energy(U) / U[0];
        const LD p = v.eos_pressure(prho, pe);
        // equation of state itself
        {
          const double ee = v.eos_specific_internal_energy(prho, double(p));
          const double off = std::abs(v.eos_interpolation_q()) + std::abs(v.eos_interpolation_pinfty()) / prho;
          M.same("eos-inverse", ee, pe, off, 1e-11L);
          const double pp = v.eos_pressure(prho, ee);
          M.same("eos-inverse", pp, p, 10. * (std::abs(v.eos_interpolation_pinfty()) + prho * std::abs(pe)), 1e-11L);
          // c^2 = dp/drho + p / rho^2 dp/de
          auto D = [&](auto fun, double x, double h) {
            auto q = [&](double s) { return (fun(x + s) - fun(x - s)) / (2. * s); };
            const double a = q(h), b = q(.5 * h), c2 = q(.25 * h);
            const double r1 = (4. * b - a) / 3., r2 = (4. * c2 - b) / 3.;
            return std::pair<double, double>((16. * r2 - r1) / 15., std::abs(r1 - r2));
          };
          const double b = v.eos_interpolation_b();
          const double hr = std::min(2e-3 * prho, b > 0. ? .01 * (1. / b - prho) : 1e300);
          const auto dr = D([&](double x) { return v.eos_pressure(x, pe); }, prho, hr);
          const auto de = D([&](double x) { return v.eos_pressure(prho, x); }, pe, 2e-3 * (std::abs(pe) + off));
          const double c = v.eos_speed_of_sound(prho, pe);
          const double c2 = dr.first + double(p) / prho / prho * de.first;
          const double er = dr.second + double(p) / prho / prho * de.second;
          M.same("eos-speed-of-sound", LD(c) * LD(c), c2, 1e6 * er + std::abs(p) / prho + std::abs(dr.first), 1e-7L);
          // thermodynamic consistency of the temperature: with v = 1/rho,
          // (de/dv)_T = T (dp/dT)_v - p for e(v, T), p(v, T)
          if (o.s("eos") != "func") {
            const double Tm = v.eos_temperature(prho, pe);
            const auto Te = D([&](double x) { return v.eos_temperature(prho, x); }, pe, 2e-3 * (std::abs(pe) + off));
            const auto Tr = D([&](double x) { return v.eos_temperature(x, pe); }, prho, hr);
            const double lhs = prho * prho * Tr.first / Te.first; // (de/dv)_T
            const double rhs = Tm * de.first / Te.first - double(p);
            M.same("eos-temperature-consistency", lhs, rhs, std::abs(p) + std::abs(Tm * de.first / Te.first) + off * prho, 1e-6L);
            if (o.m.count("cv"))
              M.same("eos-heat-capacity", 1. / Te.first, o.d("cv", 0.), 0.L, 1e-7L);
          }
        }
        const double gs = v.surrogate_gamma(U, double(p));
        M.same("surrogate-pressure", v.surrogate_pressure(U, gs), p, std::abs(v.eos_interpolation_pinfty()) * 10. + 1e-3 * std::abs(p), 1e-10L);
        {
          const LD b = v.eos_interpolation_b(), pinf = v.eos_interpolation_pinfty(), q = v.eos_interpolation_q();
          const LD cov = 1.L - b * rho, shift = re - rho * q - pinf * cov;
          const LD t2 = (1e-13L + 4e-16L * (std::abs(E) + m2 / rho) / shift + 4e-16L * (std::abs(rho * q) + pinf * cov) / shift + 1e-15L / cov) * 4.L;
          M.same("surrogate-gamma", gs, 1.L + (p + pinf) * cov / shift, 0.L, t2);
          const LD g = r.u(1.05, 2.5);
          M.same("surrogate-entropy", v.surrogate_specific_entropy(U, double(g)), shift / rho * std::pow(1.L / rho - b, g - 1.L), 0.L,
                 t2 + 1e-12L + 4e-16L / cov * 10.L);
          const LD h0 = std::pow(rho * shift * std::pow(cov, g - 1.L), 1.L / (g + 1.L));
          M.same("surrogate-harten", v.surrogate_harten_entropy(U, double(g)), h0, 0.L, t2 + 1e-12L + 1e-15L / cov);
          // derivative: rho^2 (e - q - pinf (1/rho - b)) (1 - b rho)^(g-1) to the power 1/(g+1)
          const St dh = v.surrogate_harten_entropy_derivative(U, double(h0), double(g));
          const LD F = rho * shift, cg = std::pow(cov, g - 1.L);
          const LD fac = std::pow(F * cg, 1.L / (g + 1.L) - 1.L) / (g + 1.L);
          // d/dE, d/dm, d/drho of rho * (E - m2/(2rho) - rho q - pinf (1 - b rho)) * cov^(g-1)
          const LD dE = rho * cg;
          const LD dR = (E - 2.L * rho * q - pinf * (1.L - 2.L * b * rho)) * cg - F * (g - 1.L) * b * std::pow(cov, g - 2.L);
          const LD mag = (std::abs(E) + 2.L * std::abs(rho * q) + pinf) * cg + F * (g - 1.L) * b * std::pow(cov, g - 2.L);
          M.same("surrogate-harten-derivative", dh[dim + 1], fac * dE, 0.L, 8. * t2 + 1e-11L);
          for (int d = 0; d < dim; ++d)
            M.same("surrogate-harten-derivative", dh[1 + d], -fac * cg * LD(U[1 + d]), 0.L, 8. * t2 + 1e-11L);
          M.same("surrogate-harten-derivative", dh[0], fac * dR, fac * mag, 8. * t2 + 1e-11L);
        }
        const auto f = v.f(U, double(p));
        const auto fT = v.f(UT, double(p));
        const auto prc = A.prec().template get_tensor<double>(i);
        M.same("precomputed-pressure", prc[0], p, 0.L, 1e-13L);
        {
          // smallest surrogate gamma of the stencil; entropies belong to it
          double gm = 1e300;
          const auto &sp = S.od.sparsity_pattern_simd();
          const unsigned int *js = sp.columns(i);
          const unsigned int st = i < S.od.n_locally_internal() ? dealii::VectorizedArray<double>::size() : 1;
          for (unsigned int c = 0; c < sp.row_length(i); ++c) {
            const unsigned int j = js[c * st];
            const St Uj = A.U(j);
            gm = std::min(gm, v.surrogate_gamma(Uj, v.eos_pressure(Uj[0], v.internal_energy(Uj) / Uj[0])));
          }
          M.same("precomputed-gamma-min", prc[1], gm, 0.L, 1e-10L);
          M.same("precomputed-entropy", prc[2], v.surrogate_specific_entropy(U, prc[1]), 0.L, 1e-11L);
          M.same("precomputed-harten", prc[3], v.surrogate_harten_entropy(U, prc[1]), 0.L, 1e-11L);
        }
        dealii::Tensor<1, 3> ini;
        ini[0] = double(rho), ini[1] = r.u(-2., 2.), ini[2] = double(p);
        const LD iniE = rho * v.eos_specific_internal_energy(ini[0], ini[2]) + .5L * rho * ini[1] * ini[1];
#endif
        const LD fs = m2 / rho + std::abs(p);
        for (int d = 0; d < dim; ++d) {
          M.same("flux-mass", f[0][d], U[1 + d], 0.L);
          for (int q = 0; q < dim; ++q)
            M.same("flux-momentum", f[1 + q][d], LD(U[1 + d]) * LD(U[1 + q]) / rho + (d == q ? p : 0.L), fs, 4. * tole);
          M.same("flux-energy", f[dim + 1][d], LD(U[1 + d]) / rho * (E + p), 0.L, 8. * tole);
        }
        for (int a = 0; a < dim; ++a) {
          for (int b = 0; b < dim; ++b) {
            LD w = 0.L;
            for (int c = 0; c < dim; ++c)
              for (int d = 0; d < dim; ++d)
                w += LD(T[a][c]) * LD(T[b][d]) * LD(f[1 + c][d]);
            M.same("flux-rotation", fT[1 + a][b], w, fs, 1e-11L + 100. * tole);
          }
          LD w = 0.L;
          for (int c = 0; c < dim; ++c)
            w += LD(T[a][c]) * LD(f[dim + 1][c]);
          M.same("flux-rotation", fT[dim + 1][a], w, fs * std::sqrt(m2) / rho + std::abs(E) * std::sqrt(m2) / rho, 1e-11L + 100. * tole);
        }
        const St I = v.from_initial_state(ini);
        M.same("initial-density", I[0], rho, 0.L, 0.L);
        M.same("initial-momentum", I[1], rho * LD(ini[1]), 0.L);
        for (int d = 1; d < dim; ++d)
          M.same("initial-transversal", I[1 + d], 0.L, 0.L, 0.L);
        M.same("initial-energy", I[dim + 1], iniE, 0.L, 1e-12L);
        const St W = v.to_primitive_state(U);
        M.same("primitive-density", W[0], rho, 0.L, 0.L);
        for (int d = 0; d < dim; ++d)
          M.same("primitive-velocity", W[1 + d], LD(U[1 + d]) / rho, 0.L);
#ifdef VEQ_euler_aeos
        M.same("primitive-energy", W[dim + 1], e, 0.L, 4. * tole);
#else
        (void)e;
        M.same("primitive-pressure", W[dim + 1], p, 0.L, 4. * tole);
#endif
      }
#endif
      // expansion of lower dimensional states and rotation of a state
      {
        if constexpr (dim > 1 && !is_scalar) {
          dealii::Tensor<1, pd - 1> low;
          low[0] = U[0];
          for (int d = 0; d < dim - 1; ++d)
            low[1 + d] = U[1 + d];
          if (is_gas)
            low[pd - 2] = U[pd - 1];
          const St X = v.expand_state(low);
          for (int k = 0; k < pd; ++k) {
            const LD want = k == dim ? 0.L : LD(U[k]);
            M.same("expand-state", X[k], want, 0.L, 0.L);
          }
        }
        if constexpr (!is_scalar) {
          const St X = v.apply_galilei_transform(U, [&](const auto &m) { return T * m; });
          for (int k = 0; k < pd; ++k)
            M.same("rotate-state", X[k], UT[k], std::abs(LD(U[1])), 1e-12L);
        }
      }
    }
  }
} // namespace sim
INSTANTIATE_OP(op_riemann)
INSTANTIATE_OP(op_thermo)
