// Numerical kernels (C23): power functions, bracketed Newton step, cubic
// spline, positive/negative part, packed access, against long double results.
#include "mon.h"
#include <newton.h>
#include <simd.h>
#include <cubic_spline.h>
#include <deal.II/base/vectorization.h>
#include <deal.II/lac/la_parallel_vector.h>
#include <deal.II/base/mpi.h>
#include <fstream>
#include <functional>
#include <limits>
#include <type_traits>
#include <vector>

using LD = long double;
using dealii::VectorizedArray;
static mon::Rng R(1);
static int reps;

template <typename T> struct W {
  static constexpr unsigned n = 1;
  static double get(const T &t, unsigned) { return t; }
  static void set(T &t, unsigned, double v) { t = v; }
};
template <typename T, std::size_t w> struct W<VectorizedArray<T, w>> {
  static constexpr unsigned n = w;
  static double get(const VectorizedArray<T, w> &t, unsigned k) { return t[k]; }
  static void set(VectorizedArray<T, w> &t, unsigned k, double v) { t[k] = v; }
};

// ------------------------------------------------------------------- powers
template <typename V> void powers(const char *name)
{
  using T = typename ryujin::get_value_type<V>::type;
  const bool dbl = std::is_same_v<T, double>;
  const double big = dbl ? 700. : 80.;
  const double tol = dbl ? 1e-14 : 2e-6, ftol = 1e-3;
  for (int r = 0; r < reps; ++r) {
    V x, b;
    T bs = 0;
    double xs[64], es[64];
    // exponents of the solvers: gamma, gamma - 1, 1/gamma, (gamma-1)/(2 gamma), 4/3, ... of both signs
    auto expo = [&]() -> double {
      const double g = 1. + R.lg(1e-4, 3.);
      switch (R.i(0, 10)) {
      case 0: return g;
      case 1: return g - 1.;
      case 2: return 1. / g;
      case 3: return (g - 1.) / (2. * g) * R.sgn();
      case 4: return 1. / (g + 1.);
      case 5: return -g / (g + 1.);
      case 6: return 4. / 3.;
      case 7: return 2. * g / (g - 1.);
      case 8: return -1. / (g - 1.);
      case 9: return R.sgn() * R.i(0, 4) * .5;
      default: return R.u(-10., 10.);
      }
    };
    bs = T(expo());
    for (unsigned k = 0; k < W<V>::n; ++k) {
      double base = R.i(0, 3) ? R.lg(1e-6, 1e6) : (R.i(0, 1) ? R.lg(dbl ? 1e-200 : 1e-30, dbl ? 1e200 : 1e30) : 1. + R.u(-1e-3, 1e-3));
      if (R.i(0, 40) == 0)
        base = 1.;
      xs[k] = T(base);
      es[k] = T(expo());
      W<V>::set(x, k, xs[k]);
      W<V>::set(b, k, es[k]);
    }
    auto chk = [&](const char *fn, const V &res, bool vec, double t) {
      for (unsigned k = 0; k < W<V>::n; ++k) {
        const LD e = vec ? LD(es[k]) : LD(bs), l = e * std::log(LD(xs[k]));
        if (std::abs(double(l)) > big)
          continue;
        const LD ref = powl(LD(xs[k]), e);
        double tt = t;
        // the approximation works in single precision: its range and the
        // rounding of both arguments
        if (t == ftol) {
          if (std::abs(double(l)) > 80. || xs[k] < 1e-36 || xs[k] > 1e36)
            continue;
          tt = ftol + 2e-6 * std::abs(double(l)) + 2e-7 * std::abs(double(e));
        }
        const double err = std::abs(double((LD(W<V>::get(res, k)) - ref) / ref));
        ++mon::evals();
        mon::nontriv() += (xs[k] != 1. && e != 0.L);
        if (!(err <= tt))
          mon::fail(std::string("C23/") + fn, "%s: %s base %.17g exponent %.17Lg lane %u: %.17g instead of %.17Lg, relative error %.2e", fn,
                    name, xs[k], e, k, W<V>::get(res, k), ref, err);
      }
    };
    if constexpr (W<V>::n == 1 && std::is_same_v<V, T>) {
      chk("pow", ryujin::pow(x, bs), false, tol);
      for (auto bias : {ryujin::Bias::none, ryujin::Bias::max, ryujin::Bias::min})
        chk("fast_pow", ryujin::fast_pow(x, bs, bias), false, ftol);
    } else {
      chk("pow", ryujin::pow(x, bs), false, tol);
      chk("pow-vec-exponent", ryujin::pow(x, b), true, tol);
      for (auto bias : {ryujin::Bias::none, ryujin::Bias::max, ryujin::Bias::min}) {
        chk("fast_pow", ryujin::fast_pow(x, bs, bias), false, ftol);
        chk("fast_pow-vec-exponent", ryujin::fast_pow(x, b, bias), true, ftol);
      }
    }
    // positive/negative part, fixed powers
    V y;
    double ys[64];
    for (unsigned k = 0; k < W<V>::n; ++k) {
      ys[k] = T(R.i(0, 12) == 0 ? 0. : R.sgn() * R.lg(1e-10, 1e10));
      W<V>::set(y, k, ys[k]);
    }
    const V pp = ryujin::positive_part(y), np = ryujin::negative_part(y);
    const V f2 = ryujin::fixed_power<2>(y), f3 = ryujin::fixed_power<3>(y);
    const double feps = 8. * std::numeric_limits<T>::epsilon();
    for (unsigned k = 0; k < W<V>::n; ++k) {
      ++mon::evals();
      mon::nontriv() += ys[k] != 0.;
      if (W<V>::get(pp, k) != std::max(ys[k], 0.))
        mon::fail("C23/positive_part", "%s: of %.17g is %.17g", name, ys[k], W<V>::get(pp, k));
      if (W<V>::get(np, k) != std::max(-ys[k], 0.))
        mon::fail("C23/negative_part", "%s: of %.17g is %.17g", name, ys[k], W<V>::get(np, k));
      if (!(std::abs(W<V>::get(f2, k) - ys[k] * ys[k]) <= feps * ys[k] * ys[k]))
        mon::fail("C23/fixed_power", "%s: square of %.17g is %.17g", name, ys[k], W<V>::get(f2, k));
      if (!(std::abs(W<V>::get(f3, k) - ys[k] * ys[k] * ys[k]) <= feps * std::abs(ys[k] * ys[k] * ys[k])))
        mon::fail("C23/fixed_power", "%s: cube of %.17g is %.17g", name, ys[k], W<V>::get(f3, k));
    }
  }
}

// ------------------------------------------------------------------- Newton
// functions with a third derivative of one sign and one change of sign
struct Fn {
  std::function<LD(LD)> f, d;
  LD a, b, root;
  double sign;
  std::string txt;
  LD fmax, dmin, dmax;
};
static bool make_fn(Fn &F)
{
  const double c = R.u(-2., 2.), w = R.lg(1e-2, 8.);
  F.a = c;
  F.b = c + w;
  char buf[400];
  const int kind = R.i(0, 4);
  const double sg = R.sgn();
  if (kind == 0) { // cubic
    const double a3 = R.sgn() * R.lg(1e-3, 10.), a2 = R.u(-3., 3.), a1 = R.u(-3., 3.), z = R.u(0., w);
    F.f = [=](LD x) {
      auto p = [&](LD t) { return ((a3 * t + a2) * t + a1) * t; };
      return sg * (p(x - c) - p(z));
    };
    F.d = [=](LD x) { return sg * ((3.L * a3 * (x - c) + 2.L * a2) * (x - c) + a1); };
    snprintf(buf, sizeof buf, "cubic %.17g %.17g %.17g root offset %.17g", a3, a2, a1, z);
  } else if (kind == 1) { // exponential plus quadratic
    const double k = R.sgn() * R.u(.2, 3.), A = R.u(.2, 3.), a2 = R.u(-2., 2.), z = R.u(0., w);
    F.f = [=](LD x) {
      auto p = [&](LD t) { return A * std::exp(k * t) + a2 * t * t; };
      return sg * (p(x - c) - p(z));
    };
    F.d = [=](LD x) { return sg * (A * k * std::exp(k * (x - c)) + 2.L * a2 * (x - c)); };
    snprintf(buf, sizeof buf, "exp k %.17g A %.17g a2 %.17g root offset %.17g", k, A, a2, z);
  } else if (kind == 2) { // entropy type: r^(g+1) against r e
    const double g = R.u(1.05, 2.9), r0 = R.lg(.1, 10.), dr = R.u(-.9, 5.) * r0 / w, z = R.u(0., w), A = R.u(.1, 3.);
    F.f = [=](LD x) {
      auto p = [&](LD t) { return A * std::pow(r0 + dr * t, LD(g + 1.)); };
      return sg * (p(x - c) - p(z));
    };
    F.d = [=](LD x) { return sg * A * (g + 1.) * dr * std::pow(r0 + dr * (x - c), LD(g)); };
    snprintf(buf, sizeof buf, "power g %.17g r0 %.17g dr %.17g A %.17g root offset %.17g", g, r0, dr, A, z);
  } else if (kind == 3) { // quadratic (kinetic bound of shallow water)
    const double a2 = R.u(-3., 3.), a1 = R.u(-3., 3.), z = R.u(0., w);
    F.f = [=](LD x) {
      auto p = [&](LD t) { return (a2 * t + a1) * t; };
      return sg * (p(x - c) - p(z));
    };
    F.d = [=](LD x) { return sg * (2.L * a2 * (x - c) + a1); };
    snprintf(buf, sizeof buf, "quadratic %.17g %.17g root offset %.17g", a2, a1, z);
  } else { // Riemann type: sqrt/log
    const double A = R.u(.2, 3.), k = R.lg(.1, 5.), z = R.u(0., w);
    F.f = [=](LD x) {
      auto p = [&](LD t) { return A * std::log(k + t); };
      return sg * (p(x - c) - p(z));
    };
    F.d = [=](LD x) { return sg * A / (k + (x - c)); };
    snprintf(buf, sizeof buf, "log A %.17g k %.17g root offset %.17g", A, k, z);
  }
  const LD fa = F.f(F.a), fb = F.f(F.b);
  if (!(fa * fb <= 0.L) || fa == fb)
    return false;
  F.sign = fb > fa ? 1. : -1.;
  F.dmin = 1e30L, F.dmax = 0.L, F.fmax = 0.L;
  for (int i = 0; i <= 64; ++i) {
    const LD x = F.a + (F.b - F.a) * i / 64.L;
    F.dmin = std::min(F.dmin, F.sign * F.d(x));
    F.dmax = std::max(F.dmax, std::abs(F.d(x)));
    F.fmax = std::max(F.fmax, std::abs(F.f(x)));
  }
  // one crossing, well conditioned
  if (!(F.dmin > .01L * F.dmax) || !(F.dmax > 1e-2L) || !(F.dmax < 1e3L))
    return false;
  LD l = F.a, r = F.b;
  for (int i = 0; i < 200; ++i) {
    const LD m = .5L * (l + r);
    (F.sign * F.f(m) <= 0.L ? l : r) = m;
  }
  F.root = .5L * (l + r);
  F.txt = std::string(buf) + (sg < 0 ? " negated" : "");
  return true;
}
template <typename V> void newton(const char *name)
{
  using T = typename ryujin::get_value_type<V>::type;
  const double eps = std::numeric_limits<T>::epsilon();
  for (int r = 0; r < reps; ++r) {
    Fn F[64];
    double sign = 0.;
    for (unsigned k = 0; k < W<V>::n;) {
      if (make_fn(F[k]) && (k == 0 || F[k].sign == sign)) {
        sign = F[k].sign;
        ++k;
      }
    }
    V p1, p2, f1, f2, d1, d2;
    double o1[64], o2[64], gap0[64], prev[64];
    for (unsigned k = 0; k < W<V>::n; ++k) {
      // start of the search: whole interval, or one end close to the root
      LD a = F[k].a, b = F[k].b;
      const int m = R.i(0, 5);
      if (m == 1)
        a = F[k].root - (F[k].root - a) * R.lg(1e-4, 1.);
      if (m == 2)
        b = F[k].root + (b - F[k].root) * R.lg(1e-4, 1.);
      if (m == 3) // the root is the left end
        a = F[k].root;
      if (m == 4)
        b = F[k].root;
      W<V>::set(p1, k, a);
      W<V>::set(p2, k, b);
      o1[k] = W<V>::get(p1, k), o2[k] = W<V>::get(p2, k);
      gap0[k] = o2[k] - o1[k];
      prev[k] = gap0[k];
    }
    for (int it = 0; it < 12; ++it) {
      bool go = false;
      for (unsigned k = 0; k < W<V>::n; ++k) {
        const double a = W<V>::get(p1, k), b = W<V>::get(p2, k);
        W<V>::set(f1, k, F[k].f(a));
        W<V>::set(f2, k, F[k].f(b));
        W<V>::set(d1, k, F[k].d(a));
        W<V>::set(d2, k, F[k].d(b));
        o1[k] = a, o2[k] = b;
        go = go || b - a > 1e-3;
      }
      if (!go)
        break;
      ryujin::quadratic_newton_step(p1, p2, f1, f2, d1, d2, V(T(sign)));
      for (unsigned k = 0; k < W<V>::n; ++k) {
        const double a = W<V>::get(p1, k), b = W<V>::get(p2, k);
        ++mon::evals();
        mon::nontriv() += (b - a < o2[k] - o1[k]);
        if (!(o1[k] <= a && a <= b && b <= o2[k]))
          mon::fail("C23/newton-widens", "%s [%.17g, %.17g] becomes [%.17g, %.17g] (%s)", name, o1[k], o2[k], a, b, F[k].txt.c_str());
        const double g = o2[k] - o1[k];
        if (g < 1e-3)
          continue; // differences lose their digits
        const double cond = double((F[k].fmax + 1.L) / (F[k].dmin));
        const double slack = 64. * eps * (1. + cond + std::abs(a)) * (1. + 1. / g);
        if (a - double(F[k].root) > slack || double(F[k].root) - b > slack)
          mon::fail("C23/newton-bracket", "%s step %d [%.17g, %.17g] becomes [%.17g, %.17g] root %.17Lg slack %.2e (%s, starting at %.17Lg %.17Lg)",
                    name, it, o1[k], o2[k], a, b, F[k].root, slack, F[k].txt.c_str(), F[k].a, F[k].b);
      }
    }
    for (unsigned k = 0; k < W<V>::n; ++k) {
      const double a = W<V>::get(p1, k), b = W<V>::get(p2, k);
      // the width after at most twelve steps: convergence is cubic
      if (!(b - a <= 1.001e-3))
        mon::fail("C23/newton-converges", "%s bracket still [%.17g, %.17g] after 12 steps (%s)", name, a, b, F[k].txt.c_str());
    }
  }
}

// ------------------------------------------------------------------- spline
static void spline()
{
#ifdef DEAL_II_WITH_GSL
  for (int r = 0; r < std::max(20, reps / 20); ++r) {
    const int n = R.i(3, 20);
    std::vector<double> x(n), y(n);
    double t = R.u(-2., 2.);
    for (int i = 0; i < n; ++i) {
      x[i] = t;
      t += R.lg(1e-2, 1.);
      y[i] = R.u(-3., 3.);
    }
    // natural spline, dense elimination in long double
    std::vector<LD> m(n, 0.L), c(n, 0.L), d(n, 0.L);
    for (int i = 1; i < n - 1; ++i) {
      const LD h0 = x[i] - x[i - 1], h1 = x[i + 1] - x[i];
      const LD rhs = 6.L * ((y[i + 1] - y[i]) / h1 - (y[i] - y[i - 1]) / h0);
      const LD den = 2.L * (h0 + h1) - h0 * c[i - 1];
      c[i] = h1 / den;
      d[i] = (rhs - h0 * d[i - 1]) / den;
    }
    for (int i = n - 2; i > 0; --i)
      m[i] = d[i] - c[i] * m[i + 1];
    LD ms = 0.L;
    for (auto v : m)
      ms = std::max(ms, std::abs(v));
    ryujin::CubicSpline s0(x, y);
    ryujin::CubicSpline s1(s0);
    for (int q = 0; q < 40; ++q) {
      const int i = R.i(0, n - 2);
      const double p = q < 8 ? x[std::min(n - 1, q * (n - 1) / 7)] : R.u(x[i], x[i + 1]);
      int j = 0;
      while (j < n - 2 && p > x[j + 1])
        ++j;
      const LD h = LD(x[j + 1]) - x[j], A = (x[j + 1] - LD(p)) / h, B = 1.L - A;
      const LD ref = A * y[j] + B * y[j + 1] + ((A * A * A - A) * m[j] + (B * B * B - B) * m[j + 1]) * h * h / 6.L;
      const double tol = double(1e-12L * (10.L + ms));
      ++mon::evals();
      ++mon::nontriv();
      if (!(std::abs(double(s0.eval(p) - ref)) <= tol))
        mon::fail("C23/spline", "natural spline at %.17g is %.17g instead of %.17Lg (%d points)", p, s0.eval(p), ref, n);
      if (!(s1.eval(p) == s0.eval(p)))
        mon::fail("C23/spline-copy", "copied spline at %.17g is %.17g, original %.17g", p, s1.eval(p), s0.eval(p));
    }
  }
#endif
}

// -------------------------------------------------------------- packed access
template <typename V> void access(const char *name)
{
  using T = typename ryujin::get_value_type<V>::type;
  constexpr unsigned w = W<V>::n;
  for (int r = 0; r < std::max(20, reps / 20); ++r) {
    const unsigned n = w * R.i(2, 12);
    dealii::LinearAlgebra::distributed::Vector<T> v(n);
    std::vector<T> s(n);
    std::vector<std::conditional_t<std::is_same_v<T, double>, float, double>> o(n);
    for (unsigned i = 0; i < n; ++i) {
      v.local_element(i) = T(R.u(-1., 1.));
      s[i] = T(R.u(-1., 1.));
      o[i] = float(R.u(-1., 1.));
    }
    const unsigned i = w * R.i(0, n / w - 1);
    unsigned js[64];
    for (unsigned k = 0; k < w; ++k)
      js[k] = R.i(0, n - 1);
    const V a = ryujin::get_entry<V>(v, i), b = ryujin::get_entry<V>(v, js), c = ryujin::get_entry<V>(s, i), e = ryujin::get_entry<V>(o, i);
    for (unsigned k = 0; k < w; ++k) {
      ++mon::evals();
      mon::nontriv()++;
      if (W<V>::get(a, k) != v.local_element(i + k))
        mon::fail("C23/get_entry", "%s sequential lane %u", name, k);
      if (W<V>::get(b, k) != v.local_element(js[k]))
        mon::fail("C23/get_entry", "%s gathered lane %u", name, k);
      if (W<V>::get(c, k) != s[i + k])
        mon::fail("C23/get_entry", "%s std::vector lane %u", name, k);
      if (W<V>::get(e, k) != o[i + k])
        mon::fail("C23/get_entry", "%s std::vector of other precision lane %u", name, k);
    }
    V val;
    for (unsigned k = 0; k < w; ++k)
      W<V>::set(val, k, float(R.u(-1., 1.)));
    auto v0 = v;
    auto s0 = s;
    auto o0 = o;
    ryujin::write_entry(v, val, i);
    ryujin::write_entry(s, val, i);
    ryujin::write_entry(o, val, i);
    for (unsigned j = 0; j < n; ++j) {
      const bool in = j >= i && j < i + w;
      const double ref = in ? W<V>::get(val, j - i) : 0.;
      if (v.local_element(j) != (in ? T(ref) : v0.local_element(j)))
        mon::fail("C23/write_entry", "%s entry %u after writing at %u", name, j, i);
      if (s[j] != (in ? T(ref) : s0[j]))
        mon::fail("C23/write_entry", "%s std::vector entry %u after writing at %u", name, j, i);
      if (o[j] != (in ? typename decltype(o)::value_type(ref) : o0[j]))
        mon::fail("C23/write_entry", "%s std::vector of other precision entry %u after writing at %u", name, j, i);
    }
    // tensors
    dealii::Tensor<1, 3, V> t1, u1;
    dealii::Tensor<2, 2, V> t2, u2;
    for (unsigned d = 0; d < 3; ++d)
      for (unsigned k = 0; k < w; ++k)
        W<V>::set(t1[d], k, T(R.u(-1., 1.)));
    for (unsigned d = 0; d < 4; ++d)
      for (unsigned k = 0; k < w; ++k)
        W<V>::set(t2[d / 2][d % 2], k, T(R.u(-1., 1.)));
    u1 = dealii::Tensor<1, 3, V>();
    u2 = dealii::Tensor<2, 2, V>();
    for (unsigned k = 0; k < w; ++k) {
      const auto q1 = ryujin::serialize_tensor(t1, k);
      const auto q2 = ryujin::serialize_tensor(t2, k);
      for (unsigned d = 0; d < 3; ++d)
        if (double(q1[d]) != W<V>::get(t1[d], k))
          mon::fail("C23/serialize_tensor", "%s rank 1 component %u lane %u", name, d, k);
      for (unsigned d = 0; d < 4; ++d)
        if (double(q2[d / 2][d % 2]) != W<V>::get(t2[d / 2][d % 2], k))
          mon::fail("C23/serialize_tensor", "%s rank 2 component %u lane %u", name, d, k);
      ryujin::assign_serial_tensor(u1, q1, k);
      ryujin::assign_serial_tensor(u2, q2, k);
    }
    for (unsigned k = 0; k < w; ++k) {
      for (unsigned d = 0; d < 3; ++d)
        if (W<V>::get(u1[d], k) != W<V>::get(t1[d], k))
          mon::fail("C23/assign_serial_tensor", "%s rank 1 component %u lane %u", name, d, k);
      for (unsigned d = 0; d < 4; ++d)
        if (W<V>::get(u2[d / 2][d % 2], k) != W<V>::get(t2[d / 2][d % 2], k))
          mon::fail("C23/assign_serial_tensor", "%s rank 2 component %u lane %u", name, d, k);
    }
  }
}

template <typename V> void all(const char *name)
{
  long n0 = mon::evals();
  powers<V>(name);
  mon::stat(std::string("powers:") + name, mon::evals() - n0), n0 = mon::evals();
  if (std::is_same_v<typename ryujin::get_value_type<V>::type, double>)
    newton<V>(name);
  mon::stat(std::string("newton:") + name, mon::evals() - n0);
  access<V>(name);
}

int main(int argc, char **argv)
{
  dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  for (int i = 1; i < argc; ++i) {
    unsigned long seed = 1;
    reps = 2000;
    printf("CASE %s\n", argv[i]);
    fflush(stdout);
    std::ifstream f(argv[i]);
    for (std::string l; std::getline(f, l);) {
      if (!l.compare(0, 8, "#@ seed="))
        seed = atol(l.c_str() + 8);
      if (!l.compare(0, 8, "#@ reps="))
        reps = atoi(l.c_str() + 8);
    }
    R = mon::Rng(seed);
    all<double>("double");
    all<float>("float");
    all<VectorizedArray<double, 1>>("VectorizedArray<double,1>");
    all<VectorizedArray<float, 1>>("VectorizedArray<float,1>");
#ifdef KERN_WIDE
    all<VectorizedArray<double, 2>>("VectorizedArray<double,2>");
    all<VectorizedArray<double, 4>>("VectorizedArray<double,4>");
    all<VectorizedArray<float, 4>>("VectorizedArray<float,4>");
    all<VectorizedArray<float, 8>>("VectorizedArray<float,8>");
#endif
    spline();
    mon::sample("%d repetitions per type, seed %lu", reps, seed);
  }
  mon::finish();
}
