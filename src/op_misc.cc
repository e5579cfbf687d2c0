// C20: initial states against their governing equations, jump conditions, documented parameters
// and rigid motions; interpolation onto the mesh.
#include "ops.h"

namespace sim
{
  template <int dim>
  struct Initial {
    using S = Sim<dim>;
    using State = typename S::state_type;
    using P = dealii::Point<dim>;
    static constexpr int pd = S::pd;
    const Options &o;
    S &s;
    const InitialValues<Desc, dim, double> &ref; // direction e_x, position 0
    std::string name;
    double gamma, b, g, friction, mu, kappa, lambda;

    Initial(const Options &o, S &s, const InitialValues<Desc, dim, double> &ref)
        : o(o), s(s), ref(ref), name(o.s("conf")), gamma(o.d("gamma", 1.4)), b(o.d("covolume", 0.)), g(o.d("gravity", 9.81)),
          friction(o.d("manning", 0.)), mu(o.d("mu", 0.)), kappa(o.d("kappa", 0.)), lambda(o.d("lambda", 0.))
    {}

    double bath(const P &x) const
    {
      if constexpr (is_sw)
        return ref.initial_precomputed(x)[0];
      return 0.;
    }

    double pressure(const State &U) const
    {
      if constexpr (is_gas) {
        double m2 = 0.;
        for (int d = 0; d < dim; ++d)
          m2 += U[1 + d] * U[1 + d];
        return (gamma - 1.) * (U[dim + 1] - .5 * m2 / U[0]) / (1. - b * U[0]);
      } else if constexpr (is_sw)
        return .5 * g * U[0] * U[0];
      return 0.;
    }

    // column d of the flux
    State flux(const State &U, int d) const
    {
      State F;
      if constexpr (!is_scalar) {
        const double v = U[0] > 0. ? U[1 + d] / U[0] : 0., p = pressure(U);
        F[0] = U[1 + d];
        for (int k = 0; k < dim; ++k)
          F[1 + k] = U[1 + k] * v + (k == d ? p : 0.);
        if constexpr (is_gas)
          F[dim + 1] = (U[dim + 1] + p) * v;
      }
      return F;
    }

    bool admissible(const State &U, std::string &why) const
    {
      for (int k = 0; k < pd; ++k)
        if (!std::isfinite(U[k])) {
          why = "component " + std::to_string(k) + " is not finite";
          return false;
        }
      if constexpr (is_gas) {
        double m2 = 0.;
        for (int d = 0; d < dim; ++d)
          m2 += U[1 + d] * U[1 + d];
        why = "density " + std::to_string(U[0]) + " internal energy " + std::to_string(U[dim + 1] - .5 * m2 / U[0]);
        return U[0] > 0. && U[dim + 1] - .5 * m2 / U[0] > 0.;
      }
      if constexpr (is_sw) {
        why = "water depth " + std::to_string(U[0]);
        return U[0] >= 0.;
      }
      return true;
    }

    P sample(mon::Rng &r) const
    {
      P x;
      for (int d = 0; d < dim; ++d)
        x[d] = d == 0 ? r.u(o.d("xmin", -1.), o.d("xmax", 1.)) : r.u(o.d("ymin", -1.), o.d("ymax", 1.));
      return x;
    }

    double at_time(mon::Rng &r) const { return r.u(o.d("tmin", .1), o.d("tmax", 1.)); }

    void check_admissible(mon::Rng &r)
    {
      for (int k = 0; k < 4000; ++k) {
        P x = sample(r);
        if (k < 20)
          x = P();
        if (k % 16 == 1)
          for (int d = 0; d < dim; ++d)
            x[d] = std::round(x[d] * 10.) / 10.;
        const double t = k % 5 == 0 ? 0. : o.i("steady", 0) ? 0. : at_time(r);
        const State U = ref.initial_state(x, t);
        std::string why;
        ++mon::evals();
        if (!admissible(U, why)) {
          mon::fail("C20/admissible/" + name, "%s at x = (%g%s), t = %g", why.c_str(), x[0], dim > 1 ? ", ..." : "", t);
          return;
        }
        if (is_sw && !std::isfinite(bath(x))) {
          mon::fail("C20/bathymetry/" + name, "not finite at x = %g", x[0]);
          return;
        }
      }
    }

    static double d1(double a2, double a1, double b1, double b2, double h) { return (8. * (b1 - a1) - (b2 - a2)) / (12. * h); }

    // residual of the governing equation relative to the size of its terms
    double residual(const P &x, double t, double h, int &comp) const
    {
      auto shift = [&](int d, double q) {
        P y = x;
        y[d] += q;
        return y;
      };
      State R, A, D[4];
      const State U = ref.initial_state(x, t);
      for (int q = 0, k = -2; k <= 2; ++k)
        if (k)
          D[q++] = ref.initial_state(x, t + k * h);
      for (int c = 0; c < pd; ++c) {
        R[c] = d1(D[0][c], D[1][c], D[2][c], D[3][c], h);
        A[c] = std::abs(R[c]);
      }
      for (int d = 0; d < dim; ++d) {
        for (int q = 0, k = -2; k <= 2; ++k)
          if (k)
            D[q++] = flux(ref.initial_state(shift(d, k * h), t), d);
        for (int c = 0; c < pd; ++c) {
          const double f = d1(D[0][c], D[1][c], D[2][c], D[3][c], h);
          R[c] += f;
          A[c] += std::abs(f);
        }
        if constexpr (is_sw) {
          const double z = d1(bath(shift(d, -2. * h)), bath(shift(d, -h)), bath(shift(d, h)), bath(shift(d, 2. * h)), h);
          R[1 + d] += g * U[0] * z;
          A[1 + d] += std::abs(g * U[0] * z);
        }
      }
      if constexpr (is_sw)
        if (friction != 0. && U[0] > 0.) {
          double q2 = 0.;
          for (int d = 0; d < dim; ++d)
            q2 += U[1 + d] * U[1 + d];
          for (int d = 0; d < dim; ++d) {
            const double f = g * friction * friction * std::sqrt(q2) * U[1 + d] * std::pow(U[0], -7. / 3.);
            R[1 + d] += f;
            A[1 + d] += std::abs(f);
          }
        }
      if constexpr (is_gas)
        if (mu != 0.) {
          // the flow depends on x only
          auto prim = [&](double q, double &u, double &e) {
            const State V = ref.initial_state(shift(0, q), t);
            u = V[1] / V[0];
            e = V[dim + 1] / V[0] - .5 * u * u;
          };
          auto visc = [&](double q, double &m, double &en) {
            double u[4], e[4], u0, e0;
            for (int i = 0, k = -2; k <= 2; ++k)
              if (k) {
                prim(q + k * h, u[i], e[i]);
                ++i;
              }
            prim(q, u0, e0);
            m = (4. / 3. * mu + lambda) * d1(u[0], u[1], u[2], u[3], h);
            en = u0 * m + kappa * d1(e[0], e[1], e[2], e[3], h);
          };
          double m[4], e[4];
          for (int i = 0, k = -2; k <= 2; ++k)
            if (k) {
              visc(k * h, m[i], e[i]);
              ++i;
            }
          const double vm = d1(m[0], m[1], m[2], m[3], h), ve = d1(e[0], e[1], e[2], e[3], h);
          R[1] -= vm;
          A[1] += std::abs(vm);
          R[dim + 1] -= ve;
          A[dim + 1] += std::abs(ve);
        }
      double worst = 0.;
      comp = 0;
      for (int c = 0; c < pd; ++c) {
        const double rel = std::abs(R[c]) / (A[c] + o.d("floor", 1e-2) * (std::abs(U[c]) + o.d("scale", 1e-3)));
        if (!(rel <= worst)) {
          worst = rel;
          comp = c;
        }
      }
      return worst;
    }

    void check_equation(mon::Rng &r)
    {
      const double h0 = o.d("h", 1e-3), tol = o.d("tol", 1e-6);
      int bad = 0, moving = 0, n = o.i("points", 1500);
      double worst = 0.;
      for (int k = 0; k < n; ++k) {
        const P x = sample(r);
        const double t = at_time(r);
        if constexpr (is_sw)
          if (!(ref.initial_state(x, t)[0] > o.d("dry", 1e-6)))
            continue;
        ++mon::evals();
        double best = 1e300;
        int comp = 0, cb = 0;
        // a front inside of a stencil spoils it, a smaller stencil avoids the front
        for (double h : {h0, h0 / 4., h0 / 32., h0 / 256.}) {
          const double q = residual(x, t, h, comp);
          if (q < best) {
            best = q;
            cb = comp;
          }
          if (best <= tol)
            break;
        }
        State U = ref.initial_state(x, t), V = ref.initial_state(x, t + .01 * (1. + std::abs(t)));
        moving += (U - V).norm() > 1e-9 * U.norm();
        if (best > tol) {
          if (++bad > 3) {
            mon::fail("C20/equation/" + name, "relative residual %g of component %d at x = (%g, %g), t = %g", best, cb, x[0], dim > 1 ? x[dim > 1] : 0., t);
            return;
          }
        } else
          worst = std::max(worst, best);
      }
      if (moving || o.i("steady", 0))
        ++mon::nontriv();
      mon::sample("%s: largest residual %.1e, %d of %d points change in time, %d next to fronts", name.c_str(), worst, moving, n, bad);
    }

    // discontinuities on the x-axis (or on the radius): Rankine-Hugoniot conditions
    void check_jumps(mon::Rng &r)
    {
      const int n = 4000;
      const double a = o.d("jmin", o.d("xmin", -1.)), e = o.d("xmax", 1.);
      long found = 0;
      for (int rep = 0; rep < 3; ++rep) {
        const double t = at_time(r), dt = 1e-3 * o.d("tmax", 1.);
        auto at = [&](double x, double tt) {
          P p;
          p[0] = x;
          return ref.initial_state(p, tt);
        };
        auto diff = [&](const State &A, const State &B) {
          double q = 0.;
          for (int c = 0; c < pd; ++c)
            q = std::max(q, std::abs(A[c] - B[c]) / (std::abs(A[c]) + std::abs(B[c]) + 1e-300));
          return q;
        };
        auto locate = [&](double x0, double x1, double tt, State &L, State &R) {
          L = at(x0, tt), R = at(x1, tt);
          for (int k = 0; k < 70 && x1 - x0 > 4e-16 * (std::abs(x0) + std::abs(x1)); ++k) {
            const double m = .5 * (x0 + x1);
            const State M = at(m, tt);
            if (diff(L, M) > diff(M, R)) {
              x1 = m;
              R = M;
            } else {
              x0 = m;
              L = M;
            }
          }
          return .5 * (x0 + x1);
        };
        State prev = at(a, t);
        const double dx = (e - a) / n;
        for (int k = 1; k <= n; ++k) {
          const double x = a + k * dx;
          const State cur = at(x, t);
          if (diff(prev, cur) > 1e-3) {
            State L, R, L2, R2;
            const double xs = locate(x - dx, x, t, L, R);
            if (diff(L, R) > 1e-3) {
              const double w = o.d("maxspeed", 10.) * dt;
              const double x2 = locate(xs - w, xs + w, t + dt, L2, R2);
              if (diff(L2, R2) > 1e-3) {
                const double sp = (x2 - xs) / dt;
                ++found;
                ++mon::evals();
                const State FL = flux(L, 0), FR = flux(R, 0);
                for (int c = 0; c < pd; ++c) {
                  const double q = FR[c] - FL[c] - sp * (R[c] - L[c]);
                  const double sc = std::abs(FR[c]) + std::abs(FL[c]) + std::abs(sp) * (std::abs(R[c]) + std::abs(L[c])) + o.d("jumpscale", 1e-9);
                  if (!(std::abs(q) <= o.d("jumptol", 1e-6) * sc)) {
                    mon::fail("C20/jump/" + name, "front at x = %g, t = %g with speed %.10g: component %d of the jump condition is violated by %g (relative)", xs, t, sp, c,
                              std::abs(q) / sc);
                    return;
                  }
                }
                if (o.d("speed", -1e300) > -1e299 && std::abs(sp - o.d("speed", 0.)) > 1e-6 * (1. + std::abs(sp)))
                  mon::fail("C20/front-speed/" + name, "the front moves with speed %.10g instead of %.10g", sp, o.d("speed", 0.));
              }
            }
          }
          prev = cur;
        }
      }
      if (found)
        ++mon::nontriv();
      else if (o.i("fronts", 0))
        mon::fail("C20/front/" + name, "no discontinuity found");
      mon::stat("fronts", found);
    }

    // "#@ want=x[,y[,z]];t;prim...|..." : primitive values (rho, v_1 .. v_dim, p) or (h, v_1 .. v_dim)
    void check_meaning()
    {
      std::stringstream in(o.s("want"));
      std::string item;
      while (std::getline(in, item, '|')) {
        std::stringstream f(item);
        std::string part;
        std::vector<std::vector<double>> v;
        while (std::getline(f, part, ';')) {
          std::stringstream q(part);
          std::string num;
          v.emplace_back();
          while (std::getline(q, num, ','))
            v.back().push_back(std::stod(num));
        }
        P x;
        for (unsigned int d = 0; d < dim && d < v[0].size(); ++d)
          x[d] = v[0][d];
        const State U = ref.initial_state(x, v[1][0]);
        std::vector<double> w{U[0]};
        if (!is_scalar)
          for (int d = 0; d < dim; ++d)
            w.push_back(U[0] != 0. ? U[1 + d] / U[0] : 0.);
        if (is_gas)
          w.push_back(pressure(U));
        ++mon::evals();
        ++mon::nontriv();
        for (unsigned int c = 0; c < w.size() && c < v[2].size(); ++c)
          if (!(std::abs(w[c] - v[2][c]) <= 1e-10 * (1. + std::abs(v[2][c])))) {
            mon::fail("C20/meaning/" + name, "component %u of the primitive state at x = (%s), t = %g is %.12g instead of %.12g", c, item.substr(0, item.find(';')).c_str(), v[1][0],
                      w[c], v[2][c]);
            break;
          }
      }
    }

    // position and direction: a rigid motion of the reference configuration
    void check_motion(mon::Rng &r, const dealii::Tensor<1, dim> &dir, const P &pos)
    {
      const std::string kind = o.s("kind", "plane");
      int n = 0;
      for (int k = 0; k < 600; ++k) {
        const P y = sample(r);
        const double t = o.i("steady", 0) ? 0. : at_time(r);
        P x;
        if constexpr (dim == 1)
          x = pos + (y - P());
        else if constexpr (dim == 2) {
          x[0] = pos[0] + dir[0] * y[0] - dir[1] * y[1];
          x[1] = pos[1] + dir[1] * y[0] + dir[0] * y[1];
        } else {
          // any frame that starts with the direction
          dealii::Tensor<1, 3> a, e1, e2;
          a[std::abs(dir[0]) < .6 ? 0 : 1] = 1.;
          e1 = a - (a * dir) * dir;
          e1 /= e1.norm();
          e2 = dealii::cross_product_3d(dir, e1);
          for (int d = 0; d < 3; ++d)
            x[d] = pos[d] + dir[d] * y[0] + e1[d] * y[1] + e2[d] * y[2];
          if (kind == "full")
            continue;
        }
        const State W = s.iv.initial_state(x, t), U = ref.initial_state(y, t);
        // next to a discontinuity the two points may fall on different sides
        bool edge = false;
        for (int d = 0; d < dim; ++d)
          for (double q : {-1e-9, 1e-9}) {
            P z = y;
            z[d] += q * (1. + std::abs(y[d]));
            edge = edge || (ref.initial_state(z, t) - U).norm() > 1e-5 * U.norm();
          }
        if (edge)
          continue;
        ++mon::evals();
        ++n;
        State V = U;
        if constexpr (!is_scalar && dim >= 2) {
          dealii::Tensor<1, dim> m, w;
          for (int d = 0; d < dim; ++d)
            m[d] = U[1 + d];
          if constexpr (dim == 2) {
            w[0] = dir[0] * m[0] - dir[1] * m[1];
            w[1] = dir[1] * m[0] + dir[0] * m[1];
          } else if (kind == "plane")
            w = m[0] * dir;
          else // radial
            w = (y.norm() > 0. ? (m * (y - P())) / (y.norm() * y.norm()) : 0.) * (x - pos);
          for (int d = 0; d < dim; ++d)
            V[1 + d] = w[d];
        }
        double sc = V.norm(), err = (W - V).norm();
        if (!(err <= 1e-6 * sc + 1e-12)) {
          mon::fail("C20/motion/" + name, "component differences %g (state %g) at reference point (%g%s), t = %g", err, sc, y[0], dim > 1 ? ", ..." : "", t);
          return;
        }
        if constexpr (is_sw) {
          const double z0 = bath(y), z1 = s.iv.initial_precomputed(x)[0];
          if (!(std::abs(z0 - z1) <= 1e-6 * (1. + std::abs(z0)))) {
            mon::fail("C20/motion-bathymetry/" + name, "%g instead of %g at reference point (%g%s)", z1, z0, y[0], dim > 1 ? ", ..." : "");
            return;
          }
        }
      }
      if (n > 100)
        ++mon::nontriv();
    }

    // three dimensions, "function" with density 5 + x/10, pressure 5 + y/10, velocity (1, z/10, 0):
    // the map from space to the reference frame can be read off the state
    void check_frame(mon::Rng &r, const dealii::Tensor<1, dim> &dir, const P &pos)
    {
      if constexpr (is_gas && dim == 3) {
        for (int k = 0; k < 300; ++k) {
          const P x = sample(r);
          auto decode = [&](const P &q, dealii::Tensor<1, 3> &w) {
            const State U = s.iv.initial_state(q, 0.);
            dealii::Tensor<1, 3> y;
            for (int d = 0; d < 3; ++d)
              w[d] = U[1 + d] / U[0] - dir[d];
            y[0] = 10. * (U[0] - 5.);
            y[1] = 10. * (pressure(U) - 5.);
            y[2] = 10. * w.norm();
            return y;
          };
          dealii::Tensor<1, 3> w, w2;
          const auto y = decode(x, w);
          const double len = (x - pos).norm();
          ++mon::evals();
          ++mon::nontriv();
          if (std::abs(y[0] - (x - pos) * dir) > 1e-8 || std::abs(y.norm() - len) > 1e-8) {
            mon::fail("C20/motion/" + name, "a point at distance %g (%g along the direction) is mapped to (%g, %g, +-%g)", len, (x - pos) * dir, y[0], y[1], y[2]);
            return;
          }
          if (std::abs(w * dir) > 1e-9) {
            mon::fail("C20/motion/" + name, "the unit velocity is not mapped to the direction (%g, %g, %g)", w[0], w[1], w[2]);
            return;
          }
          if (w.norm() > 1e-3) {
            const auto y2 = decode(pos + w / w.norm(), w2);
            if (std::abs(std::abs(y2[1]) - 1.) > 1e-7) {
              mon::fail("C20/motion/" + name, "velocities and points are rotated differently: (%g, %g, %g)", y2[0], y2[1], y2[2]);
              return;
            }
          }
        }
      }
    }

    void check_interpolation(mon::Rng &r)
    {
      const double t = o.i("steady", 0) ? 0. : at_time(r);
      const auto U = s.iv.interpolate_hyperbolic_vector(t);
      const auto Z = s.iv.interpolate_initial_precomputed_vector();
      double lo = 1e300, hi = -1e300;
      for (auto i : s.free_list) {
        const State a = U.get_tensor(i), w = s.iv.initial_state(s.pos[i], t);
        ++mon::evals();
        lo = std::min(lo, a[0]), hi = std::max(hi, a[0]);
        // the position of a node is known up to round-off
        double err = (a - w).norm(), tol = 1e-7 * w.norm() + 1e-14;
        bool ok = err <= tol;
        for (int d = 0; d < dim && !ok; ++d)
          for (double q : {-1e-9, 1e-9}) {
            P z = s.pos[i];
            z[d] += q * (1. + std::abs(z[d]));
            ok = ok || (a - s.iv.initial_state(z, t)).norm() <= tol;
          }
        if (!ok) {
          mon::fail("C20/interpolation/" + name, "node %u at x = %g: %g off the state of its position (%g)", i, s.pos[i][0], err, w.norm());
          return;
        }
        if constexpr (is_sw) {
          const double q = Z.get_tensor(i)[0], z = s.iv.initial_precomputed(s.pos[i])[0];
          P x2 = s.pos[i];
          x2[0] += 1e-9 * (1. + std::abs(x2[0]));
          P x3 = s.pos[i];
          x3[0] -= 1e-9 * (1. + std::abs(x3[0]));
          const double tz = 1e-7 * (1. + std::abs(z));
          if (std::abs(q - z) > tz && std::abs(q - s.iv.initial_precomputed(x2)[0]) > tz && std::abs(q - s.iv.initial_precomputed(x3)[0]) > tz) {
            mon::fail("C20/interpolation-bathymetry/" + name, "%g instead of %g at x = %g", q, z, s.pos[i][0]);
            return;
          }
        }
      }
      // ghost values are those of the owner
      for (unsigned int i = s.n_owned; i < s.pos.size(); ++i) {
        const State a = U.get_tensor(i), w = s.iv.initial_state(s.pos[i], t);
        P z = s.pos[i];
        z[0] += 1e-9 * (1. + std::abs(z[0]));
        P z2 = s.pos[i];
        z2[0] -= 1e-9 * (1. + std::abs(z2[0]));
        ++mon::evals();
        if (s.od.affine_constraints().is_constrained(s.od.scalar_partitioner()->local_to_global(i)))
          continue;
        if ((a - w).norm() > 1e-7 * w.norm() + 1e-14 && (a - s.iv.initial_state(z, t)).norm() > 1e-7 * w.norm() + 1e-14 &&
            (a - s.iv.initial_state(z2, t)).norm() > 1e-7 * w.norm() + 1e-14) {
          mon::fail("C20/interpolation-ghost/" + name, "ghost %u at x = %g", i, s.pos[i][0]);
          return;
        }
      }
      if (hi > lo || o.i("flat", 0))
        ++mon::nontriv();
    }
  };

  template <int dim>
  void op_initial(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    InitialValues<Desc, dim, double> ref(S.hs, S.od, "/X - Reference");
    dealii::ParameterAcceptor::initialize(o.file);
    Initial<dim> I(o, S, ref);
    mon::Rng r(o.i("seed", 1) * 7919 + 11);
    dealii::Tensor<1, dim> dir;
    dealii::Point<dim> pos;
    {
      std::stringstream a(o.s("direction", "1")), b(o.s("position", "0"));
      std::string q;
      for (int d = 0; d < dim && std::getline(a, q, ','); ++d)
        dir[d] = std::stod(q);
      for (int d = 0; d < dim && std::getline(b, q, ','); ++d)
        pos[d] = std::stod(q);
      dir /= dir.norm();
    }
    I.check_admissible(r);
    if (o.i("exact", 0)) {
      I.check_equation(r);
      if (!o.i("nojump", 0))
        I.check_jumps(r);
    }
    I.check_meaning();
    if (o.i("move", 1)) {
      if (o.s("kind") == "full" && dim == 3)
        I.check_frame(r, dir, pos);
      else
        I.check_motion(r, dir, pos);
    }
    if (o.i("mesh", 1)) {
      S.setup(o.s("base", "initial"), o.i("local", 0), o.i("seed", 1));
      I.check_interpolation(r);
    }
  }
} // namespace sim
INSTANTIATE_OP(op_initial)
