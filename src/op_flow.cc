// C06 equilibria, C07 boundary treatment, C10 state dumps, C17 viscous step.
#include "ops.h"
#include <deal.II/lac/solver_control.h>
#include <algorithm>
#include <deal.II/base/function_parser.h>
#include <deal.II/fe/fe_tools.h>

namespace sim
{
  // ------------------------------------------------------------------ C06
  template <int dim>
  void op_equilibrium(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("c", o.i("refine", 0), o.i("seed", 1));
    const std::string name = o.s("name", o.file), what = o.s("what", "uniform");
    auto s = S.vec();
    double t = o.d("t0", 0.);
    std::get<0>(s) = S.iv.interpolate_hyperbolic_vector(t);
    double scale_h = 1., wet = 0., dry = 0., zmin = 1e300, zmax = -1e300, Hs = 0.;
#if defined(VEQ_shallow_water)
    if (what == "lake") {
      const auto &ip = S.hm.initial_precomputed();
      if (o.s("z") != "") { // any topography; the hyperbolic module only reads it from here
        auto &w = const_cast<std::decay_t<decltype(ip)> &>(ip);
        const dealii::FunctionParser<dim> fz(o.s("z"));
        for (unsigned int i = 0; i < S.n_owned; ++i) {
          typename Sim<dim>::View::initial_precomputed_type z;
          z[0] = fz.value(S.pos[i]);
          w.write_tensor(z, i);
        }
        w.update_ghost_values();
      }
      for (auto i : S.free_list) {
        const double z = ip.get_tensor(i)[0];
        zmin = std::min(zmin, z), zmax = std::max(zmax, z);
      }
      zmin = dealii::Utilities::MPI::min(zmin, S.comm);
      zmax = dealii::Utilities::MPI::max(zmax, S.comm);
      Hs = zmin + o.d("level", .5) * std::max(zmax - zmin, o.d("depth0", 0.));
      for (unsigned int i = 0; i < S.n_owned; ++i) {
        typename Sim<dim>::state_type U;
        const double z = ip.get_tensor(i)[0];
        U[0] = std::max(Hs - z, 0.);
        if (U[0] > 0.)
          wet += 1;
        else
          dry += 1;
        std::get<0>(s).write_tensor(U, i);
      }
      std::get<0>(s).update_ghost_values();
      scale_h = std::max(Hs - zmin, 1e-10);
    }
#endif
    const auto U0 = std::get<0>(s);
    double umax = 0.;
    for (auto i : S.free_list)
      umax = std::max(umax, U0.get_tensor(i).norm());
    umax = dealii::Utilities::MPI::max(umax, S.comm);
    const int steps = o.i("steps", 5);
    S.hm.prepare_state_vector(s, t);
    const double tol = o.d("tol", 1e-12);
    double worst = 0., amplification = 0.;
    if (is_scalar) // the flux is not bounded by the wave speed: round-off of the flux sums matters
      for (auto i : S.free_list) {
        double c = 0.;
        for (unsigned int k = 0; k < S.od.sparsity_pattern_simd().row_length(i); ++k)
          c += S.od.cij_matrix().get_tensor(i, k).norm();
        amplification = std::max(amplification, c / S.od.lumped_mass_matrix().local_element(i));
      }
    double allowed = 0.;
    for (int n = 0; n < steps; ++n) {
      const double tau = S.ti.step(s, t);
      t += tau;
      // linearly unstable combinations amplify round-off (bounded step sizes of a scalar law with small wave speed)
      allowed = is_scalar ? std::max(tol, 50. * allowed) + 2e-14 * tau * amplification * (1. + umax * umax) / umax : allowed + tol;
      double dev = 0., moms = 0., hmin = 1e300;
      dealii::Point<dim> where;
      for (auto i : S.free_list) {
        const auto a = std::get<0>(s).get_tensor(i), b = U0.get_tensor(i);
        double d = 0.;
        if (what == "lake") {
          d = std::abs(a[0] - b[0]) / scale_h;
          double mm = 0.;
          for (int k = 1; k < Sim<dim>::pd; ++k)
            mm += a[k] * a[k];
          mm = std::sqrt(mm) / (scale_h * std::sqrt(9.81 * scale_h));
          moms = std::max(moms, mm);
          d = std::max(d, mm);
          hmin = std::min(hmin, a[0]);
        } else
          d = (a - b).norm() / umax;
        if (!(d <= dev))
          dev = d, where = S.pos[i];
      }
      dev = dealii::Utilities::MPI::max(dev, S.comm);
      worst = std::max(worst, dev);
      if (S.rank == 0) {
        mon::evals() += 1;
        if (!(dev <= allowed))
          mon::fail("C06/" + what + "/" + name, "step %d: equilibrium left by %.3g (relative; momentum part %.3g) tau=%.3g", n, dev,
                    moms, tau);
      }
      if (!(dev <= allowed))
        break;
      S.hm.prepare_state_vector(s, t);
    }
    wet = dealii::Utilities::MPI::sum(wet, S.comm);
    dry = dealii::Utilities::MPI::sum(dry, S.comm);
    if (S.rank == 0) {
      if (what != "lake" || zmax > zmin)
        mon::nontriv() += 1;
      mon::sample("%s: %d steps to t=%.3g, %zu nodes, wet %g dry %g, topography [%.3g,%.3g], largest deviation %.3g", name.c_str(),
                  steps, t, S.free_list.size(), wet, dry, zmin, zmax, worst);
      mon::stat("largest-deviation", worst);
      if (o.i("verbose", 0))
        printf("INFO %s dev=%.3g wet=%g dry=%g z=[%g,%g] H=%g\n", name.c_str(), worst, wet, dry, zmin, zmax, Hs);
    }
  }

  // ------------------------------------------------------------------ C07
  template <int dim>
  struct BEntry {
    dealii::types::boundary_id id;
    dealii::Tensor<1, dim> n;
  };

  template <int dim>
  std::vector<std::vector<BEntry<dim>>> boundary_reference(const Sim<dim> &S)
  {
    // gathered from the faces of the mesh: all faces that carry the node
    std::vector<std::vector<BEntry<dim>>> ref(S.n_owned);
    const auto &fe = S.disc.finite_element();
    const dealii::QGauss<dim - 1> fq(4);
    dealii::FEFaceValues<dim> fv(S.disc.mapping(), fe, fq,
                                 dealii::update_values | dealii::update_normal_vectors | dealii::update_JxW_values);
    std::vector<dealii::types::global_dof_index> idx(fe.dofs_per_cell);
    for (const auto &c : S.od.dof_handler().active_cell_iterators()) {
      if (c->is_artificial())
        continue;
      c->get_dof_indices(idx);
      for (auto f : c->face_indices()) {
        if (!c->at_boundary(f) || c->face(f)->boundary_id() == Boundary::periodic)
          continue;
        fv.reinit(c, f);
        for (unsigned int j = 0; j < idx.size(); ++j) {
          if (!fe.has_support_on_face(j, f))
            continue;
          const auto &part = S.od.scalar_partitioner();
          if (!part->in_local_range(idx[j]))
            continue;
          const auto i = part->global_to_local(idx[j]);
          if (!S.free_dof[i])
            continue;
          dealii::Tensor<1, dim> n;
          for (unsigned int q = 0; q < fv.n_quadrature_points; ++q)
            n += fv.shape_value(j, q) * fv.normal_vector(q) * fv.JxW(q);
          bool found = false;
          for (auto &e : ref[i])
            if (e.id == c->face(f)->boundary_id() && (e.n * n) > .5 * e.n.norm() * n.norm()) {
              e.n += n;
              found = true;
              break;
            }
          if (!found)
            ref[i].push_back({c->face(f)->boundary_id(), n});
        }
      }
    }
    for (auto &v : ref) {
      unsigned int nslip = 0;
      for (auto &e : v) {
        e.n /= e.n.norm();
        if (e.id == Boundary::slip)
          ++nslip;
      }
      if (dim == 2 && nslip > 1) // two independent walls leave no tangential direction
        for (auto &e : v)
          if (e.id == Boundary::slip)
            e.id = Boundary::no_slip;
    }
    return ref;
  }

  // independent statement of the boundary conditions; false: not applicable
  template <int dim>
  bool apply_reference(const Sim<dim> &S, dealii::types::boundary_id id, typename Sim<dim>::state_type &U,
                       const dealii::Tensor<1, dim> &n, const typename Sim<dim>::state_type &D)
  {
    constexpr int pd = Sim<dim>::pd;
    (void)pd;
    const auto nn = n;
    switch (id) {
    case Boundary::do_nothing:
      return true;
    case Boundary::dirichlet:
      U = D;
      return true;
#ifndef VEQ_scalar_conservation
    case Boundary::slip: {
      double mn = 0.;
      for (int d = 0; d < dim; ++d)
        mn += U[1 + d] * nn[d];
      for (int d = 0; d < dim; ++d)
        U[1 + d] -= mn * nn[d];
      return true;
    }
    case Boundary::no_slip:
      for (int d = 0; d < dim; ++d)
        U[1 + d] = 0.;
      return true;
    case Boundary::dirichlet_momentum:
#ifdef VEQ_shallow_water
      for (int d = 0; d < dim; ++d)
        U[1 + d] = D[1 + d];
      return true;
#else
      return false;
#endif
    case Boundary::dynamic: {
#if defined(VEQ_euler_aeos)
      return false;
#else
      const auto view = S.hs.template view<dim, double>();
      auto split = [&](const typename Sim<dim>::state_type &V, double &vn, double &a, double &s, dealii::Tensor<1, dim> &vp) {
        dealii::Tensor<1, dim> v;
        for (int d = 0; d < dim; ++d)
          v[d] = V[1 + d] / V[0];
        vn = v * nn;
        vp = v - vn * nn;
#ifdef VEQ_shallow_water
        a = std::sqrt(view.gravity() * V[0]);
        s = 0.;
#else
        const double g = view.gamma();
        const double p = (g - 1.) * (V[dim + 1] - .5 * V[0] * v.norm_square());
        a = std::sqrt(g * p / V[0]);
        s = p / std::pow(V[0], g);
#endif
      };
      double vn, a, s, vnD, aD, sD;
      dealii::Tensor<1, dim> vp, vpD;
      split(U, vn, a, s, vp);
      split(D, vnD, aD, sD, vpD);
      if (std::abs(vn) < 1e-9 || std::abs(std::abs(vn) - a) < 1e-9)
        return false; // transition between the cases
      if (vn < -a) {
        U = D;
        return true;
      }
      if (vn > a)
        return true;
#ifdef VEQ_shallow_water
      const double k = 2.;
#else
      const double g = view.gamma(), k = 2. / (g - 1.);
#endif
      const double out = vn + k * a, in = vnD - k * aD;
      const double vnn = .5 * (out + in), an = (out - in) / (2. * k);
      if (an <= 0.)
        return false;
      const double ss = vn < 0. ? sD : s;
      const auto vv = vnn * nn + (vn < 0. ? vpD : vp);
#ifdef VEQ_shallow_water
      (void)ss;
      U[0] = an * an / view.gravity();
#else
      U[0] = std::pow(an * an / (g * ss), 1. / (g - 1.));
      U[dim + 1] = ss * std::pow(U[0], g) / (g - 1.) + .5 * U[0] * vv.norm_square();
#endif
      for (int d = 0; d < dim; ++d)
        U[1 + d] = U[0] * vv[d];
      return true;
#endif
    }
#endif
    default:
      return false;
    }
  }

  template <int dim>
  void op_boundary(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("c", o.i("refine", 0), o.i("seed", 1));
    const std::string name = o.s("name", o.file);
    const auto ref = boundary_reference(S);
    // boundary ids of a box
    static const char *sides[3][2] = {{"left", "right"}, {"bottom", "top"}, {"back", "front"}};
    static const std::map<std::string, int> ids = {{"do nothing", Boundary::do_nothing}, {"periodic", Boundary::periodic},
                                                   {"slip", Boundary::slip}, {"no slip", Boundary::no_slip},
                                                   {"dirichlet", Boundary::dirichlet}, {"dynamic", Boundary::dynamic},
                                                   {"dirichlet momentum", Boundary::dirichlet_momentum}};
    if (o.i("box", 0)) {
      for (const auto &c : S.od.dof_handler().active_cell_iterators()) {
        if (!c->is_locally_owned())
          continue;
        for (auto f : c->face_indices())
          if (c->at_boundary(f)) {
            const auto x = c->face(f)->center();
            for (int d = 0; d < dim; ++d)
              for (int e = 0; e < 2; ++e)
                if (std::abs(x[d] - (e ? S.hi[d] : S.lo[d])) < 1e-10 * S.diameter) {
                  const std::string want = o.s(std::string("side_") + sides[d][e]);
                  if (want == "" || want == "periodic")
                    continue;
                  if ((int)c->face(f)->boundary_id() != ids.at(want))
                    mon::fail("C07/boundary-id/" + name, "%s face carries id %d, configured %s", sides[d][e],
                              (int)c->face(f)->boundary_id(), want.c_str());
                }
          }
      }
    }
    long checked = 0, interior = 0, multi = 0, skipped = 0, touched = 0;
    std::map<int, long> per;
    for (int round = 0; round < o.i("rounds", 4); ++round) {
      const double t = .1 + .37 * round;
      auto s = S.vec();
      S.fill_mode(s, round % 2 ? "rough" : o.s("mode", "rough"), o.i("seed", 1) + 100 * round);
      auto before = std::get<0>(s);
      S.hm.prepare_state_vector(s, t);
      const auto &after = std::get<0>(s);
      for (unsigned int i = 0; i < S.n_owned; ++i) {
        const auto a = after.get_tensor(i), b = before.get_tensor(i);
        if (!S.free_dof[i])
          continue;
        if (ref[i].empty()) {
          ++interior;
          if (!(a == b))
            mon::fail("C07/interior/" + name, "interior node %u changed by %.3g", i, (a - b).norm());
          continue;
        }
        const auto D = S.iv.initial_state(S.pos[i], t);
        const double sc = 1. + a.norm() + b.norm() + D.norm();
        std::vector<unsigned int> perm(ref[i].size());
        for (unsigned int k = 0; k < perm.size(); ++k)
          perm[k] = k;
        bool ok = false, na = false;
        double best = 1e300;
        do {
          auto U = b;
          bool app = true;
          for (auto k : perm)
            app = app && apply_reference<dim>(S, ref[i][k].id, U, ref[i][k].n, D);
          if (!app) {
            na = true;
            break;
          }
          const double d = (U - a).norm();
          best = std::min(best, d);
          if (d <= 1e-9 * sc)
            ok = true;
        } while (!ok && std::next_permutation(perm.begin(), perm.end()));
        if (na) {
          ++skipped;
          continue;
        }
        ++checked;
        if (!(a == b))
          ++touched;
        if (ref[i].size() > 1)
          ++multi;
        per[ref[i][0].id] += 1;
        if (!ok) {
          std::string what;
          for (auto &e : ref[i])
            what += " " + std::to_string(e.id);
          mon::fail("C07/condition/" + name, "t=%g node %u: boundary ids%s: state after treatment is off by %.3g (scale %.3g)", t, i,
                    what.c_str(), best, sc);
        }
#ifndef VEQ_scalar_conservation
        // walls alone: nothing may pass, whatever the order
        bool walls = true;
        for (auto &e : ref[i])
          walls = walls && (e.id == Boundary::slip || e.id == Boundary::no_slip);
        if (walls && (dim == 2 || ref[i].size() == 1 || o.i("box", 0)))
          for (auto &e : ref[i]) {
            double mn = 0.;
            for (int d = 0; d < dim; ++d)
              mn += a[1 + d] * e.n[d];
            if (!(std::abs(mn) <= 1e-10 * sc))
              mon::fail("C07/wall/" + name, "normal momentum %.3g at wall node %u", mn, i);
          }
#endif
      }
      // a second treatment at the same time changes nothing where conditions do not depend on the order
      auto again = S.vec();
      std::get<0>(again) = after;
      S.hm.prepare_state_vector(again, t);
      for (unsigned int i = 0; i < S.n_owned; ++i)
        if (S.free_dof[i] && ref[i].size() == 1 && ref[i][0].id != Boundary::dynamic) {
          const auto d = (std::get<0>(again).get_tensor(i) - after.get_tensor(i)).norm();
          if (!(d <= 1e-10 * (1. + after.get_tensor(i).norm())))
            mon::fail("C07/idempotent/" + name, "second treatment changes node %u by %.3g", i, d);
        }
    }
    mon::evals() += checked + interior;
    if (touched)
      mon::nontriv() += touched;
    if (S.rank == 0)
      mon::sample("%s: %ld boundary nodes (%ld at corners, %ld undecided) and %ld interior nodes compared, %ld changed", name.c_str(), checked, multi,
                  skipped, interior, touched);
    if (o.i("verbose", 0))
      printf("INFO %s checked=%ld multi=%ld skipped=%ld touched=%ld\n", name.c_str(), checked, multi, skipped, touched);
  }

  // ------------------------------------------------------------------ C10
  template <int dim>
  void op_dump(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("c", o.i("refine", 0), o.i("seed", 1));
    S.wrap = o.i("periodic", 0);
    auto s = S.vec();
    S.fill_mode(s, o.s("mode", "shock"), o.i("seed", 1));
    double t = 0.;
    S.hm.prepare_state_vector(s, t);
    std::vector<double> taus;
    for (int n = 0; n < o.i("steps", 3); ++n) {
      const double tau = S.ti.step(s, t);
      taus.push_back(tau);
      t += tau;
      // every rank must have taken the same step
      if (dealii::Utilities::MPI::max(tau, S.comm) != dealii::Utilities::MPI::min(tau, S.comm))
        mon::fail("C10/tau-differs-between-ranks/" + o.s("name"), "step %d", n);
    }
    S.hm.prepare_state_vector(s, t);
    const std::string out = o.s("out");
    FILE *f = fopen((out + "." + std::to_string(S.rank)).c_str(), "wb");
    for (auto i : S.free_list) {
      const unsigned long long k = S.key(i);
      fwrite(&k, 8, 1, f);
      const auto u = std::get<0>(s).get_tensor(i);
      const double m = S.od.lumped_mass_matrix().local_element(i), al = S.hm.alpha().local_element(i);
      for (int c = 0; c < Sim<dim>::pd; ++c)
        fwrite(&u[c], 8, 1, f);
      fwrite(&m, 8, 1, f);
      fwrite(&al, 8, 1, f);
    }
    fclose(f);
    if (S.rank == 0) {
      FILE *g = fopen((out + ".tau").c_str(), "w");
      fprintf(g, "%d\n", Sim<dim>::pd);
      for (auto x : taus)
        fprintf(g, "%.17g\n", x);
      fprintf(g, "%.17g\n%u\n%u\n", S.od.measure_of_omega(), S.hm.n_restarts(), S.hm.n_warnings());
      fclose(g);
    }
    mon::evals() += taus.size();
    mon::nontriv() += 1;
  }

  // ------------------------------------------------------------------ C17
#ifdef VEQ_navier_stokes
  template <int dim>
  void op_parabolic(const Options &o)
  {
    dealii::ParameterAcceptor::clear();
    Sim<dim> S;
    dealii::ParameterAcceptor::initialize(o.file);
    S.setup("c", o.i("refine", 0), o.i("seed", 1));
    const std::string name = o.s("name", o.file);
    const double mu = o.d("mu", 1e-3), lambda = o.d("lambda", 0.), kappa = o.d("kappa", 1e-3); // kappa / c_v
    const double tol = o.d("tol", 1e-12);
    const bool linf = o.i("linfty", 0);
    auto s = S.vec(), sn = S.vec();
    S.fill_mode(s, o.s("mode", "smooth"), o.i("seed", 1));
    double t = o.d("t0", .2);
    const auto ref = boundary_reference(S);
    std::vector<char> dir(S.n_owned, 0);   // velocity and energy prescribed
    std::vector<char> noslip(S.n_owned, 0), slip(S.n_owned, 0);
    bool anybc = false;
    for (unsigned int i = 0; i < S.n_owned; ++i)
      for (auto &e : ref[i]) {
        anybc = true;
        if (e.id == Boundary::dirichlet)
          dir[i] = 1;
        if (e.id == Boundary::no_slip)
          noslip[i] = 1;
        if (e.id == Boundary::slip)
          slip[i] += 1;
      }
    const auto &part = *S.od.scalar_partitioner();
    const auto &fe = S.disc.finite_element();
    const dealii::QGauss<dim> quad(3);
    dealii::FEValues<dim> fv(S.disc.mapping(), fe, quad, dealii::update_gradients | dealii::update_JxW_values | dealii::update_values);
    std::vector<dealii::types::global_dof_index> idx(fe.dofs_per_cell);
    const auto &ac = S.od.affine_constraints();
    for (int n = 0; n < o.i("steps", 3); ++n) {
      S.hm.prepare_state_vector(s, t);
      const double tau = o.d("tau", .05) * (1. + .3 * n);
      try {
        S.pm.template step<0>(s, t, {}, {}, sn, tau);
      } catch (const dealii::SolverControl::NoConvergence &) {
        if (S.rank == 0) // reported to the user: nothing to judge
          printf("INFO no-convergence %s\n", name.c_str()), mon::evals() += 1;
        return;
      }
      const auto &A = std::get<0>(s), &B = std::get<0>(sn);
      // velocities and specific internal energies, extended to constrained nodes
      using V = dealii::LinearAlgebra::distributed::Vector<double>;
      auto mk = [&]() {
        V v;
        v.reinit(S.od.scalar_partitioner());
        return v;
      };
      std::vector<V> v1(dim), v0(dim), res(dim);
      V e1 = mk(), e0 = mk(), eres = mk();
      for (int d = 0; d < dim; ++d)
        v1[d] = mk(), v0[d] = mk(), res[d] = mk();
      double rho_dev = 0.;
      for (auto i : S.free_list) {
        const auto a = A.get_tensor(i), b = B.get_tensor(i);
        rho_dev = std::max(rho_dev, std::abs(a[0] - b[0]));
        double k0 = 0., k1 = 0.;
        for (int d = 0; d < dim; ++d) {
          v0[d].local_element(i) = a[1 + d] / a[0];
          v1[d].local_element(i) = b[1 + d] / b[0];
          k0 += .5 * a[1 + d] * a[1 + d] / a[0];
          k1 += .5 * b[1 + d] * b[1 + d] / b[0];
        }
        e0.local_element(i) = (a[dim + 1] - k0) / a[0];
        e1.local_element(i) = (b[dim + 1] - k1) / b[0];
      }
      auto spread = [&](V &v) {
        ac.distribute(v);
        v.update_ghost_values();
      };
      for (int d = 0; d < dim; ++d)
        spread(v1[d]);
      spread(e1);
      // weak forms; contributions of constrained nodes go to the nodes they depend on
      const unsigned int nd = fe.dofs_per_cell;
      dealii::Vector<double> lr(nd);
      for (const auto &c : S.od.dof_handler().active_cell_iterators()) {
        if (!c->is_locally_owned())
          continue;
        fv.reinit(c);
        c->get_dof_indices(idx);
        std::vector<std::array<double, dim>> cv(nd);
        std::vector<double> ce(nd);
        for (unsigned int k = 0; k < nd; ++k) {
          for (int d = 0; d < dim; ++d)
            cv[k][d] = v1[d](idx[k]);
          ce[k] = e1(idx[k]);
        }
        std::vector<std::vector<double>> lres(dim + 1, std::vector<double>(nd, 0.));
        for (unsigned int q = 0; q < quad.size(); ++q) {
          double G[dim][dim] = {}, ge[dim] = {};
          for (unsigned int k = 0; k < nd; ++k) {
            const auto g = fv.shape_grad(k, q);
            for (int d = 0; d < dim; ++d) {
              ge[d] += ce[k] * g[d];
              for (int e = 0; e < dim; ++e)
                G[d][e] += cv[k][d] * g[e];
            }
          }
          double div = 0.;
          for (int d = 0; d < dim; ++d)
            div += G[d][d];
          double T[dim][dim];
          double heat = 0.;
          for (int d = 0; d < dim; ++d)
            for (int e = 0; e < dim; ++e) {
              T[d][e] = mu * (G[d][e] + G[e][d]) + (d == e ? (lambda - 2. / 3. * mu) * div : 0.);
              heat += T[d][e] * G[d][e];
            }
          for (unsigned int k = 0; k < nd; ++k) {
            const auto g = fv.shape_grad(k, q);
            for (int d = 0; d < dim; ++d)
              for (int e = 0; e < dim; ++e)
                lres[d][k] += T[d][e] * g[e] * fv.JxW(q);
            double y = 0.;
            for (int d = 0; d < dim; ++d)
              y += kappa * ge[d] * g[d];
            lres[dim][k] += (y - heat * fv.shape_value(k, q)) * fv.JxW(q);
          }
        }
        for (int d = 0; d <= dim; ++d) {
          for (unsigned int k = 0; k < nd; ++k)
            lr[k] = lres[d][k];
          ac.distribute_local_to_global(lr, idx, d < dim ? res[d] : eres);
        }
      }
      for (int d = 0; d < dim; ++d)
        res[d].compress(dealii::VectorOperation::add);
      eres.compress(dealii::VectorOperation::add);
      double r2 = 0., rhs2 = 0., re2 = 0., rhse2 = 0., rm = 0., rhsm = 0., rem = 0., rhsem = 0.;
      double dir_dev = 0., ns_dev = 0., slip_dev = 0., vmax = 0.;
      double emin0 = 1e300, emin1 = 1e300, K0 = 0., K1 = 0., E0 = 0., E1 = 0., moved = 0.;
      std::array<double, dim> M0{}, M1{};
      double msc = 0.;
      const auto &m = S.od.lumped_mass_matrix();
      for (auto i : S.free_list) {
        const auto a = A.get_tensor(i), b = B.get_tensor(i);
        const double mr = m.local_element(i) * a[0];
        dealii::Tensor<1, dim> r, rh;
        double dv2 = 0., kk0 = 0., kk1 = 0.;
        for (int d = 0; d < dim; ++d) {
          const double w1 = v1[d].local_element(i), w0 = v0[d].local_element(i);
          r[d] = mr * w1 + tau * res[d].local_element(i) - mr * w0;
          rh[d] = mr * w0;
          dv2 += (w1 - w0) * (w1 - w0);
          kk0 += w0 * w0, kk1 += w1 * w1;
          M0[d] += mr * w0, M1[d] += mr * w1;
        }
        moved = std::max(moved, std::sqrt(dv2));
        vmax = std::max(vmax, std::sqrt(std::max(kk0, kk1)));
        msc += mr * std::sqrt(kk0 + 1.);
        K0 += .5 * mr * kk0, K1 += .5 * mr * kk1;
        E0 += m.local_element(i) * a[dim + 1], E1 += m.local_element(i) * b[dim + 1];
        emin0 = std::min(emin0, e0.local_element(i)), emin1 = std::min(emin1, e1.local_element(i));
        const auto D = (dir[i]) ? S.iv.initial_state(S.pos[i], t + tau) : a;
        if (dir[i]) {
          double kd = 0., dev = 0.;
          for (int d = 0; d < dim; ++d) {
            const double w = D[1 + d] / D[0];
            kd += .5 * w * w * D[0];
            dev = std::max(dev, std::abs(v1[d].local_element(i) - w));
            rh[d] = w; // prescribed values enter the right hand side
          }
          const double ed = (D[dim + 1] - kd) / D[0];
          dev = std::max(dev, std::abs(e1.local_element(i) - ed));
          if (ref[i].size() == 1)
            dir_dev = std::max(dir_dev, dev);
          rhs2 += rh.norm_square(), rhse2 += ed * ed;
          for (int d = 0; d < dim; ++d)
            rhsm = std::max(rhsm, std::abs(rh[d]));
          rhsem = std::max(rhsem, std::abs(ed));
          continue;
        }
        if (noslip[i] || (dim == 2 && slip[i] > 1)) {
          double w = 0.;
          for (int d = 0; d < dim; ++d)
            w = std::max(w, std::abs(v1[d].local_element(i)));
          ns_dev = std::max(ns_dev, w);
          r = 0.;
          rh = 0.;
        } else if (slip[i]) {
          double vn = 0.;
          for (auto &e : ref[i])
            if (e.id == Boundary::slip) {
              double x = 0.;
              for (int d = 0; d < dim; ++d)
                x += v1[d].local_element(i) * e.n[d];
              vn = std::max(vn, std::abs(x));
              r -= (r * e.n) * e.n;
              rh -= (rh * e.n) * e.n;
            }
          slip_dev = std::max(slip_dev, vn);
        }
        r2 += r.norm_square(), rhs2 += rh.norm_square();
        for (int d = 0; d < dim; ++d)
          rm = std::max(rm, std::abs(r[d])), rhsm = std::max(rhsm, std::abs(rh[d]));
        const double er0 = mr * (e0.local_element(i) + .5 * dv2);
        const double er = mr * e1.local_element(i) + tau * eres.local_element(i) - er0;
        // right hand side of the heat equation includes the dissipation
        re2 += er * er, rhse2 += er0 * er0;
        rem = std::max(rem, std::abs(er)), rhsem = std::max(rhsem, std::abs(er0));
      }
      auto sum = [&](double x) { return dealii::Utilities::MPI::sum(x, S.comm); };
      auto mx = [&](double x) { return dealii::Utilities::MPI::max(x, S.comm); };
      auto mn = [&](double x) { return dealii::Utilities::MPI::min(x, S.comm); };
      r2 = std::sqrt(sum(r2)), rhs2 = std::sqrt(sum(rhs2)), re2 = std::sqrt(sum(re2)), rhse2 = std::sqrt(sum(rhse2));
      dir_dev = mx(dir_dev), ns_dev = mx(ns_dev), slip_dev = mx(slip_dev), vmax = mx(vmax);
      rm = mx(rm), rhsm = mx(rhsm), rem = mx(rem), rhsem = mx(rhsem), moved = mx(moved), rho_dev = mx(rho_dev);
      emin0 = mn(emin0), emin1 = mn(emin1), K0 = sum(K0), K1 = sum(K1), E0 = sum(E0), E1 = sum(E1), msc = sum(msc);
      for (int d = 0; d < dim; ++d)
        M0[d] = sum(M0[d]), M1[d] = sum(M1[d]);
      const double rv = linf ? rm / rhsm : r2 / rhs2, rev = linf ? rem / rhsem : re2 / rhse2;
      if (S.rank == 0) {
        mon::evals() += 1;
        if (moved > 1e-10)
          mon::nontriv() += 1;
        mon::stat("largest-momentum-residual-over-tolerance", rv / tol);
        mon::stat("largest-energy-residual-over-tolerance", rev / tol);
        // round-off floor; the heat equation uses the computed velocity, so its error is inherited once
        if (!(rv <= 2. * tol + 1e-13))
          mon::fail("C17/momentum-equation/" + name, "step %d: residual %.3g of the right hand side, tolerance %.3g", n, rv, tol);
        if (!(rev <= 3. * tol + 1e-12))
          mon::fail("C17/heat-equation/" + name, "step %d: residual %.3g of the right hand side, tolerance %.3g", n, rev, tol);
        // prescribed values are rows of the system: met as accurately as the system is solved
        mon::stat("largest-dirichlet-deviation-over-tolerance", dir_dev / (tol * std::max(rhs2, rhse2)));
        mon::stat("largest-slip-deviation-over-tolerance", slip_dev / (tol * vmax + 1e-300));
        if (!(dir_dev <= 1e-9 * (1. + vmax) + 10. * tol * (rhs2 + rhse2)))
          mon::fail("C17/dirichlet/" + name, "prescribed velocity or energy missed by %.3g", dir_dev);
        if (!(ns_dev <= 1e-9 * (1. + vmax) + 100. * tol * vmax))
          mon::fail("C17/no-slip/" + name, "velocity %.3g at a no-slip node", ns_dev);
        if (!(slip_dev <= 1e-9 * (1. + vmax) + 100. * tol * vmax))
          mon::fail("C17/slip/" + name, "normal velocity %.3g at a slip node", slip_dev);
        if (!(rho_dev == 0.))
          mon::fail("C17/density/" + name, "density changed by %.3g", rho_dev);
        const double N = std::sqrt(double(S.nranks == 1 ? S.free_list.size() : S.od.dof_handler().n_dofs()));
        if (!anybc) {
          for (int d = 0; d < dim; ++d)
            if (!(std::abs(M1[d] - M0[d]) <= (10. * tol * N + 1e-12) * msc))
              mon::fail("C17/momentum/" + name, "total momentum %d: %.15g -> %.15g", d, M0[d], M1[d]);
          if (!(std::abs(E1 - E0) <= (20. * tol * N + 1e-12) * std::abs(E0)))
            mon::fail("C17/energy/" + name, "total energy %.15g -> %.15g (relative %.3g)", E0, E1, (E1 - E0) / E0);
        }
        bool anydir = false;
        for (auto x : dir)
          anydir = anydir || x;
        if (!o.i("hasdir", 0) && !anydir) {
          if (!(K1 <= K0 * (1. + 10. * tol * N + 1e-12)))
            mon::fail("C17/kinetic/" + name, "kinetic energy grew %.15g -> %.15g", K0, K1);
          if (!(emin1 >= emin0 * (1. - 10. * tol * N - 1e-10)))
            mon::fail("C17/minimum/" + name, "minimal internal energy fell %.15g -> %.15g", emin0, emin1);
        }
        mon::sample("%s: tau=%.3g momentum residual %.2g, heat residual %.2g of tol %.2g; velocity moved %.3g; E %.12g -> %.12g", name.c_str(), tau,
                    rv, rev, tol, moved, E0, E1);
        if (o.i("verbose", 0))
          printf("INFO %s rv=%.2g rev=%.2g tol=%.2g moved=%.3g dE=%.2g K %.4g->%.4g emin %.6g->%.6g\n", name.c_str(), rv, rev, tol, moved,
                 (E1 - E0) / E0, K0, K1, emin0, emin1);
      }
      (void)part;
      t += tau;
      std::get<0>(s) = std::get<0>(sn);
    }
  }
#else
  template <int dim>
  void op_parabolic(const Options &)
  {
    mon::fail("driver/no-parabolic", "equation has no viscous step");
  }
#endif
} // namespace sim
INSTANTIATE_OP(op_equilibrium)
INSTANTIATE_OP(op_boundary)
INSTANTIATE_OP(op_dump)
INSTANTIATE_OP(op_parabolic)
