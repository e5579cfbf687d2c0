// Mesh operators and distributed SIMD containers (C13, C14): the offline data
// of random meshes against an independent assembly, the containers against a
// position/component hash.
#include "mon.h"
#include <compile_time_options.h>
#include <discretization.h>
#include <multicomponent_vector.h>
#include <offline_data.h>
#include <sparse_matrix_simd.h>
#include <sparse_matrix_simd.template.h>

#include <deal.II/base/mpi.h>
#include <deal.II/base/parameter_acceptor.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/fe/fe_dgq.h>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/fe/mapping_q.h>
#include <deal.II/lac/trilinos_sparse_matrix.h>

#include <fstream>
#include <set>
#include <sstream>

using namespace dealii;
using gid = types::global_dof_index;
static std::map<std::string, std::string> O;
static std::string os(const std::string &k, const std::string &d = "") { return O.count(k) ? O[k] : d; }
static double od_(const std::string &k, double d) { return O.count(k) ? std::stod(O[k]) : d; }
static long oi(const std::string &k, long d) { return O.count(k) ? std::stol(O[k]) : d; }
static MPI_Comm comm = MPI_COMM_WORLD;
static int rk = 0;

static unsigned long long mix(unsigned long long z)
{
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
// exactly representable in single precision
static double hash(unsigned long long i, unsigned long long j, unsigned long long c, unsigned long long s)
{
  return 1. + double(mix(mix(mix(i + 1) + j) * 31 + c * 7 + s) & 0x3fffff);
}

template <int dim> struct Ref {
  // row, column -> mass, c (dim), dG incidence
  static constexpr int nv = dim + 2;
  std::map<std::pair<gid, gid>, std::array<double, nv>> a;
  std::map<std::pair<gid, gid>, double> minv;
  std::vector<double> lumped;
  std::vector<char> constrained;
  std::vector<Point<dim>> pos;
  double measure = 0.;
  struct BC {
    Tensor<1, dim> n;
    double m = 0.;
  };
  std::map<std::pair<gid, int>, std::vector<BC>> bdry; // dof, id -> one entry per face
  std::set<gid> bdofs;
  double h = 1e300;
};

template <typename K, typename V> static void gather(std::map<K, V> &m)
{
  const auto all = Utilities::MPI::all_gather(comm, std::vector<std::pair<K, V>>(m.begin(), m.end()));
  m.clear();
  for (auto &v : all)
    for (auto &p : v) {
      auto it = m.find(p.first);
      if (it == m.end())
        m.insert(p);
      else
        for (unsigned int k = 0; k < p.second.size(); ++k)
          it->second[k] += p.second[k];
    }
}

template <int dim> using OD = ryujin::OfflineData<dim, double>;

template <int dim> static Ref<dim> assemble(const ryujin::Discretization<dim> &disc, const OD<dim> &od, int extra)
{
  Ref<dim> R;
  const std::string an = os("ansatz", "cG Q1");
  const bool dg = an[0] == 'd';
  const int deg = an.back() - '0';
  std::unique_ptr<FiniteElement<dim>> fe;
  if (dg)
    fe = std::make_unique<FE_DGQ<dim>>(deg);
  else
    fe = std::make_unique<FE_Q<dim>>(deg);
  const MappingQ<dim> map(std::max(1, deg));
  const QGauss<dim> q(deg + 1 + extra);
  const QGauss<dim - 1> qf(deg + 1 + extra), qb(std::max(3, deg + 1 + extra));
  const auto &dh = od.dof_handler();
  const unsigned int n = fe->dofs_per_cell;
  const gid N = dh.n_dofs();
  FEValues<dim> fv(map, *fe, q, update_values | update_gradients | update_JxW_values);
  FEFaceValues<dim> ff(map, *fe, qf, update_values | update_normal_vectors | update_JxW_values | update_quadrature_points);
  FEFaceValues<dim> fb(map, *fe, extra ? Quadrature<dim - 1>(qb) : Quadrature<dim - 1>(QGauss<dim - 1>(3)), update_values | update_normal_vectors | update_JxW_values);
  std::map<std::pair<gid, gid>, std::array<double, Ref<dim>::nv>> A;
  std::map<std::pair<gid, gid>, std::array<double, 1>> MI, INC;
  std::map<gid, std::array<double, dim>> P;
  std::map<gid, std::array<double, 1>> con;
  const auto &ac = od.affine_constraints();
  auto expand = [&](gid i) {
    std::vector<std::pair<gid, double>> e;
    if (!ac.is_constrained(i))
      e.push_back({i, 1.});
    else if (const auto *l = ac.get_constraint_entries(i))
      for (auto &p : *l)
        e.push_back({p.first, p.second});
    return e;
  };
  for (gid i = 0; i < N; ++i)
    if (od.scalar_partitioner()->in_local_range(i))
      con[i] = {{ac.is_constrained(i) ? 1. : 0.}};
  auto add = [&](gid i, gid j, double m, const Tensor<1, dim> &c) {
    for (auto &[gi, wi] : expand(i))
      for (auto &[gj, wj] : expand(j)) {
        auto &x = A[{gi, gj}];
        x[0] += wi * wj * m;
        for (int d = 0; d < dim; ++d)
          x[1 + d] += wi * wj * c[d];
      }
  };
  struct Pair {
    gid i, j;
  };
  std::vector<Pair> touching;
  std::vector<gid> I(n), J(n);
  const auto &sup = fe->get_unit_support_points();
  std::map<std::pair<gid, int>, std::vector<std::array<double, dim + 1>>> B;
  double vol = 0., hmin = 1e300;
  for (const auto &c : dh.active_cell_iterators()) {
    if (!c->is_locally_owned())
      continue;
    fv.reinit(c);
    c->get_dof_indices(I);
    hmin = std::min(hmin, c->diameter());
    FullMatrix<double> M(n, n), MINV(n, n);
    for (unsigned int i = 0; i < n; ++i) {
      const auto x = map.transform_unit_to_real_cell(c, sup[i]);
      for (int d = 0; d < dim; ++d)
        P[I[i]][d] = x[d];
      for (unsigned int j = 0; j < n; ++j) {
        Tensor<1, dim> g;
        for (unsigned int k = 0; k < q.size(); ++k) {
          M(i, j) += fv.shape_value(i, k) * fv.shape_value(j, k) * fv.JxW(k);
          g += fv.shape_value(i, k) * fv.shape_grad(j, k) * fv.JxW(k);
        }
        add(I[i], I[j], M(i, j), g);
      }
    }
    for (unsigned int k = 0; k < q.size(); ++k)
      vol += fv.JxW(k);
    if (dg) {
      MINV.invert(M);
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int j = 0; j < n; ++j)
          MI[{I[i], I[j]}][0] = MINV(i, j);
    }
    for (auto f : c->face_indices()) {
      const bool inner = !c->face(f)->at_boundary() || c->has_periodic_neighbor(f);
      if (!inner) {
        const int id = c->face(f)->boundary_id();
        if (id != ryujin::Boundary::periodic) {
          fb.reinit(c, f);
          for (unsigned int i = 0; i < n; ++i) {
            if (!fe->has_support_on_face(i, f))
              continue;
            std::array<double, dim + 1> x{};
            for (unsigned int k = 0; k < fb.n_quadrature_points; ++k) {
              const auto nrm = fb.normal_vector(k);
              for (int d = 0; d < dim; ++d)
                x[d] += nrm[d] * fb.shape_value(i, k) * fb.JxW(k);
              x[dim] += fb.shape_value(i, k) * fb.JxW(k);
            }
            B[{I[i], id}].push_back(x);
          }
        } else
          mon::fail("C13/boundary/periodic-without-partner", "a face marked periodic has no periodic neighbour");
        continue;
      }
      if (!dg)
        continue;
      ff.reinit(c, f);
      const auto nb = c->neighbor_or_periodic_neighbor(f);
      nb->get_dof_indices(J);
      Tensor<1, dim> shift;
      if (c->has_periodic_neighbor(f))
        shift = nb->face(c->periodic_neighbor_of_periodic_neighbor(f))->center() - c->face(f)->center();
      for (unsigned int k = 0; k < ff.n_quadrature_points; ++k) {
        const auto u = map.transform_real_to_unit_cell(nb, ff.quadrature_point(k) + shift);
        for (unsigned int i = 0; i < n; ++i) {
          const Tensor<1, dim> w = .5 * ff.shape_value(i, k) * ff.JxW(k) * ff.normal_vector(k);
          for (unsigned int j = 0; j < n; ++j) {
            add(I[i], I[j], 0., -ff.shape_value(j, k) * w);
            add(I[i], J[j], 0., fe->shape_value(j, u) * w);
          }
        }
      }
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int j = 0; j < n; ++j)
          if (deg == 0)
            touching.push_back({I[i], J[j]});
          else if (fe->has_support_on_face(i, f)) {
            const auto xi = map.transform_unit_to_real_cell(c, sup[i]) + shift, xj = map.transform_unit_to_real_cell(nb, sup[j]);
            if (xi.distance(xj) < 1e-6 * c->diameter())
              touching.push_back({I[i], J[j]});
          }
    }
  }
  R.measure = Utilities::MPI::sum(vol, comm);
  R.h = Utilities::MPI::min(hmin, comm);
  gather(A);
  // a dof is interpolated in several cells: keep one value
  {
    const auto all = Utilities::MPI::all_gather(comm, std::vector<std::pair<gid, std::array<double, dim>>>(P.begin(), P.end()));
    R.pos.resize(N);
    for (auto &v : all)
      for (auto &p : v)
        for (int d = 0; d < dim; ++d)
          R.pos[p.first][d] = p.second[d];
  }
  gather(MI);
  gather(con);
  R.constrained.assign(N, 0);
  for (auto &p : con)
    R.constrained[p.first] = p.second[0] != 0.;
  R.a = A;
  R.lumped.assign(N, 0.);
  for (auto &p : R.a)
    R.lumped[p.first.first] += p.second[0];
  for (auto &p : MI)
    R.minv[p.first] = p.second[0];
  if (dg) {
    const double ex = deg % 2 ? od_("inc_odd", 0.) : od_("inc_even", .5);
    const auto all = Utilities::MPI::all_gather(comm, [&] {
      std::vector<std::pair<gid, gid>> v;
      for (auto &p : touching)
        v.push_back({p.i, p.j});
      return v;
    }());
    for (auto &v : all)
      for (auto &p : v)
        R.a[p][dim + 1] += std::pow(.5 * (R.lumped[p.first] + R.lumped[p.second]) / R.measure, ex / dim);
  }
  {
    std::vector<std::pair<std::pair<gid, int>, std::array<double, dim + 1>>> v;
    for (auto &p : B)
      for (auto &x : p.second)
        v.push_back({p.first, x});
    const auto all = Utilities::MPI::all_gather(comm, v);
    for (auto &w : all)
      for (auto &p : w) {
        typename Ref<dim>::BC b;
        for (int d = 0; d < dim; ++d)
          b.n[d] = p.second[d];
        b.m = p.second[dim];
        R.bdry[p.first].push_back(b);
        R.bdofs.insert(p.first.first);
      }
  }
  return R;
}

static int boundary_id(const std::string &s)
{
  return ryujin::Boundary(Patterns::Tools::Convert<ryujin::Boundary>::to_value(s));
}

// ------------------------------------------------------------ conformity
// a random field that obeys the constraints is continuous, and nothing more
// than the necessary is constrained
template <int dim> static void conformity(const ryujin::Discretization<dim> &disc, const OD<dim> &od, const std::string &name, unsigned long seed)
{
  const auto &dh = od.dof_handler();
  const auto &fe = dh.get_fe();
  const auto &ac = od.affine_constraints();
  const unsigned int n = fe.dofs_per_cell;
  std::vector<gid> I(n), J(n);
  auto val = [&](gid i) {
    auto base = [&](gid g) { return double(mix(g * 77 + seed) % 1000003) / 1000003. - .5; };
    if (!ac.is_constrained(i))
      return base(i);
    double s = 0.;
    for (auto &p : *ac.get_constraint_entries(i)) {
      if (ac.is_constrained(p.first))
        mon::fail("C13/constraints/chain/" + name, "a constraint refers to a constrained unknown");
      s += p.second * base(p.first);
    }
    return s;
  };
  mon::Rng r(seed + rk);
  long faces = 0;
  for (const auto &c : dh.active_cell_iterators()) {
    if (!c->is_locally_owned())
      continue;
    c->get_dof_indices(I);
    for (auto f : c->face_indices()) {
      if (c->at_boundary(f) && !c->has_periodic_neighbor(f))
        continue;
      const auto nb = c->neighbor_or_periodic_neighbor(f);
      if (nb->is_artificial() || !nb->is_active())
        continue; // checked from the finer side
      nb->get_dof_indices(J);
      Tensor<1, dim> shift;
      if (c->has_periodic_neighbor(f)) {
        const unsigned int d = f / 2;
        shift[d] = (f % 2 ? -1. : 1.) * od_("extent" + std::to_string(d), 1.);
      }
      for (int k = 0; k < 3; ++k) {
        Point<dim> u;
        for (int d = 0; d < dim; ++d)
          u[d] = r.u();
        u[f / 2] = f % 2;
        const auto x = disc.mapping().transform_unit_to_real_cell(c, u);
        Point<dim> w;
        try {
          w = disc.mapping().transform_real_to_unit_cell(nb, x + shift);
        } catch (...) {
          continue;
        }
        bool in = true;
        for (int d = 0; d < dim; ++d)
          in = in && w[d] > -1e-6 && w[d] < 1. + 1e-6;
        if (!in)
          continue; // curved faces on the coarse side
        double a = 0., b = 0.;
        for (unsigned int i = 0; i < n; ++i)
          a += fe.shape_value(i, u) * val(I[i]), b += fe.shape_value(i, w) * val(J[i]);
        ++faces;
        if (std::abs(a - b) > 1e-7)
          mon::fail("C13/constraints/discontinuous/" + name, "face of cell at %g %g: %g against %g", x[0], dim > 1 ? x[dim - 1] : 0., a, b);
      }
    }
  }
  mon::evals() += faces;
  mon::nontriv() += faces;
}

template <int dim> static bool refine(ryujin::Discretization<dim> &disc, unsigned long seed, int round)
{
  auto &tria = const_cast<typename ryujin::Discretization<dim>::Triangulation &>(disc.triangulation());
  for (auto &c : tria.active_cell_iterators())
    if ((dim == 1 || c->is_locally_owned())) {
      unsigned long long h = seed * 77 + round;
      for (int d = 0; d < dim; ++d)
        h = mix(h * 131 + (unsigned long long)llround(c->center()[d] * 1e7));
      if (h % 3 == 0)
        c->set_refine_flag();
    }
  tria.prepare_coarsening_and_refinement();
  tria.execute_coarsening_and_refinement();
  return true;
}

// the kind of boundary at a face of the named geometries
template <int dim> static int geometry_id(const std::string &g, const Point<dim> &x)
{
  const double L = od_("length", 1.), e = 1e-6;
  if (g == "disk")
    return boundary_id(os("bc", "dirichlet"));
  if (g == "cylinder") {
    const double p = od_("position", .6);
    return x[0] > L - p - e ? ryujin::Boundary::do_nothing : x[0] < -p + e ? ryujin::Boundary::dirichlet : ryujin::Boundary::slip;
  }
  if (g == "step")
    return x[0] < e ? ryujin::Boundary::dirichlet : x[0] > L - e ? ryujin::Boundary::do_nothing : ryujin::Boundary::slip;
  if (g == "wall")
    return x[0] > od_("position", .1) && x[dim - 1] < e ? ryujin::Boundary::slip : x[0] > L - e ? ryujin::Boundary::do_nothing : ryujin::Boundary::dirichlet;
  if (g == "annulus")
    return ryujin::Boundary::slip;
  if (g == "wave tank")
    return x[0] > L - e ? ryujin::Boundary::dynamic : ryujin::Boundary::slip;
  return -1;
}

template <int dim> static void check_mesh(const ryujin::Discretization<dim> &disc, const OD<dim> &od, const std::string &name)
{
  const bool affine = oi("affine", 0);
  const bool dg = os("ansatz", "cG Q1")[0] == 'd';
  const int deg = os("ansatz", "cG Q1").back() - '0';
  auto R = assemble<dim>(disc, od, affine ? 2 : 0);
  const auto &part = *od.scalar_partitioner();
  const auto &sp = od.sparsity_pattern_simd();
  const unsigned int no = od.n_locally_owned(), nr = od.n_locally_relevant(), ni = od.n_locally_internal(), ne = od.n_export_indices();
  constexpr unsigned int S = VectorizedArray<double>::size();
  const std::string K = "C13/", N = "/" + name;
  auto col = [&](unsigned int i, unsigned int c) { return *(i < ni ? sp.columns(i) + c * S : sp.columns(i) + c); };
  auto G = [&](unsigned int i) { return part.local_to_global(i); };
  // structure
  if (no != part.locally_owned_size() || nr != no + part.n_ghost_indices())
    mon::fail("C14/index-ranges" + N, "owned %u relevant %u", no, nr);
  if (ni % S || ne % S || ni > no || ne > ni)
    mon::fail("C14/index-ranges" + N, "internal %u export %u owned %u length %u", ni, ne, no, S);
  for (const auto &it : part.import_indices())
    for (unsigned int i = it.first; i < it.second; ++i)
      if (i < ni && i >= ne)
        mon::fail("C14/export-range" + N, "index %u is sent but not in the export range %u", i, ne);
  for (unsigned int i = 0; i < ni; ++i)
    if (sp.row_length(i) != sp.row_length(i / S * S))
      mon::fail("C14/stride-row-length" + N, "rows %u and %u of one stride differ in length", i, i / S * S);
  long double mass = 0.L;
  for (unsigned int i = 0; i < no; ++i) {
    const gid gi = G(i);
    const unsigned int len = sp.row_length(i);
    if (col(i, 0) != i)
      mon::fail("C14/diagonal-first" + N, "row %u starts with column %u", i, col(i, 0));
    if (R.constrained[gi]) {
      if (len != 1)
        mon::fail(K + "constrained-row" + N, "row of a constrained unknown has %u entries", len);
      continue;
    }
    std::map<gid, unsigned int> cols;
    for (unsigned int c = 0; c < len; ++c) {
      const unsigned int j = col(i, c);
      if (j >= nr) {
        mon::fail("C14/column-range" + N, "row %u column %u of %u", i, j, nr);
        continue;
      }
      if (!cols.insert({G(j), c}).second)
        mon::fail("C14/duplicate-column" + N, "row %u column %u", i, j);
    }
    ++mon::evals();
    ++mon::nontriv();
    const double mi = od.lumped_mass_matrix().local_element(i), ref = R.lumped[gi];
    mass += mi;
    if (!(mi > 0.))
      mon::fail(K + "lumped-positive" + N, "m_i = %g", mi);
    if (std::abs(mi - ref) > 1e-11 * ref || std::abs(od.lumped_mass_matrix_inverse().local_element(i) * mi - 1.) > 1e-12)
      mon::fail(K + "lumped-mass" + N, "m_i %.16g reference %.16g inverse %g", mi, ref, od.lumped_mass_matrix_inverse().local_element(i));
    double cs = 0.;
    std::map<gid, std::array<double, Ref<dim>::nv>> row;
    for (auto it = R.a.lower_bound({gi, 0}); it != R.a.end() && it->first.first == gi; ++it) {
      row[it->first.second] = it->second;
      for (int d = 0; d < dim; ++d)
        cs = std::max(cs, std::abs(it->second[1 + d]));
    }
    for (auto &p : row)
      if (!cols.count(p.first)) {
        double big = std::abs(p.second[0]) / ref;
        for (int d = 0; d < dim; ++d)
          big = std::max(big, std::abs(p.second[1 + d]) / cs);
        if (big > 1e-10)
          mon::fail(K + "missing-coupling" + N, "row %lu column %lu relative size %g", (unsigned long)gi, (unsigned long)p.first, big);
      }
    double msum = 0.;
    Tensor<1, dim> csum, lin[dim];
    bool wraps = oi("periodic", 0);
    for (auto &[gj, c] : cols) {
      const auto it = row.find(gj);
      std::array<double, Ref<dim>::nv> x{};
      if (it != row.end())
        x = it->second;
      const double m = od.mass_matrix().get_entry(i, c);
      const auto cij = od.cij_matrix().get_tensor(i, c);
      const double mt = od.mass_matrix().get_transposed_entry(i, c);
      const auto ct = od.cij_matrix().get_transposed_tensor(i, c);
      msum += m;
      csum += cij;
      for (int d = 0; d < dim; ++d)
        lin[d] += cij * (R.pos[gj][d] - R.pos[gi][d]);
      if (std::abs(m - x[0]) > 1e-11 * ref)
        mon::fail(K + "mass" + N, "m_ij %.16g reference %.16g", m, x[0]);
      if (std::abs(m - mt) > 1e-12 * ref)
        mon::fail(K + "mass-symmetry" + N, "m_ij %.16g m_ji %.16g", m, mt);
      double e = 0.;
      for (int d = 0; d < dim; ++d)
        e = std::max(e, std::abs(cij[d] - x[1 + d]));
      if (e > 1e-10 * cs)
        mon::fail(K + "gradient" + N, "c_ij %.15g %.15g reference %.15g %.15g", cij[0], cij[dim - 1], x[1], x[dim]);
      const auto tr = R.a.find({gj, gi});
      Tensor<1, dim> want;
      if (tr != R.a.end())
        for (int d = 0; d < dim; ++d)
          want[d] = tr->second[1 + d];
      if (!R.constrained[gj] && (ct - want).norm() > 1e-10 * cs)
        mon::fail("C14/transposed-entry" + N, "c_ji %.15g %.15g reference %.15g %.15g", ct[0], ct[dim - 1], want[0], want[dim - 1]);
      const bool both = R.bdofs.count(gi) && R.bdofs.count(gj);
      if (oi("skew", 1) && !both && !R.constrained[gj] && (cij + ct).norm() > 1e-10 * cs)
        mon::fail(K + "antisymmetry" + N, "c_ij + c_ji = %g away from the boundary", (cij + ct).norm());
      if (dg) {
        const double inc = od.incidence_matrix().get_entry(i, c);
        if (std::abs(inc - x[dim + 1]) > 1e-12 * (1. + x[dim + 1]))
          mon::fail(K + "incidence" + N, "%.15g reference %.15g", inc, x[dim + 1]);
        const auto mi_it = R.minv.find({gi, gj});
        const double v = od.mass_matrix_inverse().get_entry(i, c), w = mi_it == R.minv.end() ? 0. : mi_it->second;
        const double ws = std::abs(R.minv[{gi, gi}]);
        if (std::abs(v - w) > 1e-9 * ws)
          mon::fail(K + "mass-inverse" + N, "%.15g reference %.15g", v, w);
      }
    }
    if (std::abs(msum - mi) > 1e-12 * mi)
      mon::fail(K + "mass-row-sum" + N, "%.16g lumped %.16g", msum, mi);
    if (csum.norm() > 1e-11 * cs)
      mon::fail(K + "gradient-row-sum" + N, "%g of %g", csum.norm(), cs);
    if (affine && !wraps && os("ansatz").back() != '0')
      for (int d = 0; d < dim; ++d) {
        auto e = lin[d];
        e[d] -= mi;
        // on the dG boundary the one-sided gradient is exact as well
        if (e.norm() > 1e-10 * (mi + cs * R.h))
          mon::fail(K + "linear-function" + N, "gradient of x_%d deviates by %g of %g", d, e.norm(), mi);
      }
  }
  const double total = Utilities::MPI::sum(double(mass), comm);
  if (std::abs(total - R.measure) > 1e-11 * R.measure || std::abs(od.measure_of_omega() - R.measure) > 1e-11 * R.measure)
    mon::fail(K + "volume" + N, "sum of masses %.16g, volume %.16g, reported %.16g", total, R.measure, od.measure_of_omega());
  if (O.count("measure")) {
    const double w = od_("measure", 1.), t = od_("measure_tol", 1e-12);
    if (std::abs(total - w) > t * w)
      mon::fail(K + "domain-volume" + N, "%.12g instead of %.12g", total, w);
  }
  // ghost values
  for (unsigned int i = no; i < nr; ++i) {
    const double mi = od.lumped_mass_matrix().local_element(i);
    if (!R.constrained[G(i)] && std::abs(mi - R.lumped[G(i)]) > 1e-11 * R.lumped[G(i)])
      mon::fail("C14/ghost-vector" + N, "lumped mass of a ghost %.16g reference %.16g", mi, R.lumped[G(i)]);
  }
  // boundary map
  std::map<std::pair<gid, int>, std::vector<std::tuple<Tensor<1, dim>, double, double, Point<dim>>>> got;
  std::map<int, double> bm;
  for (const auto &[i, n, nm, m, id, x] : od.boundary_map()) {
    if (i >= no) {
      mon::fail(K + "boundary/not-owned" + N, "%u", i);
      continue;
    }
    ++mon::evals();
    got[{G(i), id}].push_back({n, nm, m, x});
    bm[id] += m;
    if (std::abs(n.norm() - 1.) > 1e-12)
      mon::fail(K + "boundary/normal-length" + N, "%.16g", n.norm());
    if (x.distance(R.pos[G(i)]) > 1e-10 * (1. + x.norm()))
      mon::fail(K + "boundary/position" + N, "%g %g for a node at %g %g", x[0], x[dim - 1], R.pos[G(i)][0], R.pos[G(i)][dim - 1]);
  }
  std::set<std::pair<gid, int>> expected;
  auto faces_of = [&](gid g, int id) {
    std::vector<typename Ref<dim>::BC> v;
    auto it = R.bdry.find({g, id});
    if (it != R.bdry.end())
      v = it->second;
    return v;
  };
  for (unsigned int i = 0; i < no; ++i) {
    const gid g = G(i);
    if (R.constrained[g] || !R.bdofs.count(g))
      continue;
    for (int id = 0; id < 32; ++id) {
      auto v = faces_of(g, id);
      if (v.empty())
        continue;
      // group the faces by direction
      std::vector<typename Ref<dim>::BC> grp;
      bool ambiguous = false;
      for (auto &b : v) {
        bool in = false;
        if (!(b.n.norm() > 1e-14 * std::pow(R.h, dim - 1)))
          continue;
        for (auto &x : grp) {
          const double cs = x.n * b.n / x.n.norm() / b.n.norm();
          if (std::abs(cs - .5) < .1 || (cs > .5 && in))
            ambiguous = true;
          if (cs > .5 && !in)
            x.n += b.n, x.m += b.m, in = true;
        }
        if (!in)
          grp.push_back(b);
      }
      int eid = id;
      if (dim == 2 && id == ryujin::Boundary::slip && grp.size() > 1)
        eid = ryujin::Boundary::no_slip;
      if (dim == 2 && id == ryujin::Boundary::no_slip && faces_of(g, ryujin::Boundary::slip).size() > 1)
        ambiguous = true;
      if (ambiguous)
        continue;
      expected.insert({g, eid});
      const auto it = got.find({g, eid});
      if (it == got.end()) {
        mon::fail(K + "boundary/missing" + N, "no entry with id %d for the boundary node at %g %g", eid, R.pos[g][0], R.pos[g][dim - 1]);
        continue;
      }
      for (auto &x : grp) {
        int hits = 0;
        for (auto &[n, nm, m, p] : it->second)
          if ((n - x.n / x.n.norm()).norm() < 1e-8) {
            ++hits;
            if (std::abs(nm - x.n.norm()) > 1e-9 * x.n.norm() + 1e-15 || std::abs(m - x.m) > 1e-9 * std::abs(x.m) + 1e-15)
              mon::fail(K + "boundary/mass" + N, "normal mass %.12g boundary mass %.12g, reference %.12g %.12g", nm, m, x.n.norm(), x.m);
          }
        if (hits != 1)
          mon::fail(K + "boundary/normal" + N, "%d entries with the normal %g %g at the node %g %g id %d", hits, x.n[0] / x.n.norm(), x.n[dim - 1] / x.n.norm(), R.pos[g][0], R.pos[g][dim - 1], id);
        ++mon::nontriv();
      }
    }
  }
  for (auto &p : got) {
    if (!R.bdofs.count(p.first.first))
      mon::fail(K + "boundary/interior-node" + N, "node at %g %g", R.pos[p.first.first][0], R.pos[p.first.first][dim - 1]);
    const int id = p.first.second;
    if (!faces_of(p.first.first, id).size() && !(dim == 2 && id == ryujin::Boundary::no_slip && faces_of(p.first.first, ryujin::Boundary::slip).size() > 1))
      mon::fail(K + "boundary/id" + N, "id %d at the node %g %g", id, R.pos[p.first.first][0], R.pos[p.first.first][dim - 1]);
  }
  // ids of a box are those of its sides
  if (O.count("sides")) {
    std::vector<int> side;
    std::stringstream ss(os("sides"));
    for (std::string s; std::getline(ss, s, ',');)
      side.push_back(boundary_id(s));
    Point<dim> lo, hi;
    for (int d = 0; d < dim; ++d)
      lo[d] = od_("lo" + std::to_string(d), 0.), hi[d] = lo[d] + od_("extent" + std::to_string(d), 1.);
    for (unsigned int i = 0; i < no; ++i) {
      if (R.constrained[G(i)])
        continue;
      const auto x = R.pos[G(i)];
      if (dg && deg == 0)
        continue;
      std::set<int> want;
      int slips = 0;
      for (int d = 0; d < dim; ++d)
        for (int s = 0; s < 2; ++s)
          if (std::abs(x[d] - (s ? hi : lo)[d]) < 1e-8 && side[2 * d + s] != ryujin::Boundary::periodic) {
            want.insert(side[2 * d + s]);
            slips += side[2 * d + s] == ryujin::Boundary::slip;
          }
      // cells at a corner
      if (dim == 2 && slips == 2)
        want.erase(ryujin::Boundary::slip), want.insert(ryujin::Boundary::no_slip);
      std::set<int> have;
      for (int id = 0; id < 32; ++id)
        if (got.count({G(i), id}))
          have.insert(id);
      ++mon::evals();
      if (want != have && !(oi("periodic", 0) && have.size() < want.size() + 1 && std::includes(want.begin(), want.end(), have.begin(), have.end()) && !have.empty()))
        mon::fail(K + "boundary/sides" + N, "node at %g %g: %zu ids instead of %zu", x[0], x[dim - 1], have.size(), want.size());
    }
  }
  if (O.count("geo"))
    for (const auto &c : od.dof_handler().active_cell_iterators())
      if (c->is_locally_owned())
        for (auto f : c->face_indices())
          if (c->at_boundary(f) && !c->has_periodic_neighbor(f)) {
            ++mon::evals();
            const auto x = c->face(f)->center();
            if (int(c->face(f)->boundary_id()) != geometry_id<dim>(os("geo"), x))
              mon::fail(K + "geometry/boundary-kind" + N, "face at %g %g has id %d instead of %d", x[0], x[dim - 1], int(c->face(f)->boundary_id()), geometry_id<dim>(os("geo"), x));
          }
  // total boundary measure per id
  const int nid = 32;
  for (int id = 0; id < nid; ++id) {
    bm[id] = Utilities::MPI::sum(bm[id], comm);
    double w = 0.;
    for (auto &p : R.bdry)
      if (p.first.second == id)
        for (auto &b : p.second)
          w += b.m;
    if (dim == 2 && (id == ryujin::Boundary::slip || id == ryujin::Boundary::no_slip))
      continue;
    const bool lossy = oi("lossy", 0);
    if (std::abs(bm[id] - w) > 1e-9 * (w + bm[id]))
      mon::fail(K + std::string(lossy ? "boundary-measure/constrained-nodes" : "boundary-measure") + N, "id %d: boundary masses add up to %.12g, boundary measure %.12g", id, bm[id], w);
  }
  if (O.count("surface")) {
    double t = 0.;
    for (auto &p : R.bdry)
      for (auto &b : p.second)
        t += b.m;
    if (std::abs(t - od_("surface", 1.)) > od_("measure_tol", 1e-12) * od_("surface", 1.))
      mon::fail(K + "domain-surface" + N, "%.12g instead of %.12g", t, od_("surface", 1.));
  }
  // boundary pairs
  std::set<std::pair<unsigned int, unsigned int>> pairs;
  for (const auto &[i, c, j] : od.coupling_boundary_pairs()) {
    if (i >= no || c == 0 || c >= sp.row_length(i) || col(i, c) != j) {
      mon::fail(K + "pairs/invalid" + N, "%u %u %u", i, c, j);
      continue;
    }
    if (!pairs.insert({i, c}).second)
      mon::fail(K + "pairs/duplicate" + N, "%u %u", i, c);
    if (!R.bdofs.count(G(i)) || !R.bdofs.count(G(j)))
      if (!R.constrained[G(j)])
        mon::fail(K + "pairs/interior" + N, "%u %u", i, j);
  }
  for (unsigned int i = 0; i < no; ++i) {
    if (R.constrained[G(i)])
      continue;
    double cs = 0.;
    for (unsigned int c = 0; c < sp.row_length(i); ++c)
      cs = std::max(cs, od.cij_matrix().get_tensor(i, c).norm());
    for (unsigned int c = 1; c < sp.row_length(i); ++c) {
      const auto j = col(i, c);
      if (R.constrained[G(j)] || !R.bdofs.count(G(j)) || !R.bdofs.count(G(i)))
        continue;
      const auto sum = od.cij_matrix().get_tensor(i, c) + od.cij_matrix().get_transposed_tensor(i, c);
      ++mon::evals();
      if (sum.norm() > 1e-9 * cs && !pairs.count({i, c}))
        mon::fail(K + "pairs/missing" + N, "rows at %g %g and %g %g couple through the boundary, |c_ij + c_ji| = %g", R.pos[G(i)][0], R.pos[G(i)][dim - 1], R.pos[G(j)][0], R.pos[G(j)][dim - 1], sum.norm());
    }
  }
  if (!dg)
    conformity<dim>(disc, od, name, oi("seed", 1));
  mon::sample("%s: %lu unknowns, %lu couplings, volume %.6g, %zu boundary entries, %u/%u/%u export/internal/owned (rank %d)", name.c_str(), (unsigned long)R.pos.size(), (unsigned long)R.a.size(), total,
              od.boundary_map().size(), ne, ni, no, rk);
}

// -------------------------------------------------------------- containers
template <int dim, typename Number, int nc, int S>
static void check_matrix(const OD<dim> &od, const ryujin::SparsityPatternSIMD<S> &sp, ryujin::SparseMatrixSIMD<Number, nc, S> &M, unsigned int ni, const std::string &name, unsigned long seed)
{
  using VA = VectorizedArray<Number, S>;
  const auto &part = *od.scalar_partitioner();
  const unsigned int no = od.n_locally_owned(), nr = od.n_locally_relevant();
  auto G = [&](unsigned int i) { return part.local_to_global(i); };
  auto col = [&](unsigned int i, unsigned int c) { return *(i < ni ? sp.columns(i) + c * S : sp.columns(i) + c); };
  const std::string N = "/nc" + std::to_string(nc) + (sizeof(Number) == 4 ? "f" : "d") + "/" + name;
  M.reinit(sp);
  mon::Rng r(seed + rk);
  for (int round = 0; round < 2; ++round) {
    const unsigned long v = seed + round;
    auto H = [&](unsigned int i, unsigned int j, int k) { return Number(hash(G(i), G(j), k, v)); };
    const int mode = (round + seed) % 2; // scalar or vectorised writes
    unsigned int i = 0;
    if (mode)
      for (; i < ni; i += S)
        for (unsigned int c = 0; c < sp.row_length(i); ++c) {
          Tensor<1, nc, VA> t;
          for (int s = 0; s < S; ++s)
            for (int k = 0; k < nc; ++k)
              t[k][s] = H(i + s, col(i + s, c), k);
          const bool stream = r.u() < .5;
          if constexpr (nc == 1)
            if (r.u() < .5) {
              M.write_entry(t[0], i, c, stream);
              continue;
            }
          M.write_entry(t, i, c, stream);
        }
    for (; i < no; ++i)
      for (unsigned int c = 0; c < sp.row_length(i); ++c) {
        Tensor<1, nc, Number> t;
        for (int k = 0; k < nc; ++k)
          t[k] = H(i, col(i, c), k);
        if constexpr (nc == 1)
          if (r.u() < .5) {
            M.write_entry(t[0], i, c);
            continue;
          }
        M.write_entry(t, i, c);
      }
    // one entry is overwritten, the neighbours must not move
    unsigned int oi_ = ~0u, oc = 0;
    if (no) {
      oi_ = r.u64() % no;
      oc = r.u64() % sp.row_length(oi_);
      Tensor<1, nc, Number> t;
      for (int k = 0; k < nc; ++k)
        t[k] = Number(7 + k);
      M.write_entry(t, oi_, oc);
    }
    auto W = [&](unsigned int a, unsigned int c, int k) { return a == oi_ && c == oc ? Number(7 + k) : H(a, col(a, c), k); };
    for (unsigned int a = 0; a < no; ++a)
      for (unsigned int c = 0; c < sp.row_length(a); ++c) {
        const auto t = M.get_tensor(a, c);
        ++mon::evals();
        for (int k = 0; k < nc; ++k)
          if (t[k] != W(a, c, k))
            mon::fail("C14/matrix/scalar-read" + N, "row %u position %u component %d: %g instead of %g", a, c, k, double(t[k]), double(W(a, c, k)));
        if constexpr (nc == 1)
          if (M.get_entry(a, c) != W(a, c, 0))
            mon::fail("C14/matrix/entry-read" + N, "row %u position %u", a, c);
      }
    for (unsigned int a = 0; a < ni; a += S)
      for (unsigned int c = 0; c < sp.row_length(a); ++c) {
        const auto t = M.template get_tensor<VA>(a, c);
        for (int s = 0; s < S; ++s)
          for (int k = 0; k < nc; ++k)
            if (t[k][s] != W(a + s, c, k))
              mon::fail("C14/matrix/vector-read" + N, "row %u position %u component %d lane %d", a, c, k, s);
        if constexpr (nc == 1) {
          const auto e = M.template get_entry<VA>(a, c);
          for (int s = 0; s < S; ++s)
            if (e[s] != W(a + s, c, 0))
              mon::fail("C14/matrix/vector-entry-read" + N, "row %u position %u lane %d", a, c, s);
        }
      }
    if (no) {
      Tensor<1, nc, Number> t;
      for (int k = 0; k < nc; ++k)
        t[k] = H(oi_, col(oi_, oc), k);
      M.write_entry(t, oi_, oc);
    }
    if (round)
      M.update_ghost_rows();
    else {
      M.update_ghost_rows_start(3 + round);
      M.update_ghost_rows_finish();
    }
    // transposes, through the ghost rows where necessary
    long ghosts = 0;
    auto pattern_symmetric = [&](unsigned int j) { return j >= no || sp.row_length(j) > 1; };
    for (unsigned int a = 0; a < no; ++a)
      for (unsigned int c = 0; c < sp.row_length(a); ++c) {
        const unsigned int j = col(a, c);
        if (!pattern_symmetric(j) || sp.row_length(a) == 1)
          continue;
        if (j >= no && od.affine_constraints().is_constrained(G(j)))
          continue;
        ghosts += j >= no;
        ++mon::evals();
        ++mon::nontriv();
        const auto t = M.get_transposed_tensor(a, c);
        for (int k = 0; k < nc; ++k)
          if (t[k] != H(j, a, k))
            mon::fail("C14/matrix/transposed" + N, "row %u column %u (%s) component %d: %g instead of %g", a, j, j < no ? "owned" : "ghost", k, double(t[k]), double(H(j, a, k)));
        if constexpr (nc == 1)
          if (M.get_transposed_entry(a, c) != H(j, a, 0))
            mon::fail("C14/matrix/transposed-entry" + N, "row %u column %u", a, j);
      }
    if constexpr (nc == 1) // (the vectorised transposed access exists for scalar matrices)
      for (unsigned int a = 0; a < ni; a += S)
      for (unsigned int c = 0; c < sp.row_length(a); ++c) {
        bool ok = true;
        for (int s = 0; s < S; ++s)
          ok = ok && pattern_symmetric(col(a + s, c)) && !(col(a + s, c) >= no && od.affine_constraints().is_constrained(G(col(a + s, c)))) && sp.row_length(a) > 1;
        if (!ok)
          continue;
        const auto t = M.template get_transposed_tensor<VA>(a, c);
        for (int s = 0; s < S; ++s)
          for (int k = 0; k < nc; ++k)
            if (t[k][s] != H(col(a + s, c), a + s, k))
              mon::fail("C14/matrix/vector-transposed" + N, "row %u position %u component %d lane %d", a, c, k, s);
        if constexpr (nc == 1) {
          const auto e = M.template get_transposed_entry<VA>(a, c);
          for (int s = 0; s < S; ++s)
            if (e[s] != H(col(a + s, c), a + s, 0))
              mon::fail("C14/matrix/vector-transposed-entry" + N, "row %u position %u lane %d", a, c, s);
        }
      }
    for (unsigned int a = no; a < nr && a < sp.n_rows(); ++a)
      for (unsigned int c = 0; c < sp.row_length(a); ++c) {
        const unsigned int j = col(a, c);
        const auto t = M.get_tensor(a, c);
        ++mon::evals();
        for (int k = 0; k < nc; ++k)
          if (t[k] != H(a, j, k))
            mon::fail("C14/matrix/ghost-row" + N, "ghost row %u column %u component %d: %g instead of %g", a, j, k, double(t[k]), double(H(a, j, k)));
      }
    mon::stat("ghost-couplings", ghosts);
  }
  // reading in a serial matrix in local numbering and a distributed one
  {
    DynamicSparsityPattern d(nr, nr);
    for (unsigned int a = 0; a < no; ++a)
      for (unsigned int c = 0; c < sp.row_length(a); ++c)
        d.add(a, col(a, c));
    SparsityPattern s;
    s.copy_from(d);
    std::array<SparseMatrix<Number>, nc> m;
    for (int k = 0; k < nc; ++k) {
      m[k].reinit(s);
      for (unsigned int a = 0; a < no; ++a)
        for (unsigned int c = 0; c < sp.row_length(a); ++c)
          m[k].set(a, col(a, c), Number(hash(G(a), G(col(a, c)), k, seed + 5)));
    }
    if constexpr (nc == 1) {
      if (seed % 2)
        M.read_in(m[0], true);
      else
        M.read_in(m, true);
    } else
      M.read_in(m, true);
    for (unsigned int a = 0; a < no; ++a)
      for (unsigned int c = 0; c < sp.row_length(a); ++c)
        for (int k = 0; k < nc; ++k) {
          ++mon::evals();
          if (M.get_tensor(a, c)[k] != Number(hash(G(a), G(col(a, c)), k, seed + 5)))
            mon::fail("C14/matrix/read-in-local" + N, "row %u position %u component %d", a, c, k);
        }
  }
  if (std::is_same_v<Number, double>) {
    TrilinosWrappers::SparsityPattern ts(part.locally_owned_range(), comm);
    IndexSet rel = part.locally_owned_range();
    DynamicSparsityPattern d(part.size(), part.size());
    for (unsigned int a = 0; a < no; ++a)
      for (unsigned int c = 0; c < sp.row_length(a); ++c)
        d.add(G(a), G(col(a, c)));
    ts.reinit(part.locally_owned_range(), d, comm);
    std::array<TrilinosWrappers::SparseMatrix, nc> m;
    for (int k = 0; k < nc; ++k) {
      m[k].reinit(ts);
      for (unsigned int a = 0; a < no; ++a)
        for (unsigned int c = 0; c < sp.row_length(a); ++c)
          m[k].set(G(a), G(col(a, c)), hash(G(a), G(col(a, c)), k, seed + 9));
      m[k].compress(VectorOperation::insert);
    }
    if constexpr (nc == 1) {
      if (seed % 2)
        M.read_in(m[0], false);
      else
        M.read_in(m, false);
    } else
      M.read_in(m, false);
    M.update_ghost_rows();
    for (unsigned int a = 0; a < no; ++a)
      for (unsigned int c = 0; c < sp.row_length(a); ++c)
        for (int k = 0; k < nc; ++k) {
          ++mon::evals();
          if (M.get_tensor(a, c)[k] != Number(hash(G(a), G(col(a, c)), k, seed + 9)))
            mon::fail("C14/matrix/read-in-global" + N, "row %u position %u component %d", a, c, k);
        }
  }
}

template <int dim, typename Number, int nc> static void check_vector(const OD<dim> &od, const std::string &name, unsigned long seed)
{
  constexpr int S = VectorizedArray<Number>::size();
  using VA = VectorizedArray<Number>;
  using MV = ryujin::Vectors::MultiComponentVector<Number, nc>;
  const auto &part = od.scalar_partitioner();
  const unsigned int no = od.n_locally_owned(), nr = od.n_locally_relevant();
  const unsigned int nv = no / S * S;
  auto G = [&](unsigned int i) { return part->local_to_global(i); };
  auto H = [&](unsigned int i, int k) { return Number(hash(G(i), 3, k, seed)); };
  const std::string N = "/nc" + std::to_string(nc) + (sizeof(Number) == 4 ? "f" : "d") + "/" + name;
  MV U;
  U.reinit_with_scalar_partitioner(part);
  if (U.locally_owned_size() != no * nc || U.get_partitioner()->n_ghost_indices() != part->n_ghost_indices() * nc)
    mon::fail("C14/vector/size" + N, "%u unknowns, %u stored", no, unsigned(U.locally_owned_size()));
  mon::Rng r(seed + 3 * rk);
  unsigned int i = 0;
  if (seed % 2)
    for (; i < nv; i += S) {
      Tensor<1, nc, VA> t;
      for (int s = 0; s < S; ++s)
        for (int k = 0; k < nc; ++k)
          t[k][s] = H(i + s, k);
      U.template write_tensor<VA>(t, i);
    }
  for (; i < no; ++i) {
    Tensor<1, nc, Number> t;
    for (int k = 0; k < nc; ++k)
      t[k] = H(i, k);
    U.write_tensor(t, i);
  }
  U.update_ghost_values();
  auto check = [&](const char *what, Number shift) {
    for (unsigned int a = 0; a < nr; ++a) {
      const auto t = U.get_tensor(a);
      ++mon::evals();
      mon::nontriv() += a >= no;
      for (int k = 0; k < nc; ++k)
        if (t[k] != H(a, k) + shift)
          mon::fail("C14/vector/" + std::string(what) + N, "%s unknown %u component %d: %g instead of %g", a < no ? "owned" : "ghost", a, k, double(t[k]), double(H(a, k) + shift));
    }
    for (unsigned int a = 0; a < nv; a += S) {
      const auto t = U.template get_tensor<VA>(a);
      for (int s = 0; s < S; ++s)
        for (int k = 0; k < nc; ++k)
          if (t[k][s] != H(a + s, k) + shift)
            mon::fail("C14/vector/" + std::string(what) + "-vectorised" + N, "unknown %u component %d lane %d", a, k, s);
    }
    for (int q = 0; q < 40 && nr; ++q) {
      unsigned int js[S];
      for (int s = 0; s < S; ++s)
        js[s] = r.u64() % nr;
      const auto t = U.template get_tensor<VA>(js);
      for (int s = 0; s < S; ++s)
        for (int k = 0; k < nc; ++k)
          if (t[k][s] != H(js[s], k) + shift)
            mon::fail("C14/vector/" + std::string(what) + "-gather" + N, "unknown %u component %d lane %d", js[s], k, s);
      const auto u = U.get_tensor(js);
      for (int k = 0; k < nc; ++k)
        if (u[k] != H(js[0], k) + shift)
          mon::fail("C14/vector/" + std::string(what) + "-gather-scalar" + N, "unknown %u", js[0]);
    }
  };
  check("write", Number(0));
  U.zero_out_ghost_values();
  i = 0;
  if (seed % 3)
    for (; i < nv; i += S) {
      Tensor<1, nc, VA> t;
      for (int k = 0; k < nc; ++k)
        t[k] = Number(2);
      U.template add_tensor<VA>(t, i);
    }
  for (; i < no; ++i) {
    Tensor<1, nc, Number> t;
    for (int k = 0; k < nc; ++k)
      t[k] = Number(2);
    U.add_tensor(t, i);
  }
  U.update_ghost_values();
  check("add", Number(2));
  // components
  LinearAlgebra::distributed::Vector<Number> x(part);
  for (int k = 0; k < nc; ++k) {
    U.extract_component(x, k);
    for (unsigned int a = 0; a < nr; ++a) {
      ++mon::evals();
      if (x.local_element(a) != H(a, k) + Number(2))
        mon::fail("C14/vector/extract" + N, "%s unknown %u component %d", a < no ? "owned" : "ghost", a, k);
    }
  }
  MV V;
  V.reinit_with_scalar_partitioner(part);
  for (int k = 0; k < nc; ++k) {
    U.extract_component(x, k);
    V.insert_component(x, k);
  }
  V.update_ghost_values();
  for (unsigned int a = 0; a < nr; ++a)
    for (int k = 0; k < nc; ++k)
      if (V.get_tensor(a)[k] != H(a, k) + Number(2))
        mon::fail("C14/vector/insert" + N, "%s unknown %u component %d", a < no ? "owned" : "ghost", a, k);
}

template <int dim> struct Matrices {
  static constexpr int S = VectorizedArray<double>::size();
  ryujin::SparseMatrixSIMD<double, 1> d1;
  ryujin::SparseMatrixSIMD<double, 2> d2;
  ryujin::SparseMatrixSIMD<double, 3> d3;
  ryujin::SparseMatrixSIMD<double, 5> d5;
  // single precision and another vector length, with a pattern of its own
  static constexpr int SF = VectorizedArray<float>::size();
  ryujin::SparsityPatternSIMD<SF> spf;
  ryujin::SparseMatrixSIMD<float, 1, SF> f1;
  ryujin::SparseMatrixSIMD<float, 3, SF> f3;
  void run(const OD<dim> &od, const std::string &name, unsigned long seed)
  {
    const auto &sp = od.sparsity_pattern_simd();
    const unsigned int ni = od.n_locally_internal();
    check_matrix<dim>(od, sp, d1, ni, name, seed);
    check_matrix<dim>(od, sp, d2, ni, name, seed + 1);
    check_matrix<dim>(od, sp, d3, ni, name, seed + 2);
    check_matrix<dim>(od, sp, d5, ni, name, seed + 3);
    const auto &part = *od.scalar_partitioner();
    // rows of equal length for the longer stride
    unsigned int nf = 0;
    while (nf + SF <= ni) {
      bool same = true;
      for (int s = 1; s < SF; ++s)
        same = same && sp.row_length(nf + s) == sp.row_length(nf);
      if (!same)
        break;
      nf += SF;
    }
    (void)part;
    spf.reinit(nf, od.sparsity_pattern(), od.scalar_partitioner());
    check_matrix<dim>(od, spf, f1, nf, name, seed + 4);
    check_matrix<dim>(od, spf, f3, nf, name, seed + 5);
    check_vector<dim, double, 1>(od, name, seed);
    check_vector<dim, double, 2>(od, name, seed + 1);
    check_vector<dim, double, 5>(od, name, seed + 2);
    check_vector<dim, float, 3>(od, name, seed + 3);
    check_vector<dim, float, 4>(od, name, seed + 4);
  }
};

template <int dim> static void run(const std::string &file)
{
  ParameterAcceptor::clear();
  ryujin::Discretization<dim> disc(comm, "/C - Discretization");
  OD<dim> od(comm, disc, "/D - OfflineData");
  ParameterAcceptor::initialize(file);
  const std::string name = os("name"), op = os("op");
  const unsigned long seed = oi("seed", 1);
  Matrices<dim> mats;
  std::stringstream ss(os("levels", std::to_string(disc.refinement())));
  int n = 0;
  for (std::string s; std::getline(ss, s, ','); ++n) {
    disc.refinement() = std::stoi(s);
    disc.prepare("c");
    for (int r = 0; r < oi("refine", 0); ++r)
      refine<dim>(disc, seed, r);
    const std::string nm = name + (n ? "/setup" + std::to_string(n) : "");
    od.prepare(dim + 2, 2);
    if (op == "mesh")
      check_mesh<dim>(disc, od, nm);
    else
      mats.run(od, nm, seed + 100 * n);
  }
}

int main(int argc, char **argv)
{
  Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);
  rk = Utilities::MPI::this_mpi_process(comm);
  for (int i = 1; i < argc; ++i) {
    O.clear();
    printf("CASE %s\n", argv[i]);
    fflush(stdout);
    std::ifstream f(argv[i]);
    for (std::string l; std::getline(f, l);)
      if (!l.compare(0, 3, "#@ ")) {
        const auto e = l.find('=');
        O[l.substr(3, e - 3)] = l.substr(e + 1);
      }
    try {
      const int d = oi("dim", 2);
      if (d == 1)
        run<1>(argv[i]);
      else if (d == 2)
        run<2>(argv[i]);
      else
        run<3>(argv[i]);
    } catch (const std::exception &e) {
      mon::fail("exception/" + os("name"), "%s", e.what());
    }
  }
  mon::finish();
}
