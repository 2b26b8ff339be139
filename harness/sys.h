// A complete solver for one equation in one space dimension, set up from a
// random configuration, and a reference model of one explicit update that only
// uses the classes below the HyperbolicModule.
#pragma once

#include "unit.h"

#include <description.h>
#include <discretization.h>
#include <hyperbolic_module.h>
#include <initial_values.h>
#include <offline_data.h>
#include <parabolic_module.h>
#include <time_integrator.h>

#include <sparse_matrix_simd.template.h>

#include <deal.II/base/multithread_info.h>
#include <deal.II/dofs/dof_tools.h>
#include <deal.II/grid/grid_tools.h>

#include <memory>
#include <random>

namespace ryujin
{
  namespace ShallowWater
  {
    struct Description;
  }
} // namespace ryujin

namespace rj = ryujin;

inline const MPI_Comm &world()
{
  static const MPI_Comm c = MPI_COMM_WORLD;
  return c;
}

/* ------------------------------------------------------------------ mesh */

template <int dim>
struct Mesh {
  std::string ansatz = "cG Q1";
  long sub[3] = {1, 1, 1};
  double lo[3] = {0, 0, 0}, hi[3] = {1, 1, 1};
  long refine = 0;
  std::string bc[6];       // left right bottom top back front
  bool periodic[3] = {false, false, false};
  bool hanging = false;
  double distort = 0.;
  uint64_t seed = 0;

  bool dg() const { return ansatz[0] == 'd'; }
  bool all_periodic() const
  {
    for (int d = 0; d < dim; ++d)
      if (!periodic[d])
        return false;
    return true;
  }
  std::string prm() const
  {
    std::ostringstream o;
    o.precision(17);
    o << "subsection C - Discretization\n"
      << "  set finite element ansatz = " << ansatz << "\n"
      << "  set geometry = rectangular domain\n"
      << "  set mesh refinement = " << refine << "\n"
      << "  set mesh writeout = false\n"
      << "  subsection rectangular domain\n";
    const char *axis = "xyz";
    const char *side[6] = {"left", "right", "bottom", "top", "back", "front"};
    for (int d = 0; d < dim; ++d) {
      o << "    set subdivisions " << axis[d] << " = " << sub[d] << "\n";
      for (int k = 0; k < 2; ++k)
        o << "    set boundary condition " << side[2 * d + k] << " = "
          << (periodic[d] ? "periodic" : bc[2 * d + k]) << "\n";
    }
    o << "    set position bottom left = ";
    for (int d = 0; d < dim; ++d)
      o << (d ? ", " : "") << lo[d];
    o << "\n    set position top right = ";
    for (int d = 0; d < dim; ++d)
      o << (d ? ", " : "") << hi[d];
    o << "\n  end\nend\n";
    return o.str();
  }
  std::string show() const
  {
    std::ostringstream o;
    o << ansatz << ", cells";
    for (int d = 0; d < dim; ++d)
      o << " " << (sub[d] << refine);
    for (int d = 0; d < dim; ++d)
      o << ", " << lo[d] << ".." << hi[d] << " "
        << (periodic[d] ? "periodic" : bc[2 * d] + "/" + bc[2 * d + 1]);
    if (hanging)
      o << ", locally refined";
    if (distort != 0.)
      o << ", distorted";
    return o.str();
  }
};

struct MeshOptions {
  std::vector<std::string> bcs{"do nothing"};
  bool dg = true, high_order = true, hanging = true, distort = true;
  double periodic = 0.4; // probability, for each direction
};

template <int dim>
Mesh<dim> random_mesh(Src &s, const MeshOptions &o)
{
  Mesh<dim> m;
  std::vector<std::string> a{"cG Q1", "cG Q1"};
  if (o.high_order)
    a.insert(a.end(), {"cG Q2", "cG Q3"});
  if (o.dg) {
    a.insert(a.end(), {"dG Q0", "dG Q1"});
    if (o.high_order)
      a.insert(a.end(), {"dG Q2", "dG Q3"});
  }
  m.ansatz = s.pick(a);
  const int degree = m.ansatz[4] - '0';
  m.refine = s.range(0, dim == 1 ? 2 : (dim == 2 ? 1 : 0));
  for (int d = 0; d < dim; ++d) {
    m.periodic[d] = s.chance(o.periodic);
    const long cap = dim == 1 ? (degree >= 2 ? 6 : 12)
                     : dim == 2 ? (degree >= 2 ? 3 : 5)
                                : (degree >= 2 ? 2 : 3);
    long least = m.periodic[d] ? 3 : 1;
    long n = s.range(least, std::max(least, cap));
    m.sub[d] = std::max<long>(1, n >> m.refine);
    if (m.periodic[d])
      while ((m.sub[d] << m.refine) < 3)
        ++m.sub[d];
    m.lo[d] = s.pick({0., -1., -0.3, 2.});
    m.hi[d] = m.lo[d] + s.pick({1., 1., 0.1, 3., 20.});
    for (int k = 0; k < 2; ++k)
      m.bc[2 * d + k] = s.pick(o.bcs);
  }
  /* keep aspect ratios moderate */
  for (int d = 1; d < dim; ++d) {
    const double h0 = (m.hi[0] - m.lo[0]) / m.sub[0];
    const double h = (m.hi[d] - m.lo[d]) / m.sub[d];
    if (h / h0 > 8. || h0 / h > 8.)
      m.hi[d] = m.lo[d] + h0 * m.sub[d] * s.uniform(0.3, 3.);
  }
  if (o.hanging && !m.dg() && dim >= 2)
    m.hanging = s.chance(0.25);
  /* deal.II leaves some edges of periodic faces unmatched in 3D */
  for (int d = 0; d < dim; ++d)
    if (dim == 3 && m.periodic[d])
      m.hanging = false;
  /* a single unknown is taken for a constrained one */
  if (m.ansatz == "dG Q0") {
    long cells = 1;
    for (int d = 0; d < dim; ++d)
      cells *= m.sub[d] << m.refine;
    if (cells < 2)
      ++m.sub[0];
  }
  if (o.distort && s.chance(0.3))
    m.distort = s.uniform(0.02, 0.2);
  m.seed = s.range(0, 1000000);
  return m;
}

/* ---------------------------------------------------------------- system */

struct Edge {
  unsigned int j;
  double m, minv, inc;
  int back; // position of i in the row of j
};

template <typename D, int dim>
struct Sys {
  using HS = typename D::HyperbolicSystem;
  using View = typename D::template HyperbolicSystemView<dim, double>;
  using state = typename View::state_type;
  using StateVector = typename View::StateVector;
  using RiemannSolver = typename D::template RiemannSolver<dim, double>;
  using Indicator = typename D::template Indicator<dim, double>;
  using Limiter = typename D::template Limiter<dim, double>;
  using Vec = dealii::Tensor<1, dim, double>;
  static constexpr int n_comp = View::problem_dimension;

  std::map<std::string, dealii::Timer> timers;
  HS hs;
  typename D::ParabolicSystem ps;
  rj::Discretization<dim> disc;
  rj::OfflineData<dim, double> off;
  rj::InitialValues<D, dim, double> iv;
  rj::HyperbolicModule<D, dim, double> hm;
  rj::ParabolicModule<D, dim, double> pm;
  rj::TimeIntegrator<D, dim, double> ti;
  typename Indicator::Parameters ip;
  typename Limiter::Parameters lp;
  typename RiemannSolver::Parameters rp;

  /* the stencil, read from the public data structures */
  unsigned int n = 0, n_all = 0;
  std::vector<std::vector<Edge>> rows;
  std::vector<std::vector<Vec>> c;
  std::vector<double> mass;
  std::vector<dealii::Point<dim>> pos;
  bool dg = false;

  Sys()
      : hs("/B - Equation")
      , ps("/B - Equation")
      , disc(world(), "/C - Discretization")
      , off(world(), disc, "/D - OfflineData")
      , iv(hs, off, "/E - InitialValues")
      , hm(world(), timers, off, hs, iv, "/F - HyperbolicModule")
      , pm(world(), timers, off, hs, ps, iv, "/G - ParabolicModule")
      , ti(world(), off, hm, pm, "/H - TimeIntegrator")
      , ip("/F - HyperbolicModule/indicator")
      , lp("/F - HyperbolicModule/limiter")
      , rp("/F - HyperbolicModule/riemann solver")
  {
  }

  auto view() const { return hs.template view<dim, double>(); }

  bool constrained(unsigned int i) const { return rows[i].size() <= 1; }

  void setup(const Mesh<dim> &m)
  {
    disc.prepare("unused");
    auto &tria = disc.triangulation();
    std::mt19937 gen(m.seed);
    if (m.hanging) {
      for (const auto &cell : tria.active_cell_iterators())
        if (cell->is_locally_owned() && gen() % 3 == 0)
          cell->set_refine_flag();
      tria.execute_coarsening_and_refinement();
    }
    if (m.distort != 0. && !m.hanging)
      dealii::GridTools::distort_random(
          m.distort, tria, /*keep boundary*/ true, unsigned(m.seed));
    dg = m.dg();
    prepare();
  }

  void prepare()
  {
    off.prepare(n_comp, View::n_precomputed_values);
    hm.prepare();
    pm.prepare();
    ti.prepare();
    read_stencil();
  }

  void read_stencil()
  {
    n = off.n_locally_owned();
    n_all = off.n_locally_relevant();
    const auto &sp = off.sparsity_pattern_simd();
    rows.assign(n, {});
    c.assign(n, {});
    mass.assign(n_all, 0.);
    std::map<std::pair<unsigned, unsigned>, int> where;
    for (unsigned int i = 0; i < n; ++i) {
      const unsigned int len = sp.row_length(i);
      const unsigned int *js = sp.columns(i);
      const unsigned int stride = sp.stride_of_row(i);
      for (unsigned int k = 0; k < len; ++k) {
        Edge e;
        e.j = js[k * stride];
        e.m = off.mass_matrix().get_entry(i, k);
        e.minv = dg ? off.mass_matrix_inverse().get_entry(i, k) : 0.;
        e.inc = dg ? off.incidence_matrix().get_entry(i, k) : 0.;
        e.back = -1;
        rows[i].push_back(e);
        c[i].push_back(off.cij_matrix().get_tensor(i, k));
        where[{i, e.j}] = k;
      }
    }
    for (unsigned int i = 0; i < n; ++i)
      for (auto &e : rows[i]) {
        auto it = where.find({e.j, i});
        if (it != where.end())
          e.back = it->second;
      }
    for (unsigned int i = 0; i < n_all; ++i)
      mass[i] = off.lumped_mass_matrix().local_element(i);

    pos.assign(n, {});
    std::map<dealii::types::global_dof_index, dealii::Point<dim>> sup;
    dealii::DoFTools::map_dofs_to_support_points(
        disc.mapping(), off.dof_handler(), sup);
    for (unsigned int i = 0; i < n; ++i)
      pos[i] = sup[off.scalar_partitioner()->local_to_global(i)];
  }

  void reinit(StateVector &v) const
  {
    rj::Vectors::reinit_state_vector<D>(v, off);
  }

  void put(StateVector &v, const std::vector<state> &u) const
  {
    auto &U = std::get<0>(v);
    for (unsigned int i = 0; i < n; ++i)
      U.write_tensor(u[i], i);
    U.update_ghost_values();
  }

  std::vector<state> get(const StateVector &v) const
  {
    std::vector<state> r(n);
    for (unsigned int i = 0; i < n; ++i)
      r[i] = std::get<0>(v).get_tensor(i);
    return r;
  }

  double step(const StateVector &old,
              const std::vector<const StateVector *> &stages,
              const std::vector<double> &w, StateVector &out, double tau) const
  {
    using Ref = std::reference_wrapper<const StateVector>;
    switch (stages.size()) {
    case 0:
      return hm.template step<0>(old, {}, {}, out, tau);
    case 1:
      return hm.template step<1>(old, {{Ref(*stages[0])}}, {{w[0]}}, out, tau);
    case 2:
      return hm.template step<2>(old,
                                 {{Ref(*stages[0]), Ref(*stages[1])}},
                                 {{w[0], w[1]}},
                                 out,
                                 tau);
    case 3:
      return hm.template step<3>(
          old,
          {{Ref(*stages[0]), Ref(*stages[1]), Ref(*stages[2])}},
          {{w[0], w[1], w[2]}},
          out,
          tau);
    default:
      return hm.template step<4>(
          old,
          {{Ref(*stages[0]), Ref(*stages[1]), Ref(*stages[2]),
            Ref(*stages[3])}},
          {{w[0], w[1], w[2], w[3]}},
          out,
          tau);
    }
  }

  /* ------------------------------------------------------- reference model */

  struct Step {
    std::vector<state> low, high;
    std::vector<std::array<double, Limiter::n_bounds>> bounds;
    std::vector<state> size; // magnitude of the terms entering the update
    std::vector<double> alpha;
    std::vector<std::vector<double>> d;
    double tau_max = 0.;
    bool violated = false, surely = false;
    double l_min = 1., l_sum = 0.;
    long l_n = 0;
  };

  Step reference(const StateVector &old,
                 const std::vector<const StateVector *> &stages,
                 const std::vector<double> &w, double cfl, double tau,
                 double noise, uint64_t noise_seed) const
  {
    constexpr bool sw =
        std::is_same_v<D, rj::ShallowWater::Description>;
    Step r;
    const auto v = view();
    const auto &U = std::get<0>(old);
    const auto &prec = std::get<1>(old);
    const auto &piv = hm.initial_precomputed();
    const double omega = off.measure_of_omega();

    std::mt19937_64 gen(noise_seed);
    auto wobble = [&](auto t, const state &size) {
      if (noise != 0.)
        for (int k = 0; k < n_comp; ++k)
          t[k] += size[k] * noise * (double(gen() >> 11) * 0x1.0p-52 - 1.);
      return t;
    };

    /* roundoff in the matrix entries reaches viscosities, indicators and
       bounds, in particular if the flux is orthogonal to c_ij */
    std::vector<std::vector<Vec>> noisy_c;
    std::vector<double> largest(n, 0.);
    for (unsigned int i = 0; i < n; ++i)
      for (auto &x : this->c[i])
        largest[i] = std::max(largest[i], x.norm());
    if (noise != 0.) {
      noisy_c = this->c;
      for (unsigned int i = 0; i < n; ++i) {
        for (auto &x : noisy_c[i]) {
          const double size = x.norm() + 1e-3 * largest[i];
          for (int q = 0; q < dim; ++q)
            x[q] +=
                size * noise * (double(gen() >> 11) * 0x1.0p-52 - 1.);
        }
      }
    }
    const auto &c = noise != 0. ? noisy_c : this->c;

    RiemannSolver rs(hs, rp, prec);
    Indicator ind(hs, ip, prec);

    /* viscosity, indicator, time step */
    r.d.resize(n);
    r.alpha.assign(n, 0.);
    r.tau_max = std::numeric_limits<double>::max();
    for (unsigned int i = 0; i < n; ++i) {
      r.d[i].assign(rows[i].size(), 0.);
      if (constrained(i))
        continue;
      const auto U_i = U.get_tensor(i);
      ind.reset(i, U_i);
      double sum = 0.;
      for (unsigned int k = 0; k < rows[i].size(); ++k) {
        const unsigned int j = rows[i][k].j;
        const auto U_j = U.get_tensor(j);
        ind.accumulate(&j, U_j, c[i][k]);
        if (k == 0)
          continue;
        const double a = c[i][k].norm();
        const double d_ij = a * rs.compute(U_i, U_j, i, &j, c[i][k] / a);
        const auto &cji = c[j][rows[i][k].back];
        const double b = cji.norm();
        const double d_ji = b * rs.compute(U_j, U_i, j, &i, cji / b);
        double d = std::max(d_ij, d_ji);
        if (noise != 0. &&
            (this->c[i][k] + this->c[j][rows[i][k].back]).norm() <
                1e-12 * largest[i]) {
          /* c_ij = -c_ji up to roundoff, either may be used */
          const auto lo = std::min(i, j), hi = std::max(i, j);
          const auto pick =
              pbt::mix(noise_seed + pbt::mix(lo * 1000003ull + hi)) % 3;
          if (pick)
            d = (pick == 1) == (i < j) ? d_ij : d_ji;
        }
        r.d[i][k] = d;
        sum += d;
      }
      sum = std::max(sum, 1.e6 * std::numeric_limits<double>::min());
      r.d[i][0] = -sum;
      r.tau_max = std::min(r.tau_max, cfl * mass[i] / (2. * sum));
      r.alpha[i] = ind.alpha(mass[i] / omega);
    }
    if (tau == 0.)
      tau = r.tau_max;

    /* low-order update, fluxes, bounds */
    double own = 1.;
    for (double x : w)
      own -= x;
    r.low.resize(n);
    r.size.resize(n);
    r.bounds.resize(n);
    std::vector<state> F(n);
    std::vector<std::vector<state>> P(n);

    auto flux_of = [&](const StateVector &sv, unsigned int i) {
      return v.flux_contribution(
          std::get<1>(sv), piv, i, std::get<0>(sv).get_tensor(i));
    };
    auto high_flux = [&](const auto &a, const auto &b, const Vec &cij) {
      if constexpr (View::have_high_order_flux)
        return v.high_order_flux_divergence(a, b, cij);
      else
        return v.flux_divergence(a, b, cij);
    };
    auto source = [&](const StateVector &sv, unsigned int i) {
      state q;
      if constexpr (View::have_source_terms)
        q = v.nodal_source(
            std::get<1>(sv), i, std::get<0>(sv).get_tensor(i), tau);
      return q;
    };

    for (unsigned int i = 0; i < n; ++i) {
      if (constrained(i))
        continue;
      const auto U_i = U.get_tensor(i);
      const auto f_i = flux_of(old, i);
      Limiter lim(hs, lp, prec);
      lim.reset(i, U_i, f_i);

      const state S_i = source(old, i);
      state S_H = own * S_i;
      for (unsigned int s = 0; s < w.size(); ++s)
        S_H += w[s] * source(*stages[s], i);

      state shift = tau * S_i;
      if constexpr (sw)
        for (unsigned int k = 0; k < rows[i].size(); ++k)
          shift += tau / mass[i] *
                   v.affine_shift(
                       f_i, flux_of(old, rows[i][k].j), c[i][k], r.d[i][k]);

      state low = U_i + tau * S_i;
      state size;
      for (int q = 0; q < n_comp; ++q)
        size[q] = std::abs(U_i[q]) + std::abs(tau * S_i[q]);
      state FH = mass[i] * S_H;
      P[i].resize(rows[i].size());

      for (unsigned int k = 0; k < rows[i].size(); ++k) {
        const auto &e = rows[i][k];
        const unsigned int j = e.j;
        const auto U_j = U.get_tensor(j);
        const auto f_j = flux_of(old, j);
        const double d = r.d[i][k];
        double blend = 0.5 * (r.alpha[i] + r.alpha[j]);
        if (dg)
          blend = std::max(blend, e.inc);

        const state flux = v.flux_divergence(f_i, f_j, c[i][k]);
        state visc;
        Vec scaled = c[i][k] / std::max(d, 100. * std::numeric_limits<
                                                      double>::min());
        if (noise != 0.)
          /* both signs, in consecutive runs: see above */
          for (int q = 0; q < dim; ++q)
            scaled[q] += (noise_seed % 2 ? 1. : -1.) * 10. * noise *
                         (c[i][k].norm() + 1e-3 * largest[i]) *
                         (double(pbt::mix(noise_seed / 2 + pbt::mix(
                              i * 1000003ull + 3 * j + q)) >> 11) *
                              0x1.0p-52 -
                          1.) /
                         std::max(d, 1e-30 * largest[i]);
        if constexpr (sw) {
          const auto st = v.equilibrated_states(f_i, f_j);
          visc = st[1] - st[0];
          lim.accumulate(U_j, st[0], st[1], scaled, shift);
        } else {
          visc = U_j - U_i;
          lim.accumulate(&j, U_j, f_j, scaled, shift);
        }
        low += tau / mass[i] * (flux + d * visc);

        /* high-order right-hand side minus the low-order one */
        state high = own * high_flux(f_i, f_j, c[i][k]) +
                     own * e.m * source(old, j) - e.m * S_H;
        for (unsigned int s = 0; s < w.size(); ++s)
          high += w[s] * (high_flux(flux_of(*stages[s], i),
                                    flux_of(*stages[s], j), c[i][k]) +
                          e.m * source(*stages[s], j));
        high += blend * d * visc;
        FH += high;
        P[i][k] = high + e.m * (S_H - S_i) - flux - d * visc;
        for (int q = 0; q < n_comp; ++q)
          size[q] = std::max(size[q], std::abs(U_j[q])) +
                    tau / mass[i] *
                        (std::abs(flux[q]) + std::abs(d * visc[q]) +
                         std::abs(P[i][k][q]));
      }
      F[i] = FH;
      r.low[i] = wobble(low, size);
      r.size[i] = size;
      r.bounds[i] = lim.bounds(mass[i] / omega);
      if (noise != 0.)
        for (auto &b : r.bounds[i])
          b *= 1. + noise * (double(gen() >> 11) * 0x1.0p-52 - 1.);
    }

    r.high = r.low;
    const unsigned int passes = lp.iterations();
    if (passes == 0)
      return r;

    /* antidiffusive fluxes with the mass matrix correction */
    auto bounds = r.bounds;
    if (dg)
      for (unsigned int i = 0; i < n; ++i)
        for (unsigned int k = 1; k < rows[i].size(); ++k)
          bounds[i] =
              Limiter::combine_bounds(bounds[i], r.bounds[rows[i][k].j]);
    for (unsigned int i = 0; i < n; ++i) {
      if (constrained(i))
        continue;
      const double lambda_inv = double(rows[i].size()) - 1.;
      for (unsigned int k = 1; k < rows[i].size(); ++k) {
        const auto &e = rows[i][k];
        double b_ij, b_ji;
        if (dg) {
          b_ij = mass[i] * e.minv;
          b_ji = mass[e.j] * e.minv;
        } else {
          b_ij = -e.m / mass[e.j];
          b_ji = -e.m / mass[i];
        }
        P[i][k] += b_ij * F[e.j] - b_ji * F[i];
        P[i][k] *= tau / mass[i] * lambda_inv;
        for (int q = 0; q < n_comp; ++q)
          r.size[i][q] += std::abs(P[i][k][q]) / lambda_inv;
        P[i][k] = wobble(P[i][k], r.size[i]);
      }
    }
    Limiter lim(hs, lp, prec);
    for (unsigned int pass = 0; pass < passes; ++pass) {
      std::vector<std::vector<double>> l(n);
      for (unsigned int i = 0; i < n; ++i) {
        l[i].assign(rows[i].size(), 0.);
        if (constrained(i))
          continue;
        for (unsigned int k = 1; k < rows[i].size(); ++k) {
          const auto [x, ok] = lim.limit(bounds[i], r.high[i], P[i][k]);
          l[i][k] = x;
          if (const char *e = getenv("VERIF_NODE");
              e && (unsigned(atoi(e)) == i ||
                    unsigned(atoi(e)) == rows[i][k].j)) {
            std::cerr << std::setprecision(17) << "pass " << pass << " i " << i
                      << " j " << rows[i][k].j << " l " << x << " ok " << ok
                      << " U " << r.high[i] << " P " << P[i][k] << " bounds";
            std::apply([](auto... b) { ((std::cerr << " " << b), ...); },
                       bounds[i]);
            std::cerr << std::endl;
          }
          if (!ok && pass == 0) {
            r.violated = true;
            /* by more than roundoff? */
            auto wide = bounds[i];
            for (double f : {-1., 1.}) {
              auto b = bounds[i];
              for (auto &x : b)
                x += f * 1e-9 * (std::abs(x) + r.size[i][0]);
              wide = Limiter::combine_bounds(wide, b);
            }
            if (!std::get<1>(lim.limit(wide, r.high[i], P[i][k])))
              r.surely = true;
          }
        }
      }
      for (unsigned int i = 0; i < n; ++i) {
        if (constrained(i))
          continue;
        const double lambda = 1. / (double(rows[i].size()) - 1.);
        for (unsigned int k = 1; k < rows[i].size(); ++k) {
          const double x =
              std::min(l[i][k], l[rows[i][k].j][rows[i][k].back]);
          r.high[i] += x * lambda * P[i][k];
          P[i][k] *= 1. - x;
          r.l_min = std::min(r.l_min, x);
          r.l_sum += x;
          ++r.l_n;
        }
      }
    }
    return r;
  }
};

#define SYS_MAIN                                                               \
  int main(int argc, char **argv)                                              \
  {                                                                            \
    flush_denormals();                                                         \
    dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);               \
    dealii::MultithreadInfo::set_thread_limit(1);                              \
    omp_set_num_threads(1);                                                    \
    return pbt::main_loop(argc, argv);                                         \
  }
