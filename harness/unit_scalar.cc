#define ScalarConservation ScalarConservationVerif
#include "unit.h"

#include <hyperbolic_system.h>
#include <indicator.h>
#include <limiter.template.h>
#include <multicomponent_vector.h>
#include <riemann_solver.template.h>

#include <discretization.h>

using namespace ryujin;
using namespace ryujin::ScalarConservation;

namespace
{
  template <int dim>
  using View = HyperbolicSystemView<dim, double>;
  template <int dim>
  using St = typename View<dim>::state_type;
  template <int dim>
  using PV = typename View<dim>::PrecomputedVector;
  template <int dim>
  using T1 = dealii::Tensor<1, dim, double>;

  /* a flux with its reference in long double */
  struct Flux {
    std::string name;
    /* coefficients of u^k, k = 0..4, and of sin(u), cos(u), per direction */
    R a[3][7] = {};
    double delta = 1e-10;
    bool numeric = false;

    R f(R u, int d) const
    {
      R v = 0, q = 1;
      for (int k = 0; k < 5; ++k, q *= u)
        v += a[d][k] * q;
      return v + a[d][5] * std::sin(u) + a[d][6] * std::cos(u);
    }
    R df(R u, int d) const
    {
      R v = 0, q = 1;
      for (int k = 1; k < 5; ++k, q *= u)
        v += k * a[d][k] * q;
      return v + a[d][5] * std::cos(u) - a[d][6] * std::sin(u);
    }
    R mag(R u, int d) const
    {
      R v = 0, q = 1;
      for (int k = 0; k < 5; ++k, q *= std::abs(u))
        v += std::abs(a[d][k]) * q;
      return v + std::abs(a[d][5]) + std::abs(a[d][6]);
    }
    /* a bound of |f''| on [-m, m] */
    R ddf(R m, int d) const
    {
      R v = 0, q = 1;
      for (int k = 2; k < 5; ++k, q *= m)
        v += k * (k - 1) * std::abs(a[d][k]) * q;
      return v + std::abs(a[d][5]) + std::abs(a[d][6]);
    }
    template <int dim>
    std::string prm() const
    {
      std::string s = "subsection E\n" + prm_entry("flux", name);
      if (name == "function") {
        std::string e;
        for (int d = 0; d < dim; ++d) {
          e += d ? "; " : "";
          e += pbt::num(double(a[d][0]));
          std::string q = "";
          for (int k = 1; k < 5; ++k) {
            q += "*u";
            if (a[d][k] != 0)
              e += " + (" + pbt::num(double(a[d][k])) + ")" + q;
          }
          if (a[d][5] != 0)
            e += " + (" + pbt::num(double(a[d][5])) + ")*sin(u)";
          if (a[d][6] != 0)
            e += " + (" + pbt::num(double(a[d][6])) + ")*cos(u)";
        }
        s += "subsection function\n" + prm_entry("expression", e) +
             prm_entry("derivative approximation delta", delta) + "end\n";
      }
      return s + "end\n";
    }
  };

  template <int dim>
  Flux flux_choice(Src &s)
  {
    Flux f;
    f.delta = 1e4 * 0x1p-52;
    switch (s.range(0, 4)) {
    case 0:
      f.name = "burgers";
      for (int d = 0; d < 3; ++d)
        f.a[d][2] = 0.5L;
      break;
    case 1:
      if (dim < 3) {
        f.name = "kpp";
        f.a[0][5] = 1;
        f.a[1][6] = 1;
        break;
      }
      [[fallthrough]];
    default:
      f.name = "function";
      f.numeric = true;
      f.delta = s.pick({1e-10, 1e-8, 1e-6});
      for (int d = 0; d < dim; ++d)
        switch (s.range(0, 3)) {
        case 0:
          f.a[d][1] = double(s.sym(2.));
          break;
        case 1:
          f.a[d][2] = 0.5;
          break;
        case 2:
          for (int k = 0; k < 5; ++k)
            f.a[d][k] = double(s.sym(1.));
          break;
        default:
          f.a[d][5] = double(s.sym(2.));
          f.a[d][6] = double(s.sym(2.));
        }
    }
    s.label(f.name);
    s.note("flux", f.prm<dim>());
    return f;
  }

  double value(Src &s, const char *tag)
  {
    double u = 0.;
    switch (s.range(0, 3)) {
    case 0:
      u = s.sym(2.);
      break;
    case 1:
      u = double(s.range(-2, 2));
      break;
    case 2:
      u = s.sym(1e-3);
      break;
    default:
      u = s.sym(15.);
    }
    s.note(tag, u);
    return u;
  }

  double near(Src &s, double u, const char *tag)
  {
    if (s.chance(0.3)) {
      const double v =
          u + s.logu(1e-13, 1e-3) * (s.chance(0.5) ? -1. : 1.);
      s.note(tag, v);
      s.label("close states");
      return v;
    }
    return value(s, tag);
  }

  template <int dim>
  typename View<dim>::precomputed_type prec(const View<dim> &view, double u)
  {
    typename View<dim>::precomputed_type p;
    const auto f = view.flux_function(u);
    const auto g = view.flux_gradient_function(u);
    for (int d = 0; d < dim; ++d) {
      p[d] = f[d];
      p[dim + d] = g[d];
    }
    return p;
  }

  template <int dim>
  void fill(PV<dim> &pv, const View<dim> &view, const std::vector<St<dim>> &U)
  {
    pv.reinit_with_scalar_partitioner(
        std::make_shared<const dealii::Utilities::MPI::Partitioner>(
            dealii::IndexSet(dealii::complete_index_set(U.size())),
            MPI_COMM_SELF));
    for (unsigned i = 0; i < U.size(); ++i)
      pv.template write_tensor<double>(prec<dim>(view, U[i][0]), i);
  }

  /* error of a (numerical) derivative of the flux */
  template <int dim>
  R derror(const Flux &f, R u, const T1<dim> &n)
  {
    R e = 0;
    for (int d = 0; d < dim; ++d) {
      const R m = f.mag(u, d) + std::abs(f.df(u, d)) * (1 + std::abs(u));
      e += std::abs(n[d]) *
           (f.numeric ? 8e-16L * m / f.delta + 10 * f.delta * f.delta *
                                                   f.ddf(std::abs(u) + 1, d) +
                            f.delta * f.ddf(std::abs(u) + 1, d) * 0
                      : 1e-15L * m);
    }
    return e;
  }

  template <int dim>
  void wavespeed(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    typename RiemannSolver<dim, double>::Parameters rp("/R");
    const auto f = flux_choice<dim>(s);
    const bool greedy = s.chance(0.3), averaged = s.chance(0.5);
    const int random = s.chance(0.3) ? s.range(1, 5) : 0;
    set_prm(f.template prm<dim>() + "subsection R\n" +
            prm_entry("use greedy wavespeed",
                      std::string(greedy ? "true" : "false")) +
            prm_entry("use averaged entropy",
                      std::string(averaged ? "true" : "false")) +
            prm_entry("random entropies", std::to_string(random)) + "end\n");
    const auto view = hs.template view<dim, double>();
    const auto n = unit_vector<dim>(s);
    s.note("n", show(n));
    const double a = value(s, "ui"), b = near(s, a, "uj");
    PV<dim> pv;
    St<dim> A, B;
    A[0] = a;
    B[0] = b;
    fill<dim>(pv, view, {A, B});
    RiemannSolver<dim, double> rs(hs, rp, pv);
    unsigned js[1] = {1}, is[1] = {0};
    const double lam = rs.compute(A, B, 0u, js, n);
    s.note("lambda", lam);
    s.nontrivial(a != b);
    s.label(greedy ? "greedy" : "bound");
    if (averaged)
      s.label("averaged entropy");
    if (random)
      s.label("random entropies");
    require(std::isfinite(lam) && lam >= 0., "wave speed ", lam,
            " is not finite and non-negative");
    auto fn = [&](R u) {
      R v = 0;
      for (int d = 0; d < dim; ++d)
        v += f.f(u, d) * n[d];
      return v;
    };
    auto dfn = [&](R u) {
      R v = 0;
      for (int d = 0; d < dim; ++d)
        v += f.df(u, d) * n[d];
      return v;
    };
    R mag = 0, curv = 0;
    for (int d = 0; d < dim; ++d) {
      mag += std::abs(n[d]) * (f.mag(a, d) + f.mag(b, d));
      curv += std::abs(n[d]) *
              f.ddf(std::max(std::abs(a), std::abs(b)) + 1, d);
    }
    const R du = std::abs(R(a) - b), h2 = 2 * R(f.delta);
    const R ferr = 8e-16L * mag;
    const R lip = [&]() {
      R m = 0;
      for (int k = 0; k <= 64; ++k)
        m = std::max(m, std::abs(dfn(a + (R(b) - a) * k / 64)));
      return m + curv * du / 64 * 0.5L; /* any point is within du/128 */
    }();
    const R derr = std::max(derror<dim>(f, a, n), derror<dim>(f, b, n));

    /* a jump is never underestimated */
    if (du >= h2) {
      const R roe = std::abs(fn(a) - fn(b)) / du;
      require(lam >= roe - (ferr + 1e-15L * roe * (std::abs(R(a)) + std::abs(R(b)))) / du -
                         1e-14L * roe,
              "wave speed ", lam, " below the speed ", double(roe),
              " of the jump");
    }
    /* characteristic speeds of both states */
    if (!greedy)
      for (double u : {a, b})
        require(lam >= std::abs(dfn(u)) - derr, "wave speed ", lam,
                " below the characteristic speed ", double(std::abs(dfn(u))));
    /* entropy inequality for the average of the two states */
    if (averaged && du > 100 * h2) {
      const double k = 0.5 * (a + b);
      const R l = R(lam) * (1 + 4 * h2 / du) + 1e-13L;
      const R ub = (R(a) + b) / 2 - (fn(b) - fn(a)) / (2 * l);
      auto sg = [&](R u) { return u >= k ? R(1) : R(-1); };
      const R rhs = (std::abs(k - R(a)) + std::abs(k - R(b))) / 2 -
                    (sg(b) * (fn(b) - fn(k)) - sg(a) * (fn(a) - fn(k))) /
                        (2 * l);
      const R tol = 8 * ferr / l + 1e-14L * (std::abs(a) + std::abs(b));
      require(std::abs(ub - k) <= rhs + tol, "the bar state ", double(ub),
              " violates the entropy inequality: ", double(std::abs(ub - k)),
              " > ", double(rhs));
      s.count("entropy inequality");
    }
    /* no more dissipative than the Lipschitz constant of the flux */
    require(lam <= lip + derr + (4 * ferr) / std::max(du, h2) + 1e-12L * lip,
            "wave speed ", lam, " above the Lipschitz constant ",
            double(lip));
    /* exchange */
    if (random == 0) {
      const double mal = rs.compute(B, A, 1u, is, -n);
      close(mal, lam,
            double(1e-13L * lam + 8 * ferr / std::max(du, h2) + 2 * derr * 1e-3L),
            "exchanged states");
    }
    if (a == b && !greedy)
      close(lam, double(std::abs(dfn(a))), double(derr),
            "wave speed of a constant state");
  }

  template <int dim>
  void limit(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    typename Limiter<dim, double>::Parameters lp("/L");
    set_prm("");
    PV<dim> pv;
    Limiter<dim, double> lim(hs, lp, pv);
    const double u = value(s, "U");
    const double slack = s.pick({0., 0.01, 1.});
    const double lo = u - slack * s.unit(), hi = u + slack * s.unit();
    const double p = s.pick({0., 1e-3, 1., 100.}) * s.sym(1.) +
                     (s.chance(0.05) ? s.logu(1e-300, 1e-16) : 0.);
    const double t0 = s.chance(0.3) ? s.uniform(0., 0.5) : 0.;
    const double t1 = s.chance(0.4) ? s.uniform(t0, 1.) : 1.;
    s.note("P", p);
    s.note("min", lo);
    s.note("max", hi);
    St<dim> U, P;
    U[0] = u;
    P[0] = p;
    const auto [t, ok] = lim.limit({lo, hi}, U, P, t0, t1);
    s.note("t", t);
    s.nontrivial(p != 0. && (u + p > hi || u + p < lo));
    require(ok, "low-order violation reported for a state in bounds");
    require(t >= t0 && t <= t1, "t = ", t, " outside of [", t0, ", ", t1, "]");
    const R tol = 1e-14L * (std::abs(R(u)) + std::abs(R(lo)) + std::abs(R(hi)));
    const R v = R(u) + R(t) * p;
    if (t > t0)
      require(v >= lo - tol && v <= hi + tol, "limited value ", double(v),
              " outside of [", lo, ", ", hi, "]");
    /* not more limited than necessary */
    if (t < t1 && t > t0) {
      const R want = p > 0 ? (R(hi) - u) / p : p < 0 ? (R(lo) - u) / p : R(1);
      require(R(t) >= std::min(want, R(t1)) - tol / std::abs(p) - 1e-13L,
              "t = ", t, " although ", double(want), " is admissible");
    }
    if (u + t1 * p <= hi && u + t1 * p >= lo)
      require(t == t1, "limited to ", t, " although the update is in bounds");
    /* violations are reported */
    if (s.chance(0.3)) {
      const double gap = s.logu(1e-6, 1.);
      const bool up = s.chance(0.5);
      const double m = std::max(std::abs(u), 1.);
      typename Limiter<dim, double>::Bounds b{
          up ? u - 2 * gap * m : u + gap * m, up ? u - gap * m : u + 2 * gap * m};
      const auto [t2, ok2] = lim.limit(b, U, P, 0., 1.);
      require(!ok2, "state outside of the bounds is not reported");
      require(t2 >= 0. && t2 <= 1., "t outside of [0, 1]");
    }
  }

  template <int dim>
  void bounds(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    typename Limiter<dim, double>::Parameters lp("/L");
    const auto f = flux_choice<dim>(s);
    const double factor = s.pick({0., 1., 0.1, 4.});
    set_prm(f.template prm<dim>() + "subsection L\n" +
            prm_entry("relaxation factor", factor) + "end\n");
    const auto view = hs.template view<dim, double>();
    const unsigned n = s.range(1, 9);
    std::vector<St<dim>> U(n);
    std::vector<T1<dim>> c(n);
    for (unsigned j = 0; j < n; ++j) {
      U[j][0] = j ? near(s, U[0][0], "uj") : value(s, "ui");
      if (j)
        for (int d = 0; d < dim; ++d)
          c[j][d] = s.sym(1.);
      if (j) {
        /* c_ij / d_ij: the bar states are convex combinations */
        R df = 0;
        for (int d = 0; d < dim; ++d)
          df += (f.f(U[j][0], d) - f.f(U[0][0], d)) * c[j][d];
        const R du = std::abs(R(U[j][0]) - U[0][0]);
        if (std::abs(df) > du)
          c[j] *= double(du / std::abs(df)) * s.pick({1., 0.9, 0.1});
      }
    }
    PV<dim> pv;
    fill<dim>(pv, view, U);
    auto run = [&](bool reverse) {
      Limiter<dim, double> lim(hs, lp, pv);
      typename View<dim>::InitialPrecomputedVector ipv;
      const auto fi = view.flux_contribution(pv, ipv, 0u, U[0]);
      lim.reset(0, U[0], fi);
      for (unsigned k = 0; k < n; ++k) {
        const unsigned j = reverse ? n - 1 - k : k;
        unsigned js[1] = {j};
        lim.accumulate(js, U[j], view.flux_contribution(pv, ipv, js, U[j]),
                       c[j], St<dim>());
      }
      return lim;
    };
    const double hd = s.logu(1e-6, 1.);
    const auto b = run(false).bounds(hd);
    s.nontrivial(n > 1);
    R lo = 1e300L, hi = -1e300L, sum = 0, mag = 0;
    for (unsigned j = 0; j < n; ++j) {
      R bar = (R(U[0][0]) + U[j][0]) / 2;
      mag = std::max(mag, std::abs(R(U[j][0])));
      for (int d = 0; d < dim; ++d) {
        bar -= (f.f(U[j][0], d) - f.f(U[0][0], d)) * c[j][d] / 2;
        mag = std::max(mag, (f.mag(U[j][0], d) + f.mag(U[0][0], d)) *
                                std::abs(R(c[j][d])));
      }
      bar = std::clamp(bar, std::min(R(U[0][0]), R(U[j][0])),
                       std::max(R(U[0][0]), R(U[j][0])));
      lo = std::min(lo, bar);
      hi = std::max(hi, bar);
      sum += R(U[0][0]) + U[j][0];
    }
    const R tol = 1e-14L * (mag + std::abs(lo) + std::abs(hi));
    require(b[0] <= lo + tol && b[1] >= hi - tol, "bounds ", show(b),
            " do not contain the bar states [", double(lo), ", ", double(hi),
            "]");
    const R r = factor * std::pow(R(hd), R(1.5L) / dim);
    const R w = 2 * std::abs(sum) / n;
    const R lo2 = lo - std::min(r * std::abs(lo), w),
            hi2 = hi + std::min(r * std::abs(hi), w);
    require(b[0] >= lo2 - tol * 4 - 1e-14L * w &&
                b[1] <= hi2 + tol * 4 + 1e-14L * w,
            "bounds ", show(b), " wider than the relaxed bounds [",
            double(lo2), ", ", double(hi2), "]");
    const auto b2 = run(true).bounds(hd);
    require(std::abs(b[0] - b2[0]) <= 2e-14 * double(mag + w) &&
                std::abs(b[1] - b2[1]) <= 2e-14 * double(mag + w),
            "bounds depend on the order of the neighbours");
    typename Limiter<dim, double>::Bounds x{s.sym(1.), s.sym(1.)},
        y{s.sym(1.), s.sym(1.)};
    const auto m = Limiter<dim, double>::combine_bounds(x, y);
    require(m[0] == std::min(x[0], y[0]) && m[1] == std::max(x[1], y[1]),
            "combined bounds are not the hull");
  }

  template <int dim>
  void identities(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    const auto f = flux_choice<dim>(s);
    set_prm(f.template prm<dim>());
    const auto view = hs.template view<dim, double>();
    const double u = value(s, "u"), k = near(s, u, "k");
    s.nontrivial(u != 0.);
    St<dim> U;
    U[0] = u;
    require(view.state(U) == u, "state");
    require(view.square_entropy(u) == 0.5 * u * u &&
                view.square_entropy_derivative(u) == u,
            "square entropy");
    close(view.kruzkov_entropy(k, u), std::abs(u - k), 0., "Kruzkov entropy");
    require(view.kruzkov_entropy_derivative(k, u) == (u >= k ? 1. : -1.),
            "Kruzkov entropy derivative");
    const auto v = view.flux_function(u);
    const auto g = view.flux_gradient_function(u);
    for (int d = 0; d < dim; ++d) {
      T1<dim> n;
      n[d] = 1.;
      close(v[d], double(f.f(u, d)), 4e-15 * double(f.mag(u, d)), "flux ", d);
      close(g[d], double(f.df(u, d)), double(derror<dim>(f, u, n)),
            "derivative of the flux ", d);
    }
    require(view.is_admissible(U), "every state is admissible");
    require(view.to_primitive_state(U) == U && view.from_primitive_state(U) == U,
            "primitive state");
    require(view.flux() == f.name, "configured flux");
    /* second parse: the last configuration counts */
    if (s.chance(0.3)) {
      const auto f2 = flux_choice<dim>(s);
      set_prm(f2.template prm<dim>());
      const auto v2 = hs.template view<dim, double>().flux_function(u);
      for (int d = 0; d < dim; ++d)
        close(v2[d], double(f2.f(u, d)), 4e-15 * double(f2.mag(u, d)),
              "flux after reconfiguration ", d);
    }
  }

  template <int dim>
  void boundary(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    set_prm("");
    const auto view = hs.template view<dim, double>();
    St<dim> U, D;
    U[0] = value(s, "U");
    D[0] = value(s, "D");
    s.nontrivial(U[0] != D[0]);
    const auto n = unit_vector<dim>(s);
    auto get = [&]() { return D; };
    require(view.apply_boundary_conditions(Boundary::do_nothing, U, n, get) == U,
            "do nothing changes the state");
    require(view.apply_boundary_conditions(Boundary::dirichlet, U, n, get) == D,
            "Dirichlet does not impose the data");
    for (auto id : {Boundary::slip, Boundary::no_slip, Boundary::dynamic}) {
      bool thrown = false;
      try {
        (void)view.apply_boundary_conditions(id, U, n, get);
      } catch (const std::exception &) {
        thrown = true;
      }
      require(thrown, "unsupported boundary condition accepted");
    }
  }

  template <int dim>
  void flux(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    const auto f = flux_choice<dim>(s);
    set_prm(f.template prm<dim>());
    const auto view = hs.template view<dim, double>();
    St<dim> A, B;
    A[0] = value(s, "ui");
    B[0] = near(s, A[0], "uj");
    s.nontrivial(A[0] != B[0]);
    PV<dim> pv;
    fill<dim>(pv, view, {A, B});
    typename View<dim>::InitialPrecomputedVector ipv;
    unsigned js[1] = {1};
    const auto fi = view.flux_contribution(pv, ipv, 0u, A);
    const auto fj = view.flux_contribution(pv, ipv, js, B);
    T1<dim> c;
    R want = 0, mag = 0;
    for (int d = 0; d < dim; ++d) {
      c[d] = s.sym(1.);
      want -= (f.f(A[0], d) + f.f(B[0], d)) * c[d];
      mag += (f.mag(A[0], d) + f.mag(B[0], d)) * std::abs(R(c[d]));
      close(fi[0][d], double(f.f(A[0], d)), 4e-15 * double(f.mag(A[0], d)),
            "flux of the first state");
      close(fj[0][d], double(f.f(B[0], d)), 4e-15 * double(f.mag(B[0], d)),
            "flux of the second state");
    }
    const double q = view.flux_divergence(fi, fj, c)[0];
    close(q, double(want), 1e-14 * double(mag), "flux divergence");
    const double q2 = view.flux_divergence(fj, fi, -c)[0];
    close(q + q2, 0., 1e-15 * double(mag),
          "the flux is not antisymmetric");
  }

  template <int dim>
  void indicator(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    typename Indicator<dim, double>::Parameters ip("/I");
    const auto f = flux_choice<dim>(s);
    const double factor = s.pick({1., 0.5, 10., 0.});
    set_prm(f.template prm<dim>() + "subsection I\n" +
            prm_entry("evc factor", factor) + "end\n");
    const auto view = hs.template view<dim, double>();
    const unsigned n = s.range(1, 8);
    std::vector<St<dim>> U(n);
    std::vector<T1<dim>> c(n);
    const bool constant = s.chance(0.2);
    T1<dim> sum;
    for (unsigned j = 0; j < n; ++j) {
      U[j][0] = j == 0 ? value(s, "ui")
                       : constant ? U[0][0] : near(s, U[0][0], "uj");
      if (j) {
        for (int d = 0; d < dim; ++d)
          c[j][d] = s.sym(1.);
        sum += c[j];
      }
    }
    c[0] = -sum;
    PV<dim> pv;
    fill<dim>(pv, view, U);
    Indicator<dim, double> ind(hs, ip, pv);
    ind.reset(0, U[0]);
    R left = 0, right = 0, abs = 0, umax = 0;
    for (unsigned j = 0; j < n; ++j) {
      unsigned js[1] = {j};
      ind.accumulate(js, U[j], c[j]);
      const R sg = U[j][0] >= U[0][0] ? 1 : -1;
      for (int d = 0; d < dim; ++d) {
        left += sg * f.f(U[j][0], d) * c[j][d];
        right += sg * f.f(U[0][0], d) * c[j][d];
        abs += (f.mag(U[j][0], d) + f.mag(U[0][0], d)) * std::abs(R(c[j][d]));
      }
      umax = std::max(umax, std::abs(R(U[j][0])));
    }
    const double hd = s.logu(1e-4, 1.);
    const double alpha = ind.alpha(hd);
    s.note("alpha", alpha);
    require(alpha >= 0. && alpha <= 1., "indicator ", alpha,
            " outside of [0, 1]");
    s.nontrivial(n > 1 && !constant);
    const R den = std::abs(left) + std::abs(right) +
                  std::max(hd * umax, 100 * R(2.2250738585072014e-308));
    const R tol = 1e-14L * abs / den * (1 + factor);
    pbt::discard_unless(tol < 1e-2L);
    if (constant || n == 1)
      close(alpha, 0., double(tol), "indicator of a constant stencil");
    close(alpha, double(std::min<R>(1, factor * std::abs(left - right) / den)),
          double(tol) + 1e-13,
          "indicator is not the normalised entropy commutator");
    s.label(alpha == 1. ? "clipped" : alpha > 0.1 ? "large" : "small");
  }
} // namespace

PBT("P07.sc1", 30000, 1000000, wavespeed<1>);
PBT("P07.sc2", 30000, 1000000, wavespeed<2>);
PBT("P07.sc3", 30000, 1000000, wavespeed<3>);
PBT("P08.sc.limit1", 40000, 1000000, limit<1>);
PBT("P08.sc.bounds1", 8000, 200000, bounds<1>);
PBT("P08.sc.bounds2", 8000, 200000, bounds<2>);
PBT("P08.sc.bounds3", 8000, 200000, bounds<3>);
PBT("P10.sc1", 20000, 400000, identities<1>);
PBT("P10.sc2", 20000, 400000, identities<2>);
PBT("P10.sc3", 20000, 400000, identities<3>);
PBT("P11.sc1", 1000, 10000, boundary<1>);
PBT("P11.sc2", 1000, 10000, boundary<2>);
PBT("P12.sc1", 20000, 400000, flux<1>);
PBT("P12.sc2", 20000, 400000, flux<2>);
PBT("P12.sc3", 20000, 400000, flux<3>);
PBT("P28.sc1", 10000, 200000, indicator<1>);
PBT("P28.sc2", 10000, 200000, indicator<2>);
PBT("P28.sc3", 10000, 200000, indicator<3>);

UNIT_MAIN
