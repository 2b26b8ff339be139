#define ShallowWater ShallowWaterVerif
#include "unit.h"

#include <hyperbolic_system.h>
#include <indicator.h>
#include <limiter.template.h>
#include <multicomponent_vector.h>
#include <riemann_solver.template.h>

using namespace ryujin;
using namespace ryujin::ShallowWater;

namespace
{
  template <int dim>
  using View = HyperbolicSystemView<dim, double>;
  template <int dim>
  using St = typename View<dim>::state_type;
  template <int dim>
  using PV = typename View<dim>::PrecomputedVector;
  template <int dim>
  using T1 = dealii::Tensor<1, dim, double>;

  struct Setup {
    double grav = 9.81, href = 1., small = 1e2, large = 1e4, manning = 0.,
           dry = 0.2;
    std::string prm() const
    {
      return "subsection E\n" + prm_entry("gravity", grav) +
             prm_entry("reference water depth", href) +
             prm_entry("dry state relaxation small", small) +
             prm_entry("dry state relaxation large", large) +
             prm_entry("dry state relaxation factor", dry) +
             prm_entry("manning friction coefficient", manning) + "end\n";
    }
    double cut_small() const { return href * small * 0x1p-52; }
    double cut_large() const { return href * large * 0x1p-52; }
  };

  Setup setup(Src &s)
  {
    Setup e;
    e.grav = s.pick({9.81, 1., 9.81});
    e.href = s.pick({1., 1., 0.01, 50.});
    if (s.chance(0.3))
      e.small = s.pick({10., 1e3});
    if (s.chance(0.3))
      e.large = s.pick({1e6, 1e5});
    if (s.chance(0.5))
      e.manning = s.uniform(0., 0.2);
    if (s.chance(0.3))
      e.dry = s.uniform(0., 1.);
    s.note("setup", e.prm().substr(13));
    return e;
  }

  /* water depth and velocity */
  template <int dim>
  St<dim> state(Src &s, const Setup &e, const char *tag, bool wet = false)
  {
    double h;
    switch (s.range(0, wet ? 1 : 3)) {
    case 0:
      h = e.href * s.uniform(0.2, 2.);
      break;
    case 1:
      h = e.href * s.logu(1e-4, 1e2);
      break;
    case 2:
      h = e.href * s.logu(1e-14, 1e-4);
      s.label("thin");
      break;
    default:
      h = 0.;
      s.label("dry");
    }
    St<dim> U;
    U[0] = h;
    const double v = s.pick({0., 0.3, 1., 5.}) * std::sqrt(e.grav * h);
    for (int d = 0; d < dim; ++d)
      U[1 + d] = h * v * s.sym(1.);
    s.note(tag, show(U));
    return U;
  }

  template <int dim>
  void fill(PV<dim> &pv, const HyperbolicSystem &hs,
            const std::vector<St<dim>> &U)
  {
    pv.reinit_with_scalar_partitioner(
        std::make_shared<const dealii::Utilities::MPI::Partitioner>(
            dealii::IndexSet(dealii::complete_index_set(U.size())),
            MPI_COMM_SELF));
    const auto view = hs.template view<dim, double>();
    for (unsigned i = 0; i < U.size(); ++i)
      pv.template write_tensor<double>(
          std::array<double, 2>{{view.mathematical_entropy(U[i]),
                                 std::pow(view.water_depth_sharp(U[i]), 4. / 3.)}},
          i);
  }

  /* exact solution of the flat bottom Riemann problem */
  R curve(R h, R hz, R g)
  {
    if (h <= hz)
      return 2 * (std::sqrt(g * h) - std::sqrt(g * hz));
    return (h - hz) * std::sqrt(g / 2 * (h + hz) / (h * hz));
  }

  R signal(R hs, R h, R g)
  {
    const R f = std::max<R>(0, (hs - h) / h);
    return std::sqrt(g * h) * std::sqrt((1 + f / 2) * (1 + f));
  }

  R exact_h(R hl, R ul, R hr, R ur, R g)
  {
    auto phi = [&](R h) { return curve(h, hl, g) + curve(h, hr, g) + ur - ul; };
    if (phi(0) >= 0)
      return 0;
    R lo = 0, hi = std::max(hl, hr);
    while (phi(hi) < 0) {
      lo = hi;
      hi *= 2;
    }
    for (int i = 0; i < 90; ++i) {
      const R m = (lo + hi) / 2;
      (phi(m) < 0 ? lo : hi) = m;
    }
    return lo;
  }

  template <int dim>
  void wavespeed(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    typename RiemannSolver<dim, double>::Parameters rp("/R");
    const auto e = setup(s);
    set_prm(e.prm());
    PV<dim> dummy;
    RiemannSolver<dim, double> rs(hs, rp, dummy);
    const auto Ul = state<dim>(s, e, "left");
    auto Ur = state<dim>(s, e, "right");
    const long kind = s.range(0, 4);
    if (kind == 0)
      Ur = Ul;
    else if (kind == 1)
      for (int k = 0; k <= dim; ++k)
        Ur[k] = Ul[k] * (1. + 1e-3 * s.sym(1.));
    else if (kind == 2) {
      const double a = std::sqrt(e.grav * Ul[0]) + std::sqrt(e.grav * Ur[0]);
      for (int d = 0; d < dim; ++d)
        Ur[1 + d] += Ur[0] * a * 6. * s.sym(1.);
    }
    const auto n = unit_vector<dim>(s);
    auto prim = [&](const St<dim> &U, R &h, R &u) {
      h = std::max<R>(U[0], e.cut_small());
      u = 0;
      for (int d = 0; d < dim; ++d)
        u += R(U[1 + d]) * n[d];
      u /= h;
    };
    R hl, ul, hr, ur;
    prim(Ul, hl, ul);
    prim(Ur, hr, ur);
    const R g = e.grav, h = exact_h(hl, ul, hr, ur, g);
    const R ex = std::max<R>({0, signal(h, hl, g) - ul, signal(h, hr, g) + ur});
    unsigned js[1] = {1};
    const double est = rs.compute(Ul, Ur, 0, js, n);
    const double scale =
        double(std::abs(ul) + std::abs(ur) + signal(h, hl, g) + signal(h, hr, g));
    s.label(h > hl && h > hr   ? "two shocks"
            : h < hl && h < hr ? (h == 0 ? "dry middle" : "two rarefactions")
                               : "shock and rarefaction");
    s.nontrivial(kind != 0);
    require(std::isfinite(est), "estimate is not finite");
    require(est >= double(ex) - 1e-12 * scale, "wave speed estimate ", est,
            " is below the exact maximal wave speed ", double(ex), " (h* ",
            double(h), ")");
    close(rs.compute(Ur, Ul, 0, js, -n), est, 1e-12 * scale,
          "estimate is not symmetric");
    if (kind == 0)
      close(est, double(std::abs(ul) + std::sqrt(g * hl)), 1e-12 * scale,
            "equal states");
  }

  /* velocity as the limiter sees it */
  template <int dim>
  R vel2(const St<dim> &U, const Setup &e)
  {
    R q = 0;
    for (int d = 0; d < dim; ++d)
      q += R(U[1 + d]) * U[1 + d];
    const R m = std::max<R>(U[0], e.cut_large());
    const R i = 2 * std::max<R>(0, U[0]) / (R(U[0]) * U[0] + m * m);
    return q * i * i;
  }

  template <int dim>
  R kin(const St<dim> &U, const Setup &e)
  {
    R q = 0;
    for (int d = 0; d < dim; ++d)
      q += R(U[1 + d]) * U[1 + d];
    const R m = std::max<R>(U[0], e.cut_small());
    return q * U[0] / (2 * m * m);
  }

  template <int dim>
  void limit(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    typename Limiter<dim, double>::Parameters lp("/L");
    const auto e = setup(s);
    const long mode = s.range(0, 3);
    const bool use_k = mode & 1, use_v = mode & 2;
    set_prm(e.prm() + "subsection L\n" +
            prm_entry("limit on kinetic energy", use_k ? "true" : "false") +
            prm_entry("limit on square velocity", use_v ? "true" : "false") +
            "end\n");
    s.label(use_k ? (use_v ? "both" : "kinetic")
                  : (use_v ? "velocity" : "depth only"));
    PV<dim> dummy;
    Limiter<dim, double> lim(hs, lp, dummy);
    const auto U = state<dim>(s, e, "U");
    const auto V = state<dim>(s, e, "V");
    St<dim> P;
    const double mag = s.pick({0.1, 1., 10., 1e-3});
    switch (s.range(0, 2)) {
    case 0:
      for (int k = 0; k <= dim; ++k)
        P[k] = mag * (V[k] - U[k]);
      break;
    case 1:
      P[0] = mag * U[0] * s.sym(1.);
      for (int d = 0; d < dim; ++d)
        P[1 + d] = mag * (U[0] * std::sqrt(e.grav * U[0])) * s.sym(1.);
      break;
    default:
      P[s.range(0, dim)] = mag * U[0] * s.sym(1.);
    }
    s.note("P", show(P));
    const double slack = s.pick({0.01, 0.5, 1., 0.});
    const double hmin = U[0] * (1. - slack * s.unit());
    const double hmax = U[0] * (1. + slack * s.unit());
    const double hsmall = s.chance(0.5) ? 0. : U[0] * s.pick({0.5, 0.9, 1.5});
    const double kmax = double(kin<dim>(U, e)) * (1. + slack * s.unit());
    const double vmax = double(vel2<dim>(U, e)) * (1. + slack * s.unit());
    const double t_min = 0.;
    const double t_max = s.chance(0.4) ? s.uniform(0., 1.) : 1.;
    typename Limiter<dim, double>::Bounds b{{hmin, hmax, hsmall, kmax, vmax}};
    s.note("bounds", show(b));
    const auto [t, ok] = lim.limit(b, U, P, t_min, t_max);
    s.note("t", t);
    require(ok, "limiter reports a low-order violation for a state in bounds");
    require(t >= t_min && t <= t_max, "t = ", t, " not in [", t_min, ", ",
            t_max, "]");

    /* tol > 0 relaxes, tol < 0 tightens the bounds */
    auto inside = [&](R tt, R tol, std::string &why) {
      const R h = R(U[0]) + tt * P[0];
      const R habs = std::abs(R(U[0])) + std::abs(tt * P[0]);
      R q = 0, qs = 0;
      for (int d = 0; d < dim; ++d) {
        const R m = R(U[1 + d]) + tt * P[1 + d];
        const R ma = std::abs(R(U[1 + d])) + std::abs(tt * P[1 + d]);
        q += m * m;
        qs += ma * ma;
      }
      if (h < std::max(hmin, tol < 0 ? hsmall : 0.) - tol * habs) {
        why = "depth below its lower bound";
        return false;
      }
      if (h > hmax + tol * habs) {
        why = "depth above its upper bound";
        return false;
      }
      if (use_k && (q / 2 > h * kmax + tol * (qs + habs * kmax) ||
                    (tol < 0 && !(q / 2 < h * kmax)))) {
        why = "kinetic energy above its upper bound";
        return false;
      }
      if (use_v && (q > h * h * vmax + tol * (qs + habs * habs * vmax) ||
                    (tol < 0 && !(q < h * h * vmax)))) {
        why = "square velocity above its upper bound";
        return false;
      }
      return true;
    };
    const R eps = 1e-10L;
    std::string w;
    if (U[0] >= 100. * e.cut_large() || !use_v) {
      /* t is only ever resolved up to the tolerance of 1e-10 */
      if (t > 0 && !inside(t, eps, w) &&
          !inside(std::max<R>(0, R(t) - 1e-10L), eps, w))
        fail("limited state leaves the bounds: ", w, " at t = ", t);
      /* a floor on the depth: nothing is drained below it */
      const double ht = U[0] + t * P[0];
      if (t > 0 && P[0] < 0. && hsmall > 0.)
        require(ht >= hsmall * (1. - 1e-10),
                "depth drained below the dry state threshold");
    }
    std::string w2;
    const bool full = inside(t_max, -1e-9L, w2);
    s.label(full ? "no limiting" : "limiting: " + w2);
    s.nontrivial(!full && U[0] > 0.);
    /* the bounds are quadratic: the line search is exact */
    const double psi = std::min(use_k ? U[0] * kmax : 1.,
                                use_v ? U[0] * U[0] * vmax : 1.);
    if (slack > 0. && U[0] > 1e-3 * e.href && psi > 1e-8) {
      if (full)
        close(t, t_max, 1e-12, "update stays strictly inside the bounds, but "
                               "is limited");
      const R d = 1e-6L * (1 + t);
      std::string w3;
      if (!full && t + d < t_max && inside(t + d, -1e-9L, w3) &&
          inside(t + d / 2, -1e-9L, w3) && hsmall <= U[0])
        fail("limiter returns t = ", t, " but t = ", double(t + d),
             " still satisfies all bounds strictly");
      s.count("maximality checked");
    }
  }

  template <int dim>
  void bounds(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    typename Limiter<dim, double>::Parameters lp("/L");
    const auto e = setup(s);
    const double factor = s.pick({1., 0., 0.5, 4.});
    set_prm(e.prm() + "subsection L\n" + prm_entry("relaxation factor", factor) +
            "end\n");
    const auto view = hs.template view<dim, double>();
    const unsigned n = s.range(1, 8);
    std::vector<St<dim>> U;
    std::vector<double> Z;
    for (unsigned i = 0; i < n; ++i) {
      U.push_back(state<dim>(s, e, i ? "Uj" : "Ui", true));
      Z.push_back(s.chance(0.5) ? 0. : e.href * s.sym(0.5));
    }
    PV<dim> pv;
    fill<dim>(pv, hs, U);
    typename RiemannSolver<dim, double>::Parameters rp("/R");
    RiemannSolver<dim, double> rs(hs, rp, pv);
    struct Item {
      St<dim> ij, ji, shift;
      T1<dim> c;
    };
    std::vector<Item> it(n);
    R hmin = 1e300L, hmax = 0, kmax = 0, vmax = 0, hn = 0, kn = 0, vn = 0;
    unsigned js[1];
    for (unsigned j = 0; j < n; ++j) {
      js[0] = j;
      auto st = view.equilibrated_states({U[0], Z[0]}, {U[j], Z[j]});
      it[j].ij = st[0];
      it[j].ji = st[1];
      const auto nn = unit_vector<dim>(s);
      const double l = rs.compute(U[0], U[j], 0, js, nn);
      it[j].c = nn / l;
      const double norm = s.logu(1e-3, 1.);
      const auto B = view.affine_shift({U[0], Z[0]}, {U[j], Z[j]}, norm * nn,
                                       norm * l);
      it[j].shift = B * (1. / (norm * l) * s.unit());
      /* bar state */
      auto fl = [&](const St<dim> &X, int k, int d) {
        const R h = std::max<R>(X[0], e.cut_small());
        if (k == 0)
          return R(X[1 + d]) / h * X[0];
        return R(X[1 + d]) * X[k] / h +
               (k - 1 == d ? R(e.grav) / 2 * X[0] * X[0] : R(0));
      };
      St<dim> bar;
      for (int k = 0; k <= dim; ++k) {
        R x = R(it[j].ij[k]) + it[j].ji[k];
        for (int d = 0; d < dim; ++d)
          x += (fl(it[j].ij, k, d) - fl(it[j].ji, k, d)) * it[j].c[d];
        bar[k] = double(x / 2 + it[j].shift[k]);
      }
      hmin = std::min<R>(hmin, bar[0]);
      hmax = std::max<R>(hmax, bar[0]);
      kmax = std::max(kmax, kin<dim>(bar, e));
      vmax = std::max(vmax, vel2<dim>(bar, e));
      hn += R(U[0][0]) + U[j][0];
      kn += kin<dim>(U[0], e) + kin<dim>(U[j], e);
      vn += vel2<dim>(U[j], e) - vel2<dim>(U[0], e);
    }
    /* velocities of tiny bar states are ill conditioned */
    R big = 0;
    for (auto &x : U)
      big = std::max<R>(big, x[0]);
    const bool conditioned = hmin > 1e-3L * big;
    const double hd = s.chance(0.2) ? 1. : s.logu(1e-6, 1.);
    auto run = [&](bool rev) {
      Limiter<dim, double> lim(hs, lp, pv);
      lim.reset(0, U[0], {U[0], Z[0]});
      for (unsigned k = 0; k < n; ++k) {
        const auto &x = it[rev ? n - 1 - k : k];
        lim.accumulate(U[rev ? n - 1 - k : k], x.ij, x.ji, x.c, x.shift);
      }
      return lim.bounds(hd);
    };
    const auto b = run(false), b2 = run(true);
    s.note("bounds", show(b));
    s.nontrivial(n > 1);
    const R tol = 1e-11L;
    const R ri = factor * std::pow(R(hd), R(1.5L) / dim);
    require(b[0] <= hmin + tol * hmax, "h_min above the smallest bar depth");
    require(b[1] >= hmax * (1 - tol), "h_max below the largest bar depth");
    close(b[0], double(std::max((1 - ri) * hmin, hmin - 2 * hn / n)),
          double(tol * (hmax + hn)), "relaxed h_min");
    close(b[1], double(std::min((1 + ri) * hmax, hmax + 2 * hn / n)),
          double(tol * (hmax + hn)), "relaxed h_max");
    if (conditioned) {
      s.count("conditioned");
      require(b[3] >= kmax * (1 - 1e-8L), "kinetic energy bound below the bar "
                                          "states");
      require(b[4] >= vmax * (1 - 1e-8L), "velocity bound below the bar states");
      close(b[3], double(std::min((1 + ri) * kmax, kmax + 2 * kn / n)),
            double(1e-8L * (kmax + kn)), "relaxed kinetic energy bound");
      close(b[4],
            double(std::min((1 + ri) * vmax, vmax + 2 * std::abs(vn) / n)),
            double(1e-8L * (vmax + std::abs(vn)) + 1e-10L * (vel2<dim>(U[0], e))),
            "relaxed velocity bound");
    }
    close(b[2], e.href * e.dry * std::pow(hd, 1. / dim), 1e-12 * e.href,
          "dry state threshold");
    for (int k = 0; k < 5; ++k)
      close(b[k], b2[k],
            1e-12 * std::abs(b[k]) + (k == 4 ? 1e-11 * double(vmax) : 0.) +
                1e-12 * double(k == 0 ? hmax + hn : R(0)),
            "bounds depend on the order");

    auto rb = [&]() {
      const double x = s.logu(1e-3, 1e3), y = s.logu(1e-3, 1e3);
      return typename Limiter<dim, double>::Bounds{
          {std::min(x, y), std::max(x, y), s.logu(1e-3, 1.), s.logu(1e-3, 1e3),
           s.logu(1e-3, 1e3)}};
    };
    const auto l = rb(), r = rb();
    const auto m = Limiter<dim, double>::combine_bounds(l, r);
    require(m[0] == std::min(l[0], r[0]) && m[1] == std::max(l[1], r[1]) &&
                m[3] == std::max(l[3], r[3]) && m[4] == std::max(l[4], r[4]) &&
                m[2] >= std::min(l[2], r[2]) && m[2] <= std::max(l[2], r[2]),
            "combined bounds ", show(m), " are not the hull of ", show(l),
            " and ", show(r));
  }

  template <int dim>
  void identities(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    const auto e = setup(s);
    set_prm(e.prm());
    const auto view = hs.template view<dim, double>();
    const auto U = state<dim>(s, e, "U");
    const bool wet = U[0] > 10. * e.cut_large();
    s.nontrivial(wet);
    const R h = U[0], g = e.grav;
    R q = 0;
    for (int d = 0; d < dim; ++d)
      q += R(U[1 + d]) * U[1 + d];
    const R hs_ = std::max<R>(h, e.cut_small());
    auto rel = [&](double a, R b, const char *w) {
      close(a, double(b), 1e-14 * double(std::abs(b)) + 1e-300, w);
    };
    rel(view.water_depth(U), h, "depth");
    rel(view.water_depth_sharp(U), hs_, "regularised depth");
    rel(view.inverse_water_depth_sharp(U), 1 / hs_, "inverse depth");
    rel(view.pressure(U), g * h * h / 2, "pressure");
    rel(view.speed_of_sound(U), std::sqrt(g * h), "speed of sound");
    rel(view.kinetic_energy(U), q * h / (2 * hs_ * hs_), "kinetic energy");
    rel(view.mathematical_entropy(U),
        g * h * h / 2 + q * h / (2 * hs_ * hs_), "entropy");
    const double im = view.inverse_water_depth_mollified(U);
    require(im >= 0. && im * U[0] <= 1. + 1e-14 && std::isfinite(im),
            "mollified inverse depth overshoots: ", im);
    if (U[0] >= e.cut_large())
      rel(im, 1 / h, "mollified inverse depth");
    require(view.filter_dry_water_depth(U[0]) ==
                (U[0] < e.cut_large() ? 0. : U[0]),
            "dry filter");
    require(view.is_admissible(U), "admissible state reported inadmissible");
    {
      auto V = U;
      V[0] = -e.href * s.logu(1e-6, 1.);
      require(!view.is_admissible(V), "negative depth reported admissible");
      require(view.inverse_water_depth_mollified(V) == 0.,
              "negative depth has an inverse");
    }
    if (wet) {
      std::array<R, dim + 1> x, sc;
      for (int k = 0; k <= dim; ++k)
        x[k] = U[k];
      const R a = std::sqrt(g * h);
      sc[0] = h;
      for (int d = 0; d < dim; ++d)
        sc[1 + d] = h * a;
      auto eta = [&](const std::array<R, dim + 1> &y) {
        R k = 0;
        for (int d = 0; d < dim; ++d)
          k += y[1 + d] * y[1 + d];
        return g * y[0] * y[0] / 2 + k / (2 * y[0]);
      };
      const auto grad = gradient<dim + 1>(eta, x, sc);
      const auto got = view.mathematical_entropy_derivative(U);
      for (int k = 0; k <= dim; ++k)
        close(got[k] * double(sc[k]), double(grad[k] * sc[k]),
              1e-8 * double(eta(x)), "entropy derivative ", k);
      const auto W = view.to_primitive_state(U);
      const auto B = view.from_primitive_state(W);
      for (int k = 0; k <= dim; ++k) {
        close(W[k], k ? double(R(U[k]) / h) : U[0],
              1e-15 * 4 * std::abs(U[k] / (k ? U[0] : 1.)), "primitive ", k);
        close(B[k], U[k], 1e-15 * 8 * std::abs(U[k]), "primitive round trip ",
              k);
      }
    }
    /* Galilei transform and embedding */
    const auto Q = orthogonal<dim>(s);
    const auto QU = view.apply_galilei_transform(
        U, [&](const T1<dim> &m) { return Q * m; });
    require(QU[0] == U[0], "rotation changes the depth");
    for (int d = 0; d < dim; ++d) {
      R w = 0;
      for (int k = 0; k < dim; ++k)
        w += R(Q[d][k]) * U[1 + k];
      close(QU[1 + d], double(w), 1e-14 * view.momentum(U).norm(), "rotation");
    }
    if constexpr (dim > 1) {
      dealii::Tensor<1, dim, double> X;
      for (int k = 0; k < dim; ++k)
        X[k] = U[k];
      const auto E = view.expand_state(X);
      for (int k = 0; k < dim; ++k)
        require(E[k] == X[k], "expand_state ", k);
      require(E[dim] == 0., "expand_state adds momentum");
      const auto I = view.from_initial_state(X);
      for (int k = 0; k < dim; ++k)
        close(I[k], k ? X[k] * X[0] : X[0], 1e-15 * 4 * std::abs(I[k]),
              "from_initial_state ", k);
    }
  }

  template <int dim>
  void boundary(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    const auto e = setup(s);
    set_prm(e.prm());
    const auto view = hs.template view<dim, double>();
    const auto U = state<dim>(s, e, "U");
    auto D = state<dim>(s, e, "data", true);
    if (s.chance(0.5) && U[0] > 0.)
      for (int k = 0; k <= dim; ++k)
        D[k] = U[k] * (1. + 0.3 * s.sym(1.));
    const auto n = unit_vector<dim>(s);
    unsigned called = 0;
    auto data = [&]() {
      ++called;
      return D;
    };
    auto apply = [&](dealii::types::boundary_id id) {
      return view.apply_boundary_conditions(id, U, n, data);
    };
    const double mm = view.momentum(U).norm();
    for (auto id : {Boundary::do_nothing, Boundary::periodic})
      require(apply(id) == U, "do nothing or periodic boundary changes the state");
    require(called == 0, "data requested without need");
    require(apply(Boundary::dirichlet) == D, "dirichlet ignores the data");
    {
      const auto r = apply(Boundary::dirichlet_momentum);
      require(r[0] == U[0], "dirichlet momentum changes the depth");
      for (int d = 0; d < dim; ++d)
        require(r[1 + d] == D[1 + d], "dirichlet momentum ignores the data");
    }
    {
      const auto r = apply(Boundary::slip);
      const auto m = view.momentum(r);
      require(r[0] == U[0], "slip changes the depth");
      close(m * n, 0., 1e-15 * 8 * mm, "slip leaves normal momentum");
      const auto d = view.momentum(U) - m;
      close((d - (d * n) * n).norm(), 0., 1e-14 * mm,
            "slip changes tangential momentum");
    }
    {
      const auto r = apply(Boundary::no_slip);
      require(r[0] == U[0] && view.momentum(r).norm() == 0., "no slip");
    }
    if (U[0] < 10. * e.cut_large()) {
      const auto r = apply(Boundary::dynamic);
      for (int k = 0; k <= dim; ++k)
        require(std::isfinite(r[k]), "dynamic boundary of a dry state");
      require(r[0] >= 0., "dynamic boundary gives negative depth");
      return;
    }
    const R g = e.grav;
    auto dec = [&](const St<dim> &V, R &vn, R &a, T1<dim> &vt) {
      vn = 0;
      for (int d = 0; d < dim; ++d)
        vn += R(V[1 + d]) * n[d];
      vn /= V[0];
      a = std::sqrt(g * V[0]);
      for (int d = 0; d < dim; ++d)
        vt[d] = double(R(V[1 + d]) / V[0] - vn * n[d]);
    };
    R vi, ai, vb, ab;
    T1<dim> ti, tb;
    dec(U, vi, ai, ti);
    dec(D, vb, ab, tb);
    for (R c : {R(0), ai, -ai})
      pbt::discard_unless(std::abs(vi - c) > 1e-9L * ai || (c == 0 && mm == 0.));
    St<dim> want;
    std::string regime;
    auto build = [&](const T1<dim> &vt) {
      const R R1 = vb - 2 * ab, R2 = vi + 2 * ai;
      const R vn = (R1 + R2) / 2, h = (R2 - R1) * (R2 - R1) / 16 / g;
      St<dim> V;
      V[0] = double(h);
      for (int d = 0; d < dim; ++d)
        V[1 + d] = double(h * (vt[d] + vn * n[d]));
      return V;
    };
    if (vi < -ai) {
      regime = "supersonic inflow";
      want = D;
    } else if (vi > ai) {
      regime = "supersonic outflow";
      want = U;
    } else if (vi > 0) {
      regime = "subsonic outflow";
      want = build(ti);
    } else {
      regime = "subsonic inflow";
      want = build(tb);
    }
    s.label(regime);
    s.nontrivial();
    const auto r = apply(Boundary::dynamic);
    const R c = std::abs(vi) + std::abs(vb) + ai + ab + ti.norm() + tb.norm();
    const R hh = c * c / g;
    for (int k = 0; k <= dim; ++k)
      close(r[k], want[k], double(1e-13L * (k ? hh * c : hh)),
            "dynamic boundary, ", regime, ", component ", k);
    const auto same = view.apply_boundary_conditions(Boundary::dynamic, U, n,
                                                     [&]() { return U; });
    const R c2 = 2 * (std::abs(vi) + ai + ti.norm());
    for (int k = 0; k <= dim; ++k)
      close(same[k], U[k], double(1e-13L * c2 * c2 / g * (k ? c2 : 1)),
            "dynamic boundary with identical data, component ", k);
  }

  template <int dim>
  void flux(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    const auto e = setup(s);
    set_prm(e.prm());
    const auto view = hs.template view<dim, double>();
    const auto U = state<dim>(s, e, "U", true), V = state<dim>(s, e, "V", true);
    s.nontrivial();
    const R g = e.grav;
    auto ref = [&](const St<dim> &X, int k, int d, bool p) {
      if (k == 0)
        return R(X[1 + d]);
      return R(X[k]) * X[1 + d] / X[0] +
             (p && k - 1 == d ? g / 2 * X[0] * X[0] : R(0));
    };
    auto size = [&](const St<dim> &X, int k) {
      const double m = view.momentum(X).norm();
      return k == 0 ? m : m * m / X[0] + e.grav * X[0] * X[0];
    };
    const auto f = view.f(U), gg = view.g(U);
    for (int k = 0; k <= dim; ++k)
      for (int d = 0; d < dim; ++d) {
        close(f[k][d], double(ref(U, k, d, true)), 1e-14 * size(U, k),
              "flux ", k, d);
        close(gg[k][d], double(ref(U, k, d, false)), 1e-14 * size(U, k),
              "advective flux ", k, d);
      }
    T1<dim> c;
    for (int d = 0; d < dim; ++d)
      c[d] = s.sym(2.);
    const double Z = s.chance(0.5) ? 0. : s.sym(2.) * e.href;
    typename View<dim>::InitialPrecomputedVector ipv;
    typename View<dim>::PrecomputedVector pv;
    ipv.reinit_with_scalar_partitioner(
        std::make_shared<const dealii::Utilities::MPI::Partitioner>(
            dealii::IndexSet(dealii::complete_index_set(2)), MPI_COMM_SELF));
    auto put = [&](double a, double b) {
      ipv.template write_tensor<double>(std::array<double, 1>{{a}}, 0);
      ipv.template write_tensor<double>(std::array<double, 1>{{b}}, 1);
    };
    unsigned js[1] = {1};
    auto both = [&](const St<dim> &A, double za, const St<dim> &B, double zb,
                    const T1<dim> &cc, bool high) {
      put(za, zb);
      const auto fi = view.flux_contribution(pv, ipv, 0u, A);
      const auto fj = view.flux_contribution(pv, ipv, js, B);
      return high ? view.high_order_flux_divergence(fi, fj, cc)
                  : view.flux_divergence(fi, fj, cc);
    };
    const double cn = c.norm();
    /* cancellation in h + Z - Z */
    const double zc = 1. + std::abs(Z) / std::min(U[0], V[0]);
    /* flat bottom */
    for (bool high : {false, true}) {
      const auto q = both(U, Z, V, Z, c, high);
      const auto q2 = both(V, Z, U, Z, -c, high);
      for (int k = 0; k <= dim; ++k) {
        R w = 0;
        for (int d = 0; d < dim; ++d)
          w -= (ref(U, k, d, true) + ref(V, k, d, true)) * c[d];
        const double ab = cn * (size(U, k) + size(V, k)) +
                          (k ? cn * e.grav * (U[0] + V[0]) *
                                   (U[0] + V[0] + std::abs(Z))
                             : 0.);
        if (!high) {
          close(q[k], double(w), 1e-13 * ab * zc, "flat bottom flux divergence ",
                k);
        } else {
          /* the high order form agrees up to the term g (h_j - h_i)^2 / 2 */
          R corr = 0;
          if (k)
            corr = g / 2 * (R(V[0]) - U[0]) * (R(V[0]) - U[0]) * c[k - 1];
          close(q[k], double(w + corr), 1e-13 * ab * zc,
                "flat bottom high order flux divergence ", k);
        }
        close(q[k] + q2[k], 0.,
              1e-13 * ab * zc,
              "flat bottom flux divergence is not antisymmetric");
      }
    }
    /* rotation equivariance, with bathymetry */
    const auto Q = orthogonal<dim>(s);
    const auto rot = [&](const T1<dim> &m) { return Q * m; };
    const double Z2 = s.sym(2.) * e.href;
    for (bool high : {false, true}) {
      const auto q = view.apply_galilei_transform(both(U, Z, V, Z2, c, high), rot);
      const auto p = both(view.apply_galilei_transform(U, rot), Z,
                          view.apply_galilei_transform(V, rot), Z2, Q * c, high);
      const double zz = std::abs(Z) + std::abs(Z2) + U[0] + V[0];
      for (int k = 0; k <= dim; ++k)
        close(p[k], q[k],
              1e-13 * cn * (size(U, k) + size(V, k)) +
                  (k ? 1e-13 * cn * e.grav * zz * zz : 0.),
              "flux is not rotation equivariant ", k);
    }
    /* adding a constant to the bathymetry changes nothing */
    const double dz = s.sym(1.) * e.href;
    for (bool high : {false, true}) {
      const auto q = both(U, Z, V, Z2, c, high);
      const auto p = both(U, Z + dz, V, Z2 + dz, c, high);
      const double zz =
          std::abs(Z) + std::abs(Z2) + std::abs(dz) + U[0] + V[0];
      const double vv = view.momentum(U).norm() / U[0] +
                        view.momentum(V).norm() / V[0];
      for (int k = 0; k <= dim; ++k)
        close(p[k], q[k],
              1e-13 * cn * zz *
                  (k ? e.grav * zz + vv * vv : vv),
              "flux depends on the absolute height ", k);
    }
  }

  /* lake at rest: neighboring equilibrated states agree, fluxes reduce to
     the pressure of the own state and no viscosity acts */
  template <int dim>
  void well_balanced(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    const auto e = setup(s);
    set_prm(e.prm());
    const auto view = hs.template view<dim, double>();
    const double eta = e.href * s.uniform(0.5, 3.);
    const double Zi = s.chance(0.3) ? 0. : e.href * s.uniform(-2., 0.4);
    double Zj = e.href * s.uniform(-2., 0.4);
    const bool dry = s.chance(0.3);
    if (dry)
      Zj = eta + e.href * s.uniform(0., 1.);
    St<dim> Ui, Uj;
    Ui[0] = eta - Zi;
    Uj[0] = std::max(0., eta - Zj);
    T1<dim> c;
    for (int d = 0; d < dim; ++d)
      c[d] = s.sym(1.);
    s.note("Ui", show(Ui));
    s.note("Uj", show(Uj));
    s.note("Z", str(Zi) + " " + str(Zj));
    s.nontrivial(std::abs(Zi - Zj) > 1e-6);
    s.label(dry ? "dry neighbour" : "wet neighbour");
    const double H = std::abs(Zi) + std::abs(Zj) + eta;
    const double tol = 1e-14 * 10;
    const auto st = view.equilibrated_states({Ui, Zi}, {Uj, Zj});
    close(st[0][0], st[1][0], tol * H, "equilibrated depths differ");
    close(st[0][0], std::max(0., eta - std::max(Zi, Zj)), tol * H,
          "equilibrated depth");
    const auto lo = view.flux_divergence({Ui, Zi}, {Uj, Zj}, c);
    const auto hi = view.high_order_flux_divergence({Ui, Zi}, {Uj, Zj}, c);
    for (int k = 0; k <= dim; ++k) {
      const double want = k ? -e.grav * Ui[0] * Ui[0] * c[k - 1] : 0.;
      close(lo[k], want, tol * e.grav * H * H, "lake at rest flux ", k);
      if (!dry)
        close(hi[k], want, tol * e.grav * H * H, "lake at rest high flux ", k);
    }
    /* both states are never deeper than the original ones */
    require(st[0][0] <= Ui[0] * (1. + 1e-14) && st[1][0] <= Uj[0] + 1e-14 * H &&
                st[0][0] >= 0. && st[1][0] >= 0.,
            "equilibrated depth exceeds the depth");
    /* moving water: structure of the equilibrated low-order update, in terms
       of the bar state and the affine shift */
    const auto A = state<dim>(s, e, "A", true), B = state<dim>(s, e, "B", true);
    const double d = s.logu(1e-2, 1e2) * std::sqrt(e.grav * (A[0] + B[0]));
    const auto sab = view.equilibrated_states({A, Zi}, {B, Zj});
    const auto fl = view.flux_divergence({A, Zi}, {B, Zj}, c);
    const auto sh = view.affine_shift({A, Zi}, {B, Zj}, c, d);
    const auto fa = view.f(sab[0]), fb = view.f(sab[1]);
    const double vA = view.momentum(A) * c / A[0];
    const double vs = view.momentum(A).norm() / A[0] +
                      view.momentum(B).norm() / B[0];
    for (int k = 0; k <= dim; ++k) {
      const double lhs = fl[k] + d * (sab[1][k] - sab[0][k]);
      double rhs = d * (sab[0][k] + sab[1][k]) + sh[k] - 2. * (d + vA) * A[k];
      for (int l = 0; l < dim; ++l)
        rhs += (fa[k][l] - fb[k][l]) * c[l];
      if (k)
        rhs -= e.grav * A[0] * A[0] * c[k - 1];
      const double hh = A[0] + B[0];
      const double sc = (k ? hh * vs : hh) * (d + vs) +
                        (k ? e.grav * hh * hh : 0.) + d * hh * (k ? 0. : 1.) +
                        d * (std::abs(A[k]) + std::abs(B[k]));
      close(lhs, rhs, 1e-12 * sc, "low-order update is not a combination of "
                                  "shifted bar states, component ",
            k);
    }
    /* the velocity direction is kept by the equilibration */
    for (int k = 1; k <= dim; ++k)
      close(sab[0][k] * A[0], A[k] * sab[0][0],
            1e-13 * (std::abs(A[k]) + 1e-300) * A[0],
            "equilibration changes the velocity");
  }

  template <int dim>
  void friction(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    auto e = setup(s);
    e.manning = s.pick({0., 0.01, 0.1, 1.}) * s.unit();
    set_prm(e.prm());
    const auto view = hs.template view<dim, double>();
    auto U = state<dim>(s, e, "U");
    if (s.chance(0.2))
      for (int d = 0; d < dim; ++d)
        U[1 + d] += s.sym(1e-16) * e.href; /* momentum on a dry cell */
    const double tau = s.logu(1e-8, 1e2);
    s.note("tau", tau);
    PV<dim> pv;
    fill<dim>(pv, hs, {U});
    unsigned js[1] = {0};
    const auto S = view.nodal_source(pv, 0u, U, tau);
    const auto S2 = view.nodal_source(pv, js, U, tau);
    require(S == S2, "source accessors disagree");
    require(S[0] == 0., "friction changes the depth");
    const auto m = view.momentum(U);
    T1<dim> q;
    for (int d = 0; d < dim; ++d)
      q[d] = S[1 + d];
    for (int d = 0; d < dim; ++d)
      require(std::isfinite(q[d]), "friction is not finite");
    s.nontrivial(e.manning > 0. && m.norm() > 0.);
    require(tau * q.norm() <= m.norm() * (1. + 1e-12) + 1e-300,
            "friction reverses the flow: ", tau * q.norm(), " > ", m.norm());
    require(m * q <= 0., "friction accelerates the flow");
    close((m * q) + m.norm() * q.norm(), 0.,
          1e-13 * m.norm() * q.norm() + 1e-300, "friction is not parallel");
    if (U[0] > 10. * e.cut_large()) {
      const R h43 = std::pow(R(U[0]), R(4) / 3);
      const R v = R(m.norm()) / U[0];
      const R fac = 2 * R(e.grav) * e.manning * e.manning * v;
      const R want = fac / (h43 + std::max(h43, tau * fac)) * m.norm();
      close(q.norm(), double(want), 1e-12 * double(want) + 1e-300,
            "regularised Gauckler-Manning friction");
      s.label(tau * fac > h43 ? "stiff" : "soft");
    } else
      s.label("dry");
    if (e.manning == 0.)
      require(q.norm() == 0., "friction without roughness");
  }

  template <int dim>
  void indicator(Src &s)
  {
    fresh_parameters();
    HyperbolicSystem hs("/E");
    typename Indicator<dim, double>::Parameters ip("/I");
    const auto e = setup(s);
    const double factor = s.pick({1., 0.5, 10., 0.});
    set_prm(e.prm() + "subsection I\n" + prm_entry("evc factor", factor) +
            "end\n");
    const unsigned n = s.range(1, 8);
    std::vector<St<dim>> U;
    const bool constant = s.chance(0.15), nearby = s.chance(0.4);
    const bool dry = s.chance(0.2);
    const auto U0 = state<dim>(s, e, "Ui", !dry);
    for (unsigned i = 0; i < n; ++i) {
      auto X = U0;
      if (i && !constant) {
        if (nearby)
          for (int k = 0; k <= dim; ++k)
            X[k] *= 1. + 0.05 * s.sym(1.);
        else
          X = state<dim>(s, e, "Uj", !dry);
      }
      U.push_back(X);
    }
    PV<dim> pv;
    fill<dim>(pv, hs, U);
    std::vector<T1<dim>> c(n);
    T1<dim> sum;
    for (unsigned j = 1; j < n; ++j) {
      for (int d = 0; d < dim; ++d)
        c[j][d] = s.sym(1.);
      sum += c[j];
    }
    c[0] = -sum;
    Indicator<dim, double> ind(hs, ip, pv);
    ind.reset(0, U[0]);
    const R g = e.grav;
    auto eta = [&](const St<dim> &X) {
      return g / 2 * X[0] * X[0] + kin<dim>(X, e);
    };
    auto hsh = [&](const St<dim> &X) { return std::max<R>(X[0], e.cut_small()); };
    auto fl = [&](const St<dim> &X, int k, int d) {
      if (k == 0)
        return R(X[1 + d]) / hsh(X) * X[0];
      return R(X[1 + d]) * X[k] / hsh(X) +
             (k - 1 == d ? g / 2 * X[0] * X[0] : R(0));
    };
    R left = 0, labs = 0, right[dim + 1] = {}, rabs[dim + 1] = {};
    unsigned js[1];
    for (unsigned j = 0; j < n; ++j) {
      js[0] = j;
      ind.accumulate(js, U[j], c[j]);
      R vc = 0, va = 0;
      for (int d = 0; d < dim; ++d) {
        vc += R(U[j][1 + d]) / hsh(U[j]) * c[j][d];
        va += std::abs(R(U[j][1 + d]) / hsh(U[j]) * c[j][d]);
      }
      const R en = eta(U[j]) + g / 2 * U[j][0] * U[j][0];
      left += en * vc;
      labs += en * va;
      for (int k = 0; k <= dim; ++k)
        for (int d = 0; d < dim; ++d) {
          right[k] += (fl(U[j], k, d) - fl(U[0], k, d)) * c[j][d];
          rabs[k] += (std::abs(fl(U[j], k, d)) + std::abs(fl(U[0], k, d))) *
                     std::abs(R(c[j][d]));
        }
    }
    const double hd = s.logu(1e-4, 1.);
    const double alpha = ind.alpha(hd);
    s.note("alpha", alpha);
    require(alpha >= 0. && alpha <= 1., "indicator ", alpha,
            " outside of [0, 1]");
    s.nontrivial(!constant && n > 1);
    if ((constant || n == 1) && !dry)
      close(alpha, 0., 1e-9 * factor, "indicator of a constant stencil");
    R d0[dim + 1];
    R v2 = 0;
    for (int d = 0; d < dim; ++d) {
      d0[1 + d] = R(U[0][1 + d]) / hsh(U[0]);
      v2 += d0[1 + d] * d0[1 + d];
    }
    d0[0] = g * U[0][0] - v2 / 2;
    R num = 0, err = labs;
    for (int k = 0; k <= dim; ++k) {
      num += d0[k] * right[k];
      err += std::abs(d0[k]) * rabs[k];
    }
    const R den = std::abs(left) + std::abs(num) +
                  std::max<R>(hd * eta(U[0]),
                              100 * std::numeric_limits<double>::min());
    const R want = std::min<R>(1, factor * std::abs(left - num) / den);
    const R tol = 1e-13L * err / den * (1 + factor);
    pbt::discard_unless(tol < 1e-2L);
    close(alpha, double(want), double(tol) + 1e-12,
          "indicator is not the normalised entropy commutator");
    s.label(alpha == 1. ? "clipped" : alpha > 0.1 ? "large" : "small");
  }
} // namespace

PBT("P06.sw1", 20000, 600000, wavespeed<1>);
PBT("P06.sw2", 20000, 600000, wavespeed<2>);
PBT("P08.sw.limit1", 40000, 1000000, limit<1>);
PBT("P08.sw.limit2", 40000, 1000000, limit<2>);
PBT("P08.sw.bounds1", 8000, 200000, bounds<1>);
PBT("P08.sw.bounds2", 8000, 200000, bounds<2>);
PBT("P10.sw1", 20000, 400000, identities<1>);
PBT("P10.sw2", 20000, 400000, identities<2>);
PBT("P11.sw1", 20000, 400000, boundary<1>);
PBT("P11.sw2", 20000, 400000, boundary<2>);
PBT("P12.sw1", 20000, 400000, flux<1>);
PBT("P12.sw2", 20000, 400000, flux<2>);
PBT("P14.unit1", 20000, 400000, well_balanced<1>);
PBT("P14.unit2", 20000, 400000, well_balanced<2>);
PBT("P15.unit1", 20000, 400000, friction<1>);
PBT("P15.unit2", 20000, 400000, friction<2>);
PBT("P28.sw1", 10000, 200000, indicator<1>);
PBT("P28.sw2", 10000, 200000, indicator<2>);

UNIT_MAIN
