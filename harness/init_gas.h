// Initial states of the Euler equations (also with an equation of state).
#pragma once

#include "init.h"

template <typename Tr_, int dim>
struct Gas {
  using I = Inst<typename Tr_::D, dim>;
  using state = typename I::state;
  using V3 = dealii::Tensor<1, 3, double>;

  static state conserved(double gamma, double b, double rho, const VecD<dim> &u,
                         double p)
  {
    state U;
    U[0] = rho;
    for (int d = 0; d < dim; ++d)
      U[1 + d] = rho * u[d];
    U[dim + 1] =
        p * (1. - b * rho) / (gamma - 1.) + 0.5 * rho * u.norm_square();
    return U;
  }

  static double pressure(double gamma, double b, const state &U)
  {
    double m2 = 0.;
    for (int d = 0; d < dim; ++d)
      m2 += U[1 + d] * U[1 + d];
    return (gamma - 1.) * (U[dim + 1] - 0.5 * m2 / U[0]) / (1. - b * U[0]);
  }

  static state flux(double gamma, double b, const state &U, int k)
  {
    const double p = pressure(gamma, b, U);
    const double v = U[1 + k] / U[0];
    state F = v * U;
    F[1 + k] += p;
    F[dim + 1] += v * p;
    return F;
  }
};

inline std::string prim(double r, double u, double p)
{
  return list({r, u, p});
}

template <typename Tr, int dim>
Config gas_configuration(Src &s)
{
  const double gamma = s.pick({1.4, 5. / 3., 1.2});
  Config c;
  c.equation = Tr::gas(gamma, 0.);
  auto W = [&] {
    return prim(s.logu(0.1, 10.), s.sym(3.), s.logu(0.1, 10.));
  };
  const std::string g = Tr::have_gamma ? "" : prm_entry("gamma", gamma);
  std::vector<int> kinds = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10};
  if (dim >= 2)
    for (int k : {11, 12, 13, 14, 11, 12})
      kinds.push_back(k);
  switch (s.pick(kinds)) {
  case 0:
    c.name = "uniform";
    c.parameters = prm_entry("primitive state", W());
    break;
  case 1:
    c.name = "contrast";
    c.parameters = prm_entry("primitive state left", W()) +
                   prm_entry("primitive state right", W());
    break;
  case 2:
    c.name = "three state contrast";
    c.parameters = prm_entry("primitive state left", W()) +
                   prm_entry("primitive state middle", W()) +
                   prm_entry("primitive state right", W()) +
                   prm_entry("left region length", s.uniform(0.1, 1.)) +
                   prm_entry("middle region length", s.uniform(0.1, 1.));
    break;
  case 3:
    c.name = "radial contrast";
    c.parameters = prm_entry("primitive state inner", W()) +
                   prm_entry("primitive state outer", W()) +
                   prm_entry("radius", s.uniform(0.5, 2.));
    break;
  case 4:
    c.name = "ramp up";
    c.parameters = prm_entry("primitive state initial", W()) +
                   prm_entry("primitive state final", W()) +
                   prm_entry("time initial", s.uniform(0., 0.5)) +
                   prm_entry("time final", s.uniform(0.5, 1.));
    break;
  case 5:
    c.name = "rarefaction";
    c.parameters = g;
    break;
  case 6:
    c.name = "shock front";
    c.parameters = g + prm_entry("primitive state", W()) +
                   prm_entry("mach number", s.uniform(8., 12.));
    c.t_max = 0.1;
    break;
  case 7:
    c.name = "smooth wave";
    c.parameters = prm_entry("mach number", s.sym(2.));
    break;
  case 8:
    c.name = "noh";
    c.parameters = g;
    break;
  case 9:
    c.name = "leblanc";
    break;
  case 10:
    c.name = "becker solution";
    c.parameters = g;
    c.size = 0.2;
    c.t_max = 0.2;
    break;
  case 11:
    c.name = "isentropic vortex";
    c.parameters = g;
    break;
  case 12: {
    c.name = "four state contrast";
    auto W2 = [&] {
      return list({s.logu(0.1, 10.), s.sym(3.), s.sym(3.), s.logu(0.1, 10.)});
    };
    for (const char *n : {"bottom left", "bottom right", "top left", "top right"})
      c.parameters += prm_entry(std::string("primitive state ") + n, W2());
    break;
  }
  case 13:
    c.name = "astro jet";
    c.parameters = g + prm_entry("jet width", s.uniform(0.1, 2.));
    break;
  default:
    c.name = "icf like";
    c.parameters = g + prm_entry("mach number", s.uniform(2., 4.));
  }
  return c;
}

/* ------------------------------------------------------ documented values */

template <typename Tr, int dim>
void gas_values(Src &s)
{
  using G = Gas<Tr, dim>;
  using I = typename G::I;
  using state = typename I::state;
  const double gamma = s.pick({1.4, 5. / 3., 1.2, 1.1});
  const double b = Tr::have_gamma ? 0. : s.pick({0., 0., 0.02});
  auto W = [&] {
    dealii::Tensor<1, 3, double> w;
    w[0] = s.logu(0.1, 10.);
    w[1] = s.sym(3.);
    w[2] = s.logu(0.01, 100.);
    return w;
  };
  auto text = [](const dealii::Tensor<1, 3, double> &w) {
    return prim(w[0], w[1], w[2]);
  };
  auto U1 = [&](const dealii::Tensor<1, 3, double> &w) {
    VecD<dim> u;
    u[0] = w[1];
    return G::conserved(gamma, b, w[0], u, w[2]);
  };
  std::string name, par;
  std::function<state(const Pt<dim> &, double)> ref;
  const auto A = W(), B = W(), C = W();
  switch (s.range(0, dim == 1 ? 5 : 7)) {
  case 0:
    name = "uniform";
    par = prm_entry("primitive state", text(A));
    ref = [&](const Pt<dim> &, double) { return U1(A); };
    break;
  case 1:
    name = "contrast";
    par = prm_entry("primitive state left", text(A)) +
          prm_entry("primitive state right", text(B));
    ref = [&](const Pt<dim> &x, double) { return U1(x[0] > 0. ? B : A); };
    break;
  case 2: {
    name = "three state contrast";
    const double l = s.uniform(-1., 1.), m = s.uniform(0.05, 1.);
    par = prm_entry("primitive state left", text(A)) +
          prm_entry("primitive state middle", text(B)) +
          prm_entry("primitive state right", text(C)) +
          prm_entry("left region length", l) +
          prm_entry("middle region length", m);
    ref = [&, l, m](const Pt<dim> &x, double) {
      return U1(x[0] < l ? A : x[0] < l + m ? B : C);
    };
    break;
  }
  case 3: {
    name = "radial contrast";
    const double r = s.uniform(0.1, 2.);
    par = prm_entry("primitive state inner", text(A)) +
          prm_entry("primitive state outer", text(B)) + prm_entry("radius", r);
    ref = [&, r](const Pt<dim> &x, double) { return U1(x.norm() > r ? B : A); };
    break;
  }
  case 4: {
    name = "ramp up";
    const double t0 = s.uniform(0., 0.5), t1 = t0 + s.uniform(0.05, 0.4);
    par = prm_entry("primitive state initial", text(A)) +
          prm_entry("primitive state final", text(B)) +
          prm_entry("time initial", t0) + prm_entry("time final", t1);
    ref = [&, t0, t1](const Pt<dim> &, double t) {
      if (t <= t0)
        return U1(A);
      if (t >= t1)
        return U1(B);
      const double c = std::cos(0.5 * M_PI * (t - t0) / (t1 - t0));
      return state(c * c * U1(A) + (1. - c * c) * U1(B));
    };
    break;
  }
  case 5: {
    name = "function";
    struct Fn {
      double a, b, c, e;
      std::array<double, 3> k;
      double operator()(const Pt<dim> &x, double t) const
      {
        double arg = c + e * t;
        for (int d = 0; d < dim; ++d)
          arg += k[d] * x[d];
        return a + b * std::sin(arg);
      }
      std::string text() const
      {
        static const char *n[] = {"x", "y", "z"};
        std::string r = pbt::num(c) + " + " + pbt::num(e) + " * t";
        for (int d = 0; d < dim; ++d)
          r += std::string(" + ") + pbt::num(k[d]) + " * " + n[d];
        return pbt::num(a) + " + " + pbt::num(b) + " * sin(" + r + ")";
      }
    };
    auto make = [&](double lo, double hi) {
      Fn f;
      f.a = 0.5 * (lo + hi);
      f.b = 0.5 * (hi - lo);
      f.c = s.uniform(0., 3.);
      f.e = s.sym(4.);
      for (auto &q : f.k)
        q = s.sym(2.);
      return f;
    };
    const Fn r = make(0.5, 2.), p = make(0.5, 4.);
    std::array<Fn, 3> u{make(-2., 2.), make(-2., 2.), make(-2., 2.)};
    static const char *n[] = {"x", "y", "z"};
    par = prm_entry("density expression", r.text()) +
          prm_entry("pressure expression", p.text());
    for (int d = 0; d < dim; ++d)
      par += prm_entry(std::string("velocity ") + n[d] + " expression",
                       u[d].text());
    ref = [=](const Pt<dim> &x, double t) {
      VecD<dim> v;
      for (int d = 0; d < dim; ++d)
        v[d] = u[d](x, t);
      return G::conserved(gamma, b, r(x, t), v, p(x, t));
    };
    break;
  }
  case 6: {
    name = "four state contrast";
    std::array<dealii::Tensor<1, 4, double>, 4> w;
    static const char *n[] = {"bottom left", "bottom right", "top left",
                              "top right"};
    for (int k = 0; k < 4; ++k) {
      w[k][0] = s.logu(0.1, 10.);
      w[k][1] = s.sym(3.);
      w[k][2] = s.sym(3.);
      w[k][3] = s.logu(0.01, 100.);
      par += prm_entry(std::string("primitive state ") + n[k],
                       list({w[k][0], w[k][1], w[k][2], w[k][3]}));
    }
    ref = [=](const Pt<dim> &x, double) {
      const auto &q = w[(x[0] >= 0.) + 2 * (x[dim > 1 ? 1 : 0] >= 0.)];
      VecD<dim> u;
      u[0] = q[1];
      if (dim > 1)
        u[dim > 1 ? 1 : 0] = q[2];
      return G::conserved(gamma, b, q[0], u, q[3]);
    };
    break;
  }
  default: {
    name = "astro jet";
    const double w = s.uniform(0.05, 1.);
    par = prm_entry("primitive jet state", text(A)) +
          prm_entry("primitive ambient right", text(B)) +
          prm_entry("jet width", w);
    if (!Tr::have_gamma)
      par += prm_entry("gamma", gamma);
    ref = [&, w](const Pt<dim> &x, double) {
      return U1(x[0] < 1e-12 && std::abs(x[dim > 1 ? 1 : 0]) <= w ? A : B);
    };
  }
  }
  s.label(name);
  s.note("configuration", name);
  const double pert = s.chance(0.2) ? s.pick({1e-3, 0.1}) : 0.;
  if (pert > 0.)
    s.label("perturbed");
  const auto f = Frame<dim>::shifted(s);
  auto y = I::make(Tr::gas(gamma, b), name, par, f, pert);
  for (int i = 0; i < 16; ++i) {
    const double t = s.chance(0.6) ? s.uniform(0., 1.) : 0.;
    Pt<dim> X;
    for (int d = 0; d < dim; ++d)
      X[d] = s.chance(0.1) ? s.pick({-1., 1., -1e-3, 1e-3, 1e-6})
                           : s.sym(2.);
    Pt<dim> x = X;
    for (int d = 0; d < dim; ++d)
      x[d] += f.pos[d];
    const auto U = (*y)(x, t), E = ref(X, t);
    double size = 0.;
    for (int k = 0; k < dim + 2; ++k)
      size = std::max(size, std::abs(E[k]));
    for (int k = 0; k < dim + 2; ++k)
      close(U[k], E[k],
            1e-10 * (std::abs(E[k]) + (k ? 1e-2 * size : 0.)) + 1e-14 * size +
                (t <= 0. ? pert * std::abs(E[k]) : 0.),
            name, ": component ", k, " at t = ", t);
  }
  s.nontrivial();
}

/* -------------------------------------------------- solutions of the equations */

template <typename Tr, int dim>
void gas_exact(Src &s)
{
  using G = Gas<Tr, dim>;
  using I = typename G::I;
  using state = typename I::state;
  double gamma = s.pick({1.4, 5. / 3., 1.2, 1.1, 3.});
  double b = 0.;
  const auto f = Frame<dim>::shifted(s);
  std::string par, name;
  const int kind = int(s.range(0, dim == 1 ? 5 : 7));
  auto g = [&] { return Tr::have_gamma ? "" : prm_entry("gamma", gamma); };
  double tol = 1e-8, a, e, t1, t2;
  auto window = [&](double lo, double hi, double tmax) {
    a = s.uniform(lo, hi);
    e = a + s.uniform(0.2, 1.) * (hi - lo);
    t1 = s.uniform(0., 1.) * tmax;
    t2 = t1 + s.uniform(0.05, 1.) * tmax;
  };
  auto one = [&](double r, double u, double p) {
    VecD<dim> v;
    v[0] = u;
    return G::conserved(gamma, b, r, v, p);
  };
  auto same = [&](const state &U, const state &E, double rel, const char *what) {
    double size = 0.;
    for (int k = 0; k < dim + 2; ++k)
      size = std::max(size, std::abs(E[k]));
    for (int k = 0; k < dim + 2; ++k)
      close(U[k], E[k], rel * (std::abs(E[k]) + 1e-2 * size), name, ": ", what,
            ", component ", k);
  };
  std::unique_ptr<I> y;
  auto at = [&](double x, double t) { return y->at(f, x, t); };
  auto fl = [&](const state &U) { return G::flux(gamma, b, U, 0); };

  switch (kind) {
  case 0: {
    name = "rarefaction";
    y = I::make(Tr::gas(gamma, 0.), name, g(), f);
    window(-1., 1., 0.5);
    const double c = std::sqrt(gamma / 3.);
    same(at(-1e-6, t1), one(3., c, 1.), 1e-9, "left state");
    const double pr = std::pow(0.5 / 3., gamma);
    const double cr = std::sqrt(gamma * pr / 0.5);
    same(at(50., t1), one(0.5, c + 2. * (c - cr) / (gamma - 1.), pr), 1e-9,
         "right state");
    break;
  }
  case 1: {
    name = "shock front";
    b = Tr::have_gamma ? 0. : s.pick({0., 0., 0.05, 0.3});
    const double r = s.logu(0.1, b > 0. ? 0.9 / b * (gamma - 1.) / (gamma + 1.)
                                       : 10.),
                 p = s.logu(0.1, 10.);
    const double c = std::sqrt(gamma * p / r / (1. - b * r));
    const double u = s.chance(0.5) ? s.uniform(-2., 2.) * c : 0.;
    const double mach = u / c + s.uniform(1.05, 6.);
    if (b > 0.)
      s.label("covolume");
    y = I::make(Tr::gas(gamma, b), name,
                g() + prm_entry("primitive state", prim(r, u, p)) +
                    prm_entry("mach number", mach),
                f);
    t1 = s.uniform(0., 0.2) / c;
    t2 = t1 + s.uniform(0.01, 0.2) / c;
    a = -s.uniform(0.1, 2.);
    e = s.uniform(0.1, 2.);
    const double S = mach * c, gap = 1e-6 * (1. + std::abs(S));
    same(at(S * t1 + gap, t1), one(r, u, p), 1e-10, "state ahead of the shock");
    const auto L = at(S * t1 - gap, t1);
    require(L[0] > r * (1. + 1e-3), "shock front: density behind the shock ",
            L[0]);
    require(1. - b * L[0] > 0. && G::pressure(gamma, b, L) > p,
            "shock front: state behind the shock");
    s.count("covolume", b > 0.);
    break;
  }
  case 2: {
    name = "leblanc";
    gamma = 5. / 3.;
    tol = 2e-7;
    y = I::make(Tr::gas(gamma, 0.), name, "", f);
    window(-0.5, 1., 1.);
    same(at(-2., t1), one(1., 0., 2. / 3. * 0.1), 1e-12, "left state");
    same(at(2. + 2. * t1, t1), one(1e-3, 0., 2. / 3. * 1e-10), 1e-12,
         "right state");
    break;
  }
  case 3: {
    name = "smooth wave";
    const double m = s.sym(3.), r = s.logu(0.1, 10.), p = s.logu(0.1, 10.);
    b = Tr::have_gamma ? 0. : s.pick({0., 0.02});
    y = I::make(Tr::gas(gamma, b), name,
                prm_entry("reference density", r) +
                    prm_entry("reference pressure", p) +
                    prm_entry("mach number", m),
                f);
    window(-0.5, 1., 0.3);
    same(at(0.2 + m * t1, t1), one(r + 1., m, p), 1e-9, "crest");
    same(at(s.uniform(0.31, 3.) + m * t1, t1), one(r, m, p), 1e-9, "right");
    same(at(s.uniform(-3., 0.09) + m * t1, t1), one(r, m, p), 1e-9, "left");
    break;
  }
  case 4: {
    name = "noh";
    const double rho0 = s.logu(0.1, 10.), u0 = s.logu(0.2, 5.);
    const double p0 = s.pick({1e-12, 1e-9, 1e-14});
    s.label(u0 == 1. ? "unit velocity" : "other velocity");
    y = I::make(Tr::gas(gamma, 0.), name,
                g() + prm_entry("reference density", rho0) +
                    prm_entry("reference velocity magnitude", u0) +
                    prm_entry("reference pressure", p0),
                f);
    /* along a ray: (r^(d-1) U)_t + (r^(d-1) F)_r = (d-1) r^(d-2) p */
    const auto n = unit_vector<dim>(s);
    const double D = 0.5 * (gamma - 1.) * u0;
    t1 = s.uniform(0.01, 1.) / u0;
    t2 = t1 + s.uniform(0.01, 1.) / u0;
    a = s.uniform(0.01, 0.9) * D * t1;
    e = std::max(1.05 * D * t2, s.uniform(0.3, 3.));
    using V = dealii::Tensor<1, 3, double>;
    auto radial = [&](double r, double t) {
      Pt<dim> x;
      for (int d = 0; d < dim; ++d)
        x[d] = f.pos[d] + r * n[d];
      const auto U = (*y)(x, t);
      double m = 0., m2 = 0.;
      for (int d = 0; d < dim; ++d) {
        m += U[1 + d] * n[d];
        m2 += U[1 + d] * U[1 + d];
      }
      close(m2, m * m, 1e-9 * (m2 + 1e-12), "noh: radial velocity");
      V R;
      R[0] = U[0];
      R[1] = m;
      R[2] = U[dim + 1];
      return V(std::pow(r, dim - 1) * R);
    };
    /* mass and energy (no sources) */
    auto flux = [&](const V &R) {
      V F;
      const double v = R[1] / R[0];
      const double p = (gamma - 1.) * (R[2] - 0.5 * R[1] * v);
      F[0] = R[1];
      F[2] = v * (R[2] + p);
      if (dim == 1)
        F[1] = R[1] * v + p;
      return F;
    };
    /* the momentum equation has the source p (d-1) r^(d-2): left out */
    auto masked = [&](double r, double t) {
      V R = radial(r, t);
      return R;
    };
    const double q = 1e-8 + 10. * p0 / (rho0 * u0 * u0);
    if (dim == 1)
      weak_balance<V>(masked, flux, a, e, t1, t2, q, name);
    else {
      /* states with the momentum removed from the balance */
      struct Pair {
      };
      auto U2 = [&](double r, double t) { return radial(r, t); };
      using W2 = dealii::Tensor<1, 2, double>;
      auto drop = [](const V &R) {
        W2 w;
        w[0] = R[0];
        w[1] = R[2];
        return w;
      };
      auto i1 = integral<W2>([&](double r) { return drop(U2(r, t1)); }, a, e, 1e-11);
      auto i2 = integral<W2>([&](double r) { return drop(U2(r, t2)); }, a, e, 1e-11);
      auto j1 = integral<W2>([&](double t) { return drop(flux(U2(a, t))); }, t1, t2, 1e-11);
      auto j2 = integral<W2>([&](double t) { return drop(flux(U2(e, t))); }, t1, t2, 1e-11);
      for (int k = 0; k < 2; ++k)
        close(i2[k] - i1[k] + j2[k] - j1[k], 0.,
              q * (std::abs(i1[k]) + std::abs(i2[k]) + std::abs(j1[k]) +
                   std::abs(j2[k]) + 1e-3 * rho0),
              "noh: balance of ", k ? "energy" : "mass");
      /* inside at rest with constant pressure, outside free streaming */
      const double ri = 0.5 * D * t1, ro = 1.5 * D * t1;
      const auto in = radial(ri, t1);
      close(in[1], 0., 1e-12 * in[0] * u0, "noh: momentum behind the shock");
      const auto out = radial(ro, t1);
      close(out[1] / out[0], -u0, 1e-9 * u0, "noh: velocity ahead of the shock");
      /* the shock satisfies the balance of momentum:
         p - p0 = (m_out^2/rho_out) - D (m_in - m_out) with m_in = 0 */
      const double eps = 1e-7;
      auto L = radial(D * t1 * (1. - eps), t1), H = radial(D * t1 * (1. + eps), t1);
      L /= std::pow(D * t1 * (1. - eps), dim - 1);
      H /= std::pow(D * t1 * (1. + eps), dim - 1);
      const double pl = (gamma - 1.) * (L[2] - 0.5 * L[1] * L[1] / L[0]);
      close(pl, H[1] * H[1] / H[0] - D * H[1], 1e-5 * pl + 10. * p0,
            "noh: balance of momentum at the shock");
    }
    s.label(name);
    s.note("configuration", name);
    s.nontrivial();
    return;
  }
  case 5: {
    /* a converging shock around a perturbed interface */
    name = "icf like";
    b = Tr::have_gamma ? 0. : s.pick({0., 0.05, 0.1});
    const double in = s.logu(0.05, 1.), out = s.logu(0.3, 1.5);
    const double pi = s.logu(0.1, 5.), po = s.logu(0.1, 5.);
    const double mach = s.uniform(1.1, 5.);
    const double radius = s.uniform(0.5, 1.5), shock = radius + s.uniform(0.2, 1.);
    const double modes = double(s.range(0, 10)), amplitude = s.uniform(0., 0.15);
    y = I::make(Tr::gas(gamma, b), name,
                g() + prm_entry("primitive state inside", prim(in, 0., pi)) +
                    prm_entry("primitive state outside", prim(out, 0., po)) +
                    prm_entry("interface radius", radius) +
                    prm_entry("number of modes", modes) +
                    prm_entry("amplitude", amplitude) +
                    prm_entry("mach number", mach) +
                    prm_entry("shock radius", shock),
                f);
    s.label(name);
    s.label(b > 0. ? "covolume" : "ideal");
    s.note("configuration", name);
    for (int i = 0; i < 8; ++i) {
      const auto n = unit_vector<dim>(s);
      const double r = s.uniform(0.2, 1.2) * shock;
      Pt<dim> x;
      for (int d = 0; d < dim; ++d)
        x[d] = f.pos[d] + r * n[d];
      const auto U = (*y)(x, 0.);
      const double angle = std::acos(std::min(1., std::abs(n[dim - 1])));
      const double edge = radius + amplitude * std::cos(modes * angle);
      if (r > shock * (1. + 1e-9)) {
        s.count("shocked points");
        const double c = std::sqrt(gamma * po / out / (1. - b * out)), S = mach * c;
        double v = 0., v2 = 0.;
        for (int d = 0; d < dim; ++d) {
          v -= U[1 + d] / U[0] * n[d];
          v2 += U[1 + d] * U[1 + d] / U[0] / U[0];
        }
        close(v2, v * v, 1e-10 * v2, name, ": radial velocity");
        require(U[0] > out, name, ": density behind the shock");
        const double p = G::pressure(gamma, b, U);
        const double m = out * S;
        close(U[0] * (S - v), m, 1e-9 * m, name, ": mass flux through the shock");
        close(p - po, m * v, 1e-9 * p, name, ": momentum balance of the shock");
        const double e0 = po * (1. - b * out) / (gamma - 1.) / out;
        close(U[dim + 1] * (S - v) - p * v, e0 * m, 1e-8 * U[dim + 1] * S, name,
              ": energy balance of the shock");
      } else if (std::abs(r - edge) > 1e-9 && r < shock * (1. - 1e-9)) {
        const bool inside = r < edge;
        same(U, one(inside ? in : out, 0., inside ? pi : po), 1e-10,
             inside ? "inside" : "outside");
      }
    }
    s.nontrivial();
    return;
  }
  default: {
    name = "isentropic vortex";
    const double m = s.sym(3.);
    const double c2 = 2. * gamma / (gamma - 1.);
    /* positive temperature in the center */
    const double bmax = 2. * M_PI * std::sqrt(c2 * std::exp(-1.));
    const double beta = s.uniform(0.1, 0.9) * bmax * (s.chance(0.3) ? -1. : 1.);
    s.note("beta", beta);
    y = I::make(Tr::gas(gamma, 0.), name,
                g() + prm_entry("mach number", m) + prm_entry("beta", beta), f);
    for (int i = 0; i < 4; ++i) {
      const double t = s.uniform(0., 1.);
      Pt<dim> x;
      for (int d = 0; d < dim; ++d)
        x[d] = f.pos[d] + s.sym(2.5);
      x[0] += m * t;
      const double h = 2e-3;
      auto ut = [&](double q) { return (*y)(x, t + q); };
      state r = derivative<state>(ut, h / (1. + std::abs(m)));
      state size;
      auto grow = [&](const state &v) {
        for (int k = 0; k < dim + 2; ++k)
          size[k] += std::abs(v[k]);
      };
      grow(r);
      grow((*y)(x, t));
      for (int d = 0; d < dim; ++d) {
        auto F = [&](double q) {
          auto X = x;
          X[d] += q;
          return G::flux(gamma, 0., (*y)(X, t), d);
        };
        const state v = derivative<state>(F, h);
        r += v;
        grow(v);
        grow(F(0.));
      }
      for (int k = 0; k < dim + 2; ++k)
        close(r[k], 0., 3e-6 * (size[k] + 1e-3), "isentropic vortex: residual of "
              "component ", k);
      /* strength and background */
      Pt<dim> X = f.pos;
      const double d = s.uniform(0.2, 2.);
      X[0] += m * t;
      X[dim > 1 ? 1 : 0] += d;
      const auto U = (*y)(X, t);
      close(U[1] / U[0], m - beta / (2. * M_PI) * d * std::exp(0.5 - 0.5 * d * d),
            1e-10 * (1. + std::abs(m) + std::abs(beta)), "vortex: velocity");
      X[dim > 1 ? 1 : 0] += 20.;
      same((*y)(X, t), one(1., m, 1.), 1e-10, "background");
    }
    s.label(name);
    s.note("configuration", name);
    s.nontrivial();
    return;
  }
  }
  s.label(name);
  s.note("configuration", name);
  s.note("window", "[" + str(a) + ", " + str(e) + "] x [" + str(t1) + ", " +
                       str(t2) + "]");
  weak_balance<state>(at, fl, a, e, t1, t2, tol, name);
  s.nontrivial();
}

/* --------------------------- Becker's solution of the Navier-Stokes equations */

template <typename Tr, int dim>
void gas_becker(Src &s)
{
  using G = Gas<Tr, dim>;
  using I = typename G::I;
  const double gamma = s.pick({1.4, 5. / 3., 1.2});
  const double mu = s.logu(1e-3, 1.);
  const double vl = s.logu(0.2, 5.);
  const double ratio = s.uniform((gamma - 1.) / (gamma + 1.) + 0.02, 0.9);
  const double vr = vl * ratio;
  const double rho = s.logu(0.1, 10.);
  const double frame = s.sym(2.);
  const auto f = Frame<dim>::shifted(s);
  auto y = I::make(Tr::gas(gamma, 0.), "becker solution",
                   (Tr::have_gamma ? "" : prm_entry("gamma", gamma)) +
                       prm_entry("velocity galilean frame", frame) +
                       prm_entry("velocity left", vl) +
                       prm_entry("velocity right", vr) +
                       prm_entry("density left", rho) + prm_entry("mu", mu),
                   f);
  /* width of the shock */
  const double w = mu / (rho * (vl - vr)) * 2.;
  const double kappa = gamma * mu / 0.75; // conductivity for the internal energy
  const double t = s.chance(0.5) ? s.uniform(0., 1.) : 0.;
  auto prim = [&](double x) {
    const auto U = y->at(f, x + frame * t, t);
    dealii::Tensor<1, 3, double> r;
    r[0] = U[0];
    r[1] = U[1] / U[0] - frame;
    r[2] = (U[dim + 1] - 0.5 * U[1] * U[1] / U[0]) / U[0];
    for (int d = 1; d < dim; ++d)
      require(U[1 + d] == 0., "becker: transversal momentum");
    return r;
  };
  /* limits far away */
  const auto L = prim(-200. * w / (1. - ratio)), H = prim(200. * w / (1. - ratio));
  close(L[0], rho, 1e-7 * rho, "becker: density on the left");
  close(L[1], vl, 1e-7 * vl, "becker: velocity on the left");
  close(H[1], vr, 1e-7 * vl, "becker: velocity on the right");
  auto fluxes = [&](double x) {
    const auto W = prim(x);
    const double h = 1e-2 * w;
    const auto d = derivative<dealii::Tensor<1, 3, double>>(
        [&](double q) { return prim(x + q); }, h);
    const double p = (gamma - 1.) * W[0] * W[2];
    dealii::Tensor<1, 3, double> F;
    F[0] = W[0] * W[1];
    F[1] = F[0] * W[1] + p - 4. / 3. * mu * d[1];
    F[2] = F[0] * (W[2] + 0.5 * W[1] * W[1]) + p * W[1] -
           4. / 3. * mu * W[1] * d[1] - kappa * d[2];
    return F;
  };
  const auto far = fluxes(-200. * w / (1. - ratio));
  for (int i = 0; i < 6; ++i) {
    const double x = s.sym(4.) * w / (1. - ratio) * 0.5;
    const auto F = fluxes(x);
    for (int k = 0; k < 3; ++k)
      close(F[k], far[k], 1e-6 * std::abs(far[k]) + 1e-6 * rho * vl * vl * (k ? 1. : 0.) * (k == 2 ? vl : 1.),
            "becker: stationary flux of component ", k, " at x = ", x, " (width ",
            w, ")");
    if (std::abs(prim(x)[1] - vl) > 1e-3 * vl && std::abs(prim(x)[1] - vr) > 1e-3 * vl)
      s.nontrivial();
  }
}

#define GAS_FACETS(Tr, dim)                                                    \
  PBT(std::string("P25.frame_") + Tr::tag + "_" #dim "d", 400, 20000,          \
      (frame<Tr, dim>));                                                       \
  PBT(std::string("P25.values_") + Tr::tag + "_" #dim "d", 600, 30000,         \
      (gas_values<Tr, dim>));                                                  \
  PBT(std::string("P25.exact_") + Tr::tag + "_" #dim "d", 600, 30000,          \
      (gas_exact<Tr, dim>));                                                   \
  PBT(std::string("P25.becker_") + Tr::tag + "_" #dim "d", 200, 10000,         \
      (gas_becker<Tr, dim>));
