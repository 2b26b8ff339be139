// Initial states of the shallow water equations.
#include "init.h"

struct Tr {
  using D = ryujin::ShallowWater::Description;
  static constexpr const char *tag = "sw";
  static constexpr bool has_momentum = true, has_bathymetry = true;

  static std::string water(double g, double n)
  {
    return prm_entry("gravity", g) + prm_entry("manning friction coefficient", n);
  }
  static std::string equation(Src &, bool) { return water(9.81, 0.); }

  template <int dim>
  static std::string probe(int k, const std::string &e)
  {
    static const char *n[] = {"x", "y"};
    std::string r = prm_entry("water depth expression", e);
    for (int d = 0; d < dim; ++d)
      r += prm_entry(std::string("velocity ") + n[d] + " expression",
                     d == k ? "1." : "0.");
    return r;
  }

  template <int dim>
  static Config configuration(Src &s)
  {
    Config c;
    c.equation = water(9.81, 0.02);
    auto W = [&] { return list({s.logu(0.01, 10.), s.sym(3.)}); };
    switch (s.range(0, dim == 1 ? 6 : 10)) {
    case 0:
      c.name = "uniform";
      c.parameters = prm_entry("primitive state", W());
      break;
    case 1:
      c.name = "contrast";
      c.parameters = prm_entry("primitive state left", W()) +
                     prm_entry("primitive state right", W());
      break;
    case 2:
      c.name = "ritter dam break";
      c.parameters = prm_entry("left water depth", s.logu(0.01, 1.));
      break;
    case 3:
      c.name = "paraboloid";
      if (dim == 1)
        c.parameters = prm_entry("free surface radius", 3000.) +
                       prm_entry("water height", 10.);
      c.size = dim == 1 ? 10000. : 2.;
      break;
    case 4:
      c.name = "sloping friction";
      break;
    case 5:
      c.name = "flow over bump";
      c.size = 25.;
      c.parameters =
          prm_entry("flow type", s.chance(0.5) ? "subsonic" : "transcritical");
      break;
    case 6:
      c.name = "soliton";
      break;
    case 7:
      c.name = "three bumps dam break";
      c.size = 60.;
      break;
    case 8:
      c.name = "hou test";
      c.size = 500.;
      break;
    case 9:
      c.name = "smooth vortex";
      c.parameters =
          prm_entry("with bathymetry", s.chance(0.5) ? "true" : "false");
      break;
    default:
      c.name = "transient experiments";
      c.parameters =
          prm_entry("flow state left", W()) +
          prm_entry("flow state right", W()) +
          prm_entry("experimental configuration",
                    s.pick(std::vector<std::string>{"G1", "G2", "G3", "none"}));
      c.size = 5.;
    }
    return c;
  }
};

template <int dim>
using I = Inst<Tr::D, dim>;
template <int dim>
using State = typename I<dim>::state;

template <int dim>
State<dim> flux(double g, const State<dim> &U, int k)
{
  State<dim> F;
  if (U[0] <= 0.)
    return F;
  F = U[1 + k] / U[0] * U;
  F[1 + k] += 0.5 * g * U[0] * U[0];
  return F;
}

/* ------------------------------------------------------ documented values */

template <int dim>
void values(Src &s)
{
  const double g = s.pick({9.81, 1., 20.});
  auto W = [&] {
    dealii::Tensor<1, 2, double> w;
    w[0] = s.logu(0.01, 10.);
    w[1] = s.sym(3.);
    return w;
  };
  auto text = [](const dealii::Tensor<1, 2, double> &w) {
    return list({w[0], w[1]});
  };
  auto U1 = [](const dealii::Tensor<1, 2, double> &w) {
    State<dim> U;
    U[0] = w[0];
    U[1] = w[0] * w[1];
    return U;
  };
  auto rest = [](double h) {
    State<dim> U;
    U[0] = h;
    return U;
  };
  std::string name, par;
  double size = 2.;
  std::function<State<dim>(const Pt<dim> &, double)> ref;
  std::function<double(const Pt<dim> &)> bath = [](const Pt<dim> &) { return 0.; };
  const auto A = W(), B = W();
  switch (s.range(0, dim == 1 ? 3 : 5)) {
  case 0:
    name = "uniform";
    par = prm_entry("primitive state", text(A));
    ref = [&](const Pt<dim> &, double) { return U1(A); };
    break;
  case 1:
    name = "contrast";
    par = prm_entry("primitive state left", text(A)) +
          prm_entry("primitive state right", text(B));
    ref = [&](const Pt<dim> &x, double) { return U1(x[0] > 0. ? B : A); };
    break;
  case 2: {
    name = "function";
    struct Fn {
      double a, b, c, e;
      std::array<double, 3> k;
      double operator()(const Pt<dim> &x, double t) const
      {
        double arg = c + e * t;
        for (int d = 0; d < dim; ++d)
          arg += k[d] * x[d];
        return a + b * std::sin(arg);
      }
      std::string text() const
      {
        static const char *n[] = {"x", "y", "z"};
        std::string r = pbt::num(c) + " + " + pbt::num(e) + " * t";
        for (int d = 0; d < dim; ++d)
          r += std::string(" + ") + pbt::num(k[d]) + " * " + n[d];
        return pbt::num(a) + " + " + pbt::num(b) + " * sin(" + r + ")";
      }
    };
    auto make = [&](double lo, double hi) {
      Fn f;
      f.a = 0.5 * (lo + hi);
      f.b = 0.5 * (hi - lo);
      f.c = s.uniform(0., 3.);
      f.e = s.sym(4.);
      for (auto &q : f.k)
        q = s.sym(2.);
      return f;
    };
    const Fn h = make(0.1, 2.);
    std::array<Fn, 2> u{make(-2., 2.), make(-2., 2.)};
    static const char *n[] = {"x", "y"};
    par = prm_entry("water depth expression", h.text());
    for (int d = 0; d < dim; ++d)
      par += prm_entry(std::string("velocity ") + n[d] + " expression",
                       u[d].text());
    ref = [=](const Pt<dim> &x, double t) {
      State<dim> U;
      U[0] = h(x, t);
      for (int d = 0; d < dim; ++d)
        U[1 + d] = U[0] * u[d](x, t);
      return U;
    };
    break;
  }
  case 3: {
    name = "three bumps dam break";
    size = 30.;
    const double l = s.uniform(1., 3.), r = s.pick({0., 0.3, 2.}),
                 cone = s.pick({1., 0., 0.5});
    const bool steady = s.chance(0.5);
    par = prm_entry("left water depth", l) + prm_entry("right water depth", r) +
          prm_entry("cone magnitude", cone) +
          prm_entry("well balancing validation", steady ? "true" : "false");
    bath = [=](const Pt<dim> &x) {
      if (dim == 1)
        return cone * std::max(0., 3. - 0.3 * std::abs(x[0] - 47.5));
      const double y = x[dim - 1];
      return cone *
             std::max({0., 1. - std::hypot(x[0] - 30., y - 6.) / 8.,
                       1. - std::hypot(x[0] - 30., y - 24.) / 8.,
                       3. - 0.3 * std::hypot(x[0] - 47.5, y - 15.)});
    };
    ref = [=](const Pt<dim> &x, double t) {
      if (t > 0. && !steady) {
        /* critical inflow */
        State<dim> U;
        U[0] = l;
        U[1] = l * std::sqrt(g * l);
        return U;
      }
      return rest(std::max(0., (x[0] < 16. ? l : r) - bath(x)));
    };
    break;
  }
  case 4: {
    name = "hou test";
    size = 500.;
    const double depth = s.uniform(5., 50.);
    par = prm_entry("reservoir water depth", depth);
    bath = [=](const Pt<dim> &X) {
      const double x = X[0], y = X[dim - 1];
      auto q = [](double a) { return a * a; };
      const double base =
          std::min({q(x + 250.) / 1600. + q(y) / 400.,
                    q(x) / 225. + q(y - 50.) / 225.,
                    q(x - 250.) / 1225. + q(y) / 225. - 10.});
      double bump = 80. - q(x + 250.) / 50. - q(y) / 50.;
      if (q(x - 200.) + q(y + 10.) <= 1000.)
        bump = std::max(bump, 10.);
      else
        bump = std::max(bump, 0.);
      if (std::abs(x - 380.) <= 40. && std::abs(y - 50.) <= 40.)
        bump = std::max(bump, 20.);
      return std::max(base, bump);
    };
    ref = [=](const Pt<dim> &x, double) {
      return rest(x[0] < -100. ? std::max(0., depth - bath(x)) : 0.);
    };
    break;
  }
  default: {
    name = "transient experiments";
    size = 5.;
    const std::string which =
        s.pick(std::vector<std::string>{"none", "G1", "G2", "G3"});
    s.label(which);
    par = prm_entry("flow state left", text(A)) +
          prm_entry("flow state right", text(B)) +
          prm_entry("experimental configuration", which);
    bath = [=](const Pt<dim> &X) {
      const double x = X[0], y = X[dim - 1];
      double z = x < 0. ? 0. : -0.00092 * std::min(x, 3.26);
      if (x > 3.26)
        z -= 0.0404 * (x - 3.26);
      auto box = [&](double x0) {
        return std::abs(x - x0 - 0.0815) <= 0.0815 && std::abs(y) <= 0.04;
      };
      if (which == "none")
        return z;
      if (which == "G1")
        return z + (box(2.05) ? 0.07 : 0.);
      if (box(2.35))
        return z + 0.07;
      if (which == "G2") {
        const double q = (x - 2.) / 0.155;
        return z + 0.073 * std::sqrt(std::max(0., 1. - q * q));
      }
      const double q = (x - 2.095) / 0.155;
      const double c = 0.073 * std::sqrt(std::max(0., 1. - q * q));
      return z + (std::abs(q) <= 1. && std::abs(y) > 0.12 - c ? 0.21 : 0.);
    };
    ref = [&](const Pt<dim> &x, double) {
      const auto &w = x[0] > 1e-8 ? B : A;
      State<dim> U;
      U[0] = w[0];
      U[1] = w[1];
      return U;
    };
  }
  }
  s.label(name);
  s.note("configuration", name);
  const auto f = Frame<dim>::shifted(s);
  auto y = I<dim>::make(Tr::water(g, 0.), name, par, f);
  for (int i = 0; i < 24; ++i) {
    const double t = s.chance(0.6) ? s.uniform(1e-3, 1.) : 0.;
    Pt<dim> X;
    for (int d = 0; d < dim; ++d)
      X[d] = s.sym(size);
    if (name == "three bumps dam break" && s.chance(0.8)) {
      X[0] = s.uniform(10., 60.);
      if (dim > 1)
        X[dim - 1] = s.uniform(0., 30.);
    } else if (name == "transient experiments" && s.chance(0.8)) {
      X[0] = s.uniform(1.8, 2.6);
      X[dim - 1] = s.sym(0.12);
    } else if (name == "hou test" && s.chance(0.5)) {
      const double c[4][2] = {{-250., 0.}, {200., -10.}, {380., 50.}, {0., 50.}};
      const auto &q = c[s.range(0, 3)];
      X[0] = q[0] + s.sym(60.);
      X[dim - 1] = q[1] + s.sym(60.);
    }
    Pt<dim> x = X;
    for (int d = 0; d < dim; ++d)
      x[d] += f.pos[d];
    const auto U = (*y)(x, t), E = ref(X, t);
    const double z = y->iv.initial_precomputed(x)[0], ez = bath(X);
    close(z, ez, 1e-9 * (1. + std::abs(ez) + (name == "hou test") * 1e3), name,
          ": bathymetry");
    double top = 1e-3;
    for (int k = 0; k < dim + 1; ++k)
      top = std::max(top, std::abs(E[k]));
    for (int k = 0; k < dim + 1; ++k)
      close(U[k], E[k],
            1e-10 * top + (name == "hou test") * 1e-8, name, ": component ", k,
            " at t = ", t);
  }
  s.nontrivial();
}

/* -------------------------------------------------- solutions of the equations */

template <int dim>
void exact(Src &s)
{
  const double g = s.pick({9.81, 1., 20.});
  double friction = 0., linear = 0.;
  const auto f = Frame<dim>::shifted(s);
  std::string name, par;
  std::unique_ptr<I<dim>> y;
  /* sample points and step sizes */
  double h = 1e-3, ht = 1e-3, size = 2., centre = 0., tmax = 1.;
  std::function<bool(double)> valid = [](double) { return true; };
  double tol = 1e-6;
  double speed = 0.;
  switch (s.range(0, dim == 1 ? 4 : 5)) {
  case 0: {
    name = "ritter dam break";
    const double l = s.logu(0.003, 5.), t0 = s.logu(0.01, 1.);
    const double a = std::sqrt(g * l);
    y = I<dim>::make(Tr::water(g, 0.), name,
                     prm_entry("left water depth", l) +
                         prm_entry("time initial", t0),
                     f);
    const double t1 = s.uniform(0., 1.), t2 = t1 + s.uniform(0.05, 1.);
    const double lo = -s.uniform(0.1, 2.) * a * (t0 + t2),
                 hi = s.uniform(0.1, 3.) * a * (t0 + t2);
    s.label(name);
    s.note("configuration", name);
    auto at = [&](double x, double t) { return y->at(f, x, t); };
    close(at(-1.001 * a * (t1 + t0), t1)[0], l, 1e-12 * l, "ritter: reservoir");
    close(at(2.001 * a * (t1 + t0), t1)[0], 0., 1e-12 * l, "ritter: dry bed");
    require(at(1.999 * a * (t1 + t0), t1)[0] > 0., "ritter: wet front");
    weak_balance<State<dim>>(
        at, [&](const State<dim> &U) { return flux<dim>(g, U, 0); }, lo, hi, t1,
        t2, 1e-7, name);
    s.nontrivial();
    return;
  }
  case 1: {
    name = "paraboloid";
    const double a = s.logu(0.5, 100.), h0 = s.logu(0.05, 5.);
    size = a;
    par = prm_entry("free surface radius", a) + prm_entry("water height", h0);
    if (dim == 1) {
      const double length = s.uniform(2., 4.) * a;
      const double p = std::sqrt(8. * g * h0) / a;
      linear = s.chance(0.5) ? s.uniform(0.05, 0.9) * p : 0.;
      friction = linear;
      /* a moderate oscillation */
      const double B = s.uniform(0.05, 0.5) * std::sqrt(g * h0);
      par += prm_entry("paraboloid length", length) + prm_entry("speed", B);
      centre = 0.5 * length;
      tmax = 3. / p;
    } else {
      par += prm_entry("eta", s.uniform(0.05, 0.9));
      tmax = 3. * a / std::sqrt(2. * g * h0);
    }
    h = 1e-3 * a;
    ht = 1e-3 * tmax;
    break;
  }
  case 2: {
    name = "sloping friction";
    friction = s.logu(0.01, 1.);
    par = prm_entry("ramp slope", s.logu(0.01, 2.)) +
          prm_entry("initial discharge", s.logu(0.01, 5.));
    tol = 1e-8;
    break;
  }
  case 3: {
    /* steady flow: Bernoulli's law */
    name = "flow over bump";
    const bool sub = s.chance(0.5);
    const double grav = sub ? s.pick({9.81, 9.81, 15.}) : 9.81;
    y = I<dim>::make(Tr::water(grav, 0.), name,
                     prm_entry("flow type", sub ? "subsonic" : "transcritical"), f);
    s.label(name);
    s.label(sub ? "subsonic" : "transcritical");
    s.note("configuration", name);
    const double q = sub ? 4.42 : 0.18;
    auto get = [&](double x, double t, double &z) {
      Pt<dim> X = f.pos;
      X[0] += x;
      z = y->iv.initial_precomputed(X)[0];
      return (*y)(X, t);
    };
    auto energy = [&](const State<dim> &U, double z) {
      close(U[1], q, 1e-12, name, ": discharge");
      return U[0] + z + 0.5 * q * q / (grav * U[0] * U[0]);
    };
    double z;
    const auto R = get(1., 1., z);
    const double e = energy(R, z);
    for (int i = 0; i < 10; ++i) {
      const double x = s.uniform(0., 20.), t = s.uniform(0.01, 1.);
      if (!sub && x > 11.69) {
        close(get(std::max(x, 12.), t, z)[0], 0.28205279813802181, 1e-12,
              "flow over bump: outflow depth");
        continue;
      }
      const auto U = get(x, t, z);
      const double zz = x > 8. && x < 12. ? 0.2 / 64. * std::pow(x - 8., 3) *
                                                std::pow(12. - x, 3)
                                          : 0.;
      close(z, zz, 1e-12, "flow over bump: bathymetry");
      close(energy(U, z), e, 1e-8 * e, "flow over bump: Bernoulli's law at x = ", x);
      const double froude = q / std::sqrt(grav * U[0]) / U[0];
      if (sub || x < 9.99)
        require(froude < 1., "flow over bump: Froude number ", froude, " at ", x);
      else if (x > 10.01)
        require(froude > 1., "flow over bump: Froude number ", froude, " at ", x);
      const auto U0 = get(x, 0., z);
      close(U0[0] + z, sub ? 2. : 0.28205279813802181, 1e-12,
            "flow over bump: initial surface");
      close(U0[1], q, 1e-12, "flow over bump: initial discharge");
      if (zz > 1e-3)
        s.nontrivial();
    }
    s.nontrivial();
    return;
  }
  case 4: {
    /* mass balance of a wave of permanent form */
    name = "soliton";
    const double depth = s.logu(0.1, 5.), amplitude = s.uniform(0.05, 1.) * depth;
    y = I<dim>::make(Tr::water(g, 0.), name,
                     prm_entry("still water depth", depth) +
                         prm_entry("amplitude", amplitude),
                     f);
    s.label(name);
    s.note("configuration", name);
    const double c = std::sqrt(g * (depth + amplitude));
    const double k = std::sqrt(3. * amplitude / (4. * depth * depth * (depth + amplitude)));
    for (int i = 0; i < 6; ++i) {
      const double xi = s.sym(3.) / k, t = s.uniform(0., 1.);
      const auto U = y->at(f, xi + c * t, t);
      const double sech = 1. / std::cosh(k * xi);
      const double eta = amplitude * sech * sech;
      close(U[0], depth + eta, 1e-10 * depth, "soliton: depth");
      close(U[1], c * eta, 1e-10 * c * depth, "soliton: discharge (mass balance)");
    }
    s.nontrivial();
    return;
  }
  default: {
    name = "smooth vortex";
    const bool bath = s.chance(0.4);
    const double depth = s.logu(0.5, 5.);
    speed = bath ? 0. : s.sym(3.);
    par = prm_entry("with bathymetry", bath ? "true" : "false") +
          prm_entry("reference depth", depth) + prm_entry("mach number", speed) +
          prm_entry("beta", s.uniform(0.1, 4.));
    s.label(bath ? "bathymetry" : "flat");
    h = 3e-3;
    ht = h / (1. + std::abs(speed));
  }
  }
  s.label(name);
  s.note("configuration", name);
  s.note("parameters", par);
  y = I<dim>::make(Tr::water(g, friction), name, par, f);
  for (int i = 0; i < 6; ++i) {
    const double t = s.uniform(0., 1.) * tmax;
    Pt<dim> x = f.pos;
    for (int d = 0; d < dim; ++d)
      x[d] += s.sym(size) + (d ? 0. : centre + speed * t);
    bool wet = true;
    for (int d = 0; d < dim; ++d)
      for (int k = -2; k <= 2; ++k) {
        auto X = x;
        X[d] += k * h;
        wet = wet && (*y)(X, t)[0] > 1e-4 && (*y)(x, t + k * ht)[0] > 1e-4;
      }
    if (!wet) {
      s.count("dry points");
      continue;
    }
    s.count("wet points");
    State<dim> scale;
    auto grow = [&](const State<dim> &v) {
      for (int k = 0; k < dim + 1; ++k)
        scale[k] += std::abs(v[k]);
    };
    const auto U = (*y)(x, t);
    State<dim> r =
        derivative<State<dim>>([&](double q) { return (*y)(x, t + q); }, ht);
    grow(r);
    for (int d = 0; d < dim; ++d) {
      auto fl = [&](double q) {
        auto X = x;
        X[d] += q;
        return flux<dim>(g, (*y)(X, t), d);
      };
      const State<dim> v = derivative<State<dim>>(fl, h);
      r += v;
      grow(v);
      grow(State<dim>(1e-2 / size * fl(0.)));
      using S1 = dealii::Tensor<1, 1, double>;
      const double dz = derivative<S1>(
          [&](double q) {
            auto X = x;
            X[d] += q;
            S1 z;
            z[0] = y->iv.initial_precomputed(X)[0];
            return z;
          },
          h)[0];
      State<dim> src;
      src[1 + d] = g * U[0] * dz;
      r += src;
      grow(src);
    }
    if (name == "sloping friction") {
      State<dim> src;
      src[1] = g * friction * friction * U[1] * std::abs(U[1]) /
               std::pow(U[0], 7. / 3.);
      r += src;
      grow(src);
    } else if (linear > 0.) {
      State<dim> src;
      src[1] = linear * U[1];
      r += src;
      grow(src);
    }
    for (int k = 0; k < dim + 1; ++k)
      close(r[k], 0., tol * (scale[k] + 1e-3 * U[0]), name,
            ": residual of component ", k);
    s.nontrivial();
  }
}

#define SW_FACETS(dim)                                                         \
  PBT(std::string("P25.frame_sw_") + #dim "d", 400, 20000, (frame<Tr, dim>));  \
  PBT(std::string("P25.values_sw_") + #dim "d", 800, 40000, (values<dim>));    \
  PBT(std::string("P25.exact_sw_") + #dim "d", 800, 40000, (exact<dim>));

SW_FACETS(1)
SW_FACETS(2)
UNIT_MAIN
