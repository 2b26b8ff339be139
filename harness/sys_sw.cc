#include "sys_traits.h"

struct ShallowWaterTraits {
  using D = ryujin::ShallowWater::Description;
  static constexpr const char *tag = "shallow_water";
  static constexpr bool positive = false;

  static constexpr bool strict = false;
  static constexpr bool flat_flux = true;
  /* components whose boundary flux is the flux of the nodal states */
  static constexpr int balanced = 1;
  static constexpr double step_tol = 1e-9;

  template <typename SysT>
  static bool flat(const SysT &y)
  {
    const auto &z = y.hm.initial_precomputed();
    for (unsigned i = 1; i < y.n; ++i)
      if (z.get_tensor(i)[0] != z.get_tensor(0u)[0])
        return false;
    return true;
  }

  template <typename SysT>
  static void flatten(SysT &y)
  {
    auto &z = const_cast<std::decay_t<decltype(y.hm.initial_precomputed())> &>(
        y.hm.initial_precomputed());
    const auto b = z.get_tensor(0u);
    for (unsigned i = 0; i < y.n; ++i)
      z.write_tensor(b, i);
    z.update_ghost_values();
  }

  template <typename SysT>
  static bool friction(const SysT &y)
  {
    return y.view().manning_friction_coefficient() != 0.;
  }

  struct Bounds {
    double lo = 1e300, hi = 0.;
    bool use = false;
    void merge(const Bounds &o)
    {
      lo = std::min(lo, o.lo);
      hi = std::max(hi, o.hi);
    }
  };

  template <typename SysT, typename SV>
  static std::vector<Bounds> bounds(const SysT &y, const SV &old,
                                    const std::vector<std::vector<double>> &d)
  {
    const auto U = y.get(old);
    const bool f = flat(y);
    std::vector<Bounds> B(y.n);
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.constrained(i))
        continue;
      auto &b = B[i];
      b.use = f;
      for (unsigned k = 0; k < y.rows[i].size(); ++k) {
        const unsigned j = y.rows[i][k].j;
        double h = U[j][0];
        if (k > 0 && d[i][k] > 0.) {
          h = 0.5 * (U[i][0] + U[j][0]);
          for (int q = 0; q < int(y.c[i][k].dimension); ++q)
            h -= 0.5 / d[i][k] * y.c[i][k][q] * (U[j][1 + q] - U[i][1 + q]);
        }
        b.lo = std::min(b.lo, h);
        b.hi = std::max(b.hi, h);
      }
    }
    return B;
  }

  template <typename SysT, typename St>
  static void check(const SysT &y, const St &U, const Bounds &b,
                    const St &size, const std::string &where)
  {
    admissible(y, U, size[0], where);
    if (b.use)
      require(U[0] >= b.lo - 1e-11 * size[0] && U[0] <= b.hi + 1e-11 * size[0],
              where, ": depth ", U[0], " outside of [", b.lo, ", ", b.hi, "]");
  }

  template <typename SysT, typename St>
  static void admissible(const SysT &, const St &U, double hi,
                         const std::string &where)
  {
    require(U[0] >= -1e-12 * hi, where, ": depth ", U[0]);
    for (int q = 1; q < SysT::n_comp; ++q)
      require(std::isfinite(U[q]), where, ": momentum ", U[q]);
  }

  template <typename SysT>
  static std::vector<bool> conserved(const SysT &y, bool periodic)
  {
    std::vector<bool> r(y.n_comp, periodic && flat(y) && !friction(y));
    r[0] = true;
    return r;
  }

  template <typename SysT, typename SV>
  static auto flux(const SysT &y, const SV &sv, unsigned j)
  {
    const auto v = y.view();
    const auto U = std::get<0>(sv).get_tensor(j);
    std::array<typename SysT::Vec, SysT::n_comp> f;
    constexpr int dim = SysT::Vec::dimension;
    const double hs = v.water_depth_sharp(U);
    for (int d = 0; d < dim; ++d) {
      const double u = U[1 + d] * v.inverse_water_depth_sharp(U);
      f[0][d] = U[0] * u;
      for (int k = 0; k < dim; ++k)
        f[1 + k][d] =
            U[1 + k] * u + (k == d ? 0.5 * v.gravity() * U[0] * U[0] : 0.);
    }
    return f;
  }

  template <typename SysT, typename St>
  static std::array<double, 8> scale(const SysT &y, const St &U)
  {
    std::array<double, 8> r;
    double m = 0.;
    for (int q = 1; q < y.n_comp; ++q)
      m += U[q] * U[q];
    const double c = std::sqrt(y.view().gravity() * U[0]);
    r.fill(std::sqrt(m) + U[0] * c);
    r[0] = U[0] * (1. + std::sqrt(m) / (U[0] * c));
    return r;
  }

  template <typename SysT, typename St>
  static double decayed(const SysT &y, const St &before, const St &first, int q)
  {
    return q > 0 && friction(y) ? first[q] : before[q];
  }

  static std::vector<std::string> bcs()
  {
    return {"do nothing", "slip", "no slip", "dirichlet", "dynamic",
            "dirichlet momentum"};
  }
  static std::vector<std::string> walls() { return {"slip"}; }

  static std::string equation_prm(Src &s)
  {
    const bool friction = s.chance(0.4);
    if (friction)
      s.label("friction");
    return "subsection B - Equation\n" +
           prm_entry("gravity", s.pick({9.81, 1., 0.1})) +
           prm_entry("reference water depth", s.pick({1., 0.1, 10.})) +
           prm_entry("manning friction coefficient",
                     friction ? s.pick({0.03, 0.3, 2.}) : 0.) +
           "end\n";
  }

  static std::string module(Src &s, double relax, int it)
  {
    const bool a = s.chance(0.5), b = s.chance(0.5);
    return module_prm(
        s, relax, it,
        prm_entry("limit on kinetic energy", std::string(a ? "true" : "false")) +
            prm_entry("limit on square velocity",
                      std::string(b ? "true" : "false")));
  }

  template <int dim>
  static std::string initial_prm(Src &s)
  {
    std::string r = "subsection E - InitialValues\n  set configuration = "
                    "function\n  subsection function\n" +
                    prm_entry("water depth expression",
                              expression(s, dim, 0.5, 2.));
    const char *x[3] = {"x", "y", "z"};
    for (int d = 0; d < dim; ++d)
      r += prm_entry(std::string("velocity ") + x[d] + " expression",
                     expression(s, dim, -1.5, 1.5));
    return r + "  end\nend\n";
  }

  /* a bathymetry */
  template <typename SysT, int dim>
  static void prepare(Src &s, SysT &y, const Mesh<dim> &m)
  {
    const auto p = Profile::make(s, dim);
    const double a = s.pick({0., 0.1, 1., 3.}), b = s.pick({0., 0., -5., 100.});
    s.label(p.kind == 0 || a == 0. ? "flat" : "bathymetry");
    s.note("bathymetry",
           std::string(p.name()) + " " + str(a) + " above " + str(b));
    auto &z = const_cast<std::decay_t<decltype(y.hm.initial_precomputed())> &>(
        y.hm.initial_precomputed());
    for (unsigned i = 0; i < y.n; ++i)
      z.write_tensor(
          std::array<double, 1>{{b + a * p(y.pos[i], dim, m.lo, m.hi, i)}}, i);
    z.update_ghost_values();
  }

  template <typename SysT, int dim>
  static std::vector<typename SysT::state>
  field(Src &s, const SysT &y, const Mesh<dim> &m, const FieldOptions &o)
  {
    const auto v = y.view();
    const double span = s.chance(0.3) ? o.contrast : s.uniform(1., 4.);
    const double scale = s.pick({1., 1., 0.1, 30.});
    const double froude = s.pick({0., 0.5, 1., o.mach});
    const double dry = o.dry && s.chance(0.3) ? s.uniform(0.1, 0.8) : 0.;
    const double film = s.pick({0., 1e-14, 1e-8, 1e-3});
    const bool lake = o.lake;
    s.label(dry > 0. ? "dry" : span > 4. ? "strong" : "moderate");
    auto h = Profile::make(s, dim), wet = Profile::make(s, dim);
    std::array<Profile, dim> u;
    for (auto &q : u)
      q = Profile::make(s, dim);
    if (o.constant) {
      h.kind = wet.kind = 0;
      for (auto &q : u)
        q.kind = 0;
    }
    s.note("field", std::string("depth ") + h.name() + " " + str(span) +
                        (dry > 0. ? std::string(", dry ") + wet.name() + " " +
                                        str(film)
                                  : "") +
                        ", velocity " + u[0].name() + " Froude " + str(froude));
    if (h.kind)
      s.label("varying");
    std::vector<typename SysT::state> U(y.n);
    const double c = std::sqrt(v.gravity() * scale);
    double zmin = 1e300, zmax = -1e300;
    for (unsigned i = 0; i < y.n; ++i) {
      const double z = y.hm.initial_precomputed().get_tensor(i)[0];
      zmin = std::min(zmin, z);
      zmax = std::max(zmax, z);
    }
    double level = 0.;
    if (o.lake)
      level = s.chance(0.5) ? zmax + s.uniform(0.01, 3.)
                            : zmin + (zmax - zmin) * s.uniform(0.1, 1.);
    for (unsigned i = 0; i < y.n; ++i) {
      typename SysT::state W;
      auto f = [&](const Profile &q) { return q(y.pos[i], dim, m.lo, m.hi, i); };
      W[0] = scale * std::pow(span, f(h) - (span > 4. ? 1. : 0.));
      if (dry > 0. && f(wet) < dry)
        W[0] = film * scale;
      if (lake) {
        const double z = y.hm.initial_precomputed().get_tensor(i)[0];
        W[0] = std::max(0., level - z);
      } else
        for (int d = 0; d < dim; ++d)
          W[1 + d] = froude * c * (2. * f(u[d]) - 1.);
      U[i] = v.from_primitive_state(W);
    }
    return U;
  }
};

#include "sys_facets.h"

namespace
{
  /* a lake at rest stays at rest: any bathymetry, any mesh, closed or
     periodic, any explicit time integrator; with islands and dry shores for
     the low-order scheme (the high-order flux g H_i (H_j + Z_j - Z_i) is not
     balanced there) */
  template <typename Tr, int dim>
  void lake_at_rest(Src &s)
  {
    MeshOptions mo;
    mo.bcs = {"slip", "slip", "do nothing", "no slip"};
    const std::string scheme = s.pick(std::vector<std::string>{
        "erk 33", "ssprk 33", "erk 11", "erk 22", "erk 43", "erk 54",
        "ssprk 22"});
    s.label(scheme);
    const int it = int(s.pick({2, 1, 0, 0}));
    Setup<Tr, dim> z(s, mo, s.pick({1., 0., 4.}), it,
                     "subsection H - TimeIntegrator\n" +
                         prm_entry("time stepping scheme", scheme) + "end\n");
    auto &y = *z.y;
    s.label("iterations " + std::to_string(it));
    FieldOptions fo;
    fo.lake = true;
    auto v = z.random(s, fo, false);
    const auto before = y.get(*v);
    double depth = 0., Z = 0.;
    unsigned dry = 0;
    bool bottom = false;
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.constrained(i))
        continue;
      const double zi = y.hm.initial_precomputed().get_tensor(i)[0];
      Z = std::max(Z, std::abs(zi));
      bottom = bottom || zi != y.hm.initial_precomputed().get_tensor(0u)[0];
      depth = std::max(depth, before[i][0]);
      dry += before[i][0] == 0.;
    }
    pbt::discard_unless(depth > 0. && (dry == 0 || it == 0));
    s.label(dry ? "dry shores" : "wet");
    const double size = depth + Z;
    const double speed = std::sqrt(y.view().gravity() * depth);
    double t = z.t;
    const int steps = int(s.range(1, 3));
    double tol = 1e-10;
    for (int k = 0; k < steps; ++k) {
      t += y.ti.step(*v, t);
      /* roundoff grows with multistage schemes */
      tol *= k ? 100. : 1.;
      const auto U = y.get(*v);
      for (unsigned i = 0; i < y.n; ++i) {
        if (y.constrained(i))
          continue;
        close(U[i][0], before[i][0], tol * size, "step ", k, ": depth of node ",
              i, " of a lake at rest");
        for (int q = 1; q < y.n_comp; ++q)
          close(U[i][q], 0., tol * size * speed, "step ", k,
                ": momentum of node ", i, " of a lake at rest");
      }
    }
    s.nontrivial(bottom && y.n > 2);
  }
} // namespace

FACET("P14.lake", lake_at_rest, ShallowWaterTraits, 1, 800, 30000)
FACET("P14.lake", lake_at_rest, ShallowWaterTraits, 2, 800, 30000)

ALL_FACETS(ShallowWaterTraits, 1)
ALL_FACETS(ShallowWaterTraits, 2)

SYS_MAIN
