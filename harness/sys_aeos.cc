#include "sys_traits.h"

struct AeosTraits {
  using D = ryujin::EulerAEOS::Description;
  static constexpr const char *tag = "euler_aeos";
  static constexpr bool positive = true;

  static constexpr bool strict = false;
  static constexpr bool flat_flux = true;
  /* components whose boundary flux is the flux of the nodal states */
  static constexpr int balanced = 100;
  static constexpr double step_tol = 1e-9;

  template <typename SysT>
  static bool friction(const SysT &)
  {
    return false;
  }

  template <typename SysT>
  static void flatten(SysT &)
  {
  }

  struct Bounds {
    double lo = 1e300, hi = 0., s = 1e300, g = 1e300, g_max = 0.;
    void merge(const Bounds &o)
    {
      lo = std::min(lo, o.lo);
      hi = std::max(hi, o.hi);
      s = std::min(s, o.s);
      g_max = std::max({g_max, g, o.g});
      g = std::min(g, o.g);
    }
    /* entropies for different gamma are compared at the smallest density */
    double entropy() const
    {
      return g_max > g ? s * std::min(1., std::pow(std::max(lo, 0.), g_max - g))
                       : s;
    }
  };

  /* density of the bar states, entropy of the neighbors */
  template <typename SysT, typename SV>
  static std::vector<Bounds> bounds(const SysT &y, const SV &old,
                                    const std::vector<std::vector<double>> &d)
  {
    const auto v = y.view();
    const auto U = y.get(old);
    std::vector<Bounds> B(y.n);
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.constrained(i))
        continue;
      auto &b = B[i];
      auto gamma = [&](unsigned j) {
        return v.surrogate_gamma(
            U[j], std::get<1>(old).get_tensor(j)[0]);
      };
      for (auto &e : y.rows[i])
        b.g = std::min(b.g, gamma(e.j));
      for (unsigned k = 0; k < y.rows[i].size(); ++k) {
        const unsigned j = y.rows[i][k].j;
        const bool strict = v.compute_strict_bounds();
        b.s = std::min(b.s, strict ? v.surrogate_specific_entropy(U[j], b.g)
                                   : std::get<1>(old).get_tensor(j)[2]);
        if (k > 0 && d[i][k] > 0.) {
          /* the code promises the entropy of the bar states */
          const auto &pre = std::get<1>(old);
          const auto fl = [&](unsigned a) {
            return v.flux_contribution(pre, y.hm.initial_precomputed(), a, U[a]);
          };
          const auto bar =
              0.5 * (U[i] + U[j]) +
              0.5 / d[i][k] * v.flux_divergence(fl(i), fl(j), y.c[i][k]) +
              1. / d[i][k] * ryujin::contract(fl(i), y.c[i][k]);
          b.s = std::min(b.s, v.surrogate_specific_entropy(bar, b.g));
        }
        double rho = U[j][0];
        if (k > 0 && d[i][k] > 0.) {
          rho = 0.5 * (U[i][0] + U[j][0]);
          for (int q = 0; q < int(y.c[i][k].dimension); ++q)
            rho -= 0.5 / d[i][k] * y.c[i][k][q] * (U[j][1 + q] - U[i][1 + q]);
        }
        b.lo = std::min(b.lo, rho);
        b.hi = std::max(b.hi, rho);
      }
    }
    return B;
  }

  template <typename SysT, typename St>
  static void check(const SysT &y, const St &U, const Bounds &b,
                    const St &size, const std::string &where)
  {
    const auto v = y.view();
    require(U[0] > 0. && U[0] >= b.lo - 1e-11 * size[0] &&
                U[0] <= b.hi + 1e-11 * size[0],
            where, ": density ", U[0], " outside of [", b.lo, ", ", b.hi, "]");
    const double e = v.internal_energy(U);
    const int E = y.n_comp - 1;
    const double cond = size[E] / std::abs(e) + size[0] / U[0];
    if (cond > 1e8)
      return;
    
    const double s = v.surrogate_specific_entropy(U, b.g);
    const double s_min = b.entropy();
    require(s >= s_min - std::abs(s_min) * (1e-8 + 1e-12 * cond), where,
            ": specific entropy ", s, " below the local minimum ", s_min,
            " (relative ", (s_min - s) / s_min, ")");
  }

  template <typename SysT, typename St>
  static void admissible(const SysT &y, const St &U, double hi,
                         const std::string &where)
  {
    require(U[0] > 0., where, ": density ", U[0]);
    require(y.view().is_admissible(U), where, ": state is not admissible, ",
            U, " internal energy ", y.view().internal_energy(U));
  }

  template <typename SysT>
  static std::vector<bool> conserved(const SysT &y, bool periodic)
  {
    std::vector<bool> r(y.n_comp, periodic);
    r[0] = r[y.n_comp - 1] = true;
    return r;
  }

  template <typename SysT, typename SV>
  static auto flux(const SysT &y, const SV &sv, unsigned j)
  {
    const auto v = y.view();
    const auto U = std::get<0>(sv).get_tensor(j);
    const double p = std::get<1>(sv).get_tensor(j)[0];
    std::array<typename SysT::Vec, SysT::n_comp> f;
    constexpr int dim = SysT::Vec::dimension;
    for (int d = 0; d < dim; ++d) {
      const double u = U[1 + d] / U[0];
      f[0][d] = U[1 + d];
      for (int k = 0; k < dim; ++k)
        f[1 + k][d] = U[1 + k] * u + (k == d ? p : 0.);
      f[dim + 1][d] = (U[dim + 1] + p) * u;
    }
    return f;
  }

  template <typename SysT, typename St>
  static std::array<double, 8> scale(const SysT &y, const St &U)
  {
    std::array<double, 8> r;
    const auto v = y.view();
    double m = 0.;
    for (int q = 1; q < y.n_comp - 1; ++q)
      m += U[q] * U[q];
    const double e = std::abs(U[y.n_comp - 1]);
    r.fill(std::sqrt(m) + std::sqrt(e * U[0]));
    r[0] = U[0] * (1. + std::sqrt(m / (e * U[0])));
    r[y.n_comp - 1] = 2. * e;
    return r;
  }

  template <typename SysT, typename St>
  static double decayed(const SysT &, const St &before, const St &, int q)
  {
    return before[q];
  }

  static std::vector<std::string> bcs()
  {
    return {"do nothing", "slip", "no slip", "dirichlet"};
  }
  static std::vector<std::string> walls() { return {"slip"}; }

  static std::string equation_prm(Src &s)
  {
    const std::string e = s.pick(std::vector<std::string>{
        "polytropic gas", "noble abel stiffened gas", "van der waals"});
    s.label(e);
    std::string r =
        "subsection B - Equation\n" + prm_entry("equation of state", e) +
        prm_entry("compute strict bounds",
                  std::string(s.chance(0.5) ? "false" : "true")) +
        "subsection " + e + "\n" +
        prm_entry("gamma", s.pick({1.4, 1.1, 5. / 3.}));
    if (e[0] == 'n')
      r += prm_entry("covolume b", s.pick({0., 1e-4})) +
           prm_entry("reference specific internal energy", s.pick({0., -1.})) +
           prm_entry("reference pressure", s.pick({0., 1.}));
    else if (e[0] == 'v') {
      /* a / b^2 must stay well below rho e; without the offset a / b^2 of the
         interpolation (b = 0) negative pressures are not supported */
      const double b = s.pick({0., 1e-3});
      r += prm_entry("covolume b", b) +
           prm_entry("vdw a", b > 0. ? s.pick({0., 2e-7}) : 0.);
    }
    return r + "end\nend\n";
  }

  static std::string module(Src &s, double relax, int it)
  {
    return module_prm(s, relax, it);
  }

  template <int dim>
  static std::string initial_prm(Src &s)
  {
    std::string r = "subsection E - InitialValues\n  set configuration = "
                    "function\n  subsection function\n" +
                    prm_entry("density expression", expression(s, dim, 0.5, 2.)) +
                    prm_entry("pressure expression", expression(s, dim, 0.5, 2.));
    const char *x[3] = {"x", "y", "z"};
    for (int d = 0; d < dim; ++d)
      r += prm_entry(std::string("velocity ") + x[d] + " expression",
                     expression(s, dim, -1.5, 1.5));
    return r + "  end\nend\n";
  }

  template <typename SysT, int dim>
  static void prepare(Src &, SysT &, const Mesh<dim> &)
  {
  }

  template <typename SysT, int dim>
  static std::vector<typename SysT::state>
  field(Src &s, const SysT &y, const Mesh<dim> &m, const FieldOptions &o)
  {
    const auto v = y.view();
    const double span = s.chance(0.3) ? std::min(o.contrast, 100.)
                                      : s.uniform(1., 4.);
    const double span_p = s.chance(0.3) ? std::min(o.contrast, 100.)
                                        : s.uniform(1., 4.);
    const double mach = s.pick({0., 0.5, 1., o.mach});
    s.label(span > 4. || span_p > 4. ? "strong" : "moderate");
    auto rho = Profile::make(s, dim), p = Profile::make(s, dim);
    std::array<Profile, dim> u;
    for (auto &q : u)
      q = Profile::make(s, dim);
    if (o.constant) {
      rho.kind = p.kind = 0;
      for (auto &q : u)
        q.kind = 0;
    }
    s.note("field", std::string("density ") + rho.name() + " " + str(span) +
                        ", pressure " + p.name() + " " + str(span_p) +
                        ", velocity " + u[0].name() + " Mach " + str(mach));
    if (rho.kind || p.kind)
      s.label("varying");
    std::vector<typename SysT::state> U(y.n);
    for (unsigned i = 0; i < y.n; ++i) {
      typename SysT::state W;
      auto f = [&](const Profile &q) { return q(y.pos[i], dim, m.lo, m.hi, i); };
      W[0] = std::pow(span, f(rho));
      for (int d = 0; d < dim; ++d)
        W[1 + d] = mach * 1.2 * (2. * f(u[d]) - 1.);
      W[dim + 1] = std::pow(span_p, f(p));
      U[i] = v.from_initial_state(W);
    }
    return U;
  }
};

#include "sys_facets.h"

ALL_FACETS(AeosTraits, 1)
ALL_FACETS(AeosTraits, 2)
ALL_FACETS(AeosTraits, 3)

SYS_MAIN
