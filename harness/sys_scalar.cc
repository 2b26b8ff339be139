#include "sys_traits.h"

struct ScalarTraits {
  using D = ryujin::ScalarConservation::Description;
  static constexpr const char *tag = "scalar";
  static constexpr bool positive = false;

  static constexpr bool strict = false;
  static constexpr bool flat_flux = true;
  /* components whose boundary flux is the flux of the nodal states */
  static constexpr int balanced = 100;
  static constexpr double step_tol = 1e-6;

  template <typename SysT>
  static bool friction(const SysT &)
  {
    return false;
  }

  template <typename SysT>
  static void flatten(SysT &)
  {
  }

  struct Bounds {
    double lo = 1e300, hi = -1e300;
    void merge(const Bounds &o)
    {
      lo = std::min(lo, o.lo);
      hi = std::max(hi, o.hi);
    }
  };

  /* the maximum principle: only values of the neighbors */
  template <typename SysT, typename SV>
  static std::vector<Bounds> bounds(const SysT &y, const SV &old,
                                    const std::vector<std::vector<double>> &)
  {
    const auto U = y.get(old);
    std::vector<Bounds> B(y.n);
    for (unsigned i = 0; i < y.n; ++i)
      for (auto &e : y.rows[i]) {
        B[i].lo = std::min(B[i].lo, U[e.j][0]);
        B[i].hi = std::max(B[i].hi, U[e.j][0]);
      }
    return B;
  }

  template <typename SysT, typename St>
  static void check(const SysT &, const St &U, const Bounds &b,
                    const St &size, const std::string &where)
  {
    /* wave speeds come from difference quotients */
    require(U[0] >= b.lo - tol * size[0] && U[0] <= b.hi + tol * size[0], where,
            ": ", U[0], " outside of [", b.lo, ", ", b.hi, "]");
  }
  static constexpr double tol = 1e-11;

  template <typename SysT, typename St>
  static void admissible(const SysT &, const St &U, double,
                         const std::string &where)
  {
    require(std::isfinite(U[0]), where, ": value ", U[0]);
  }

  template <typename SysT>
  static std::vector<bool> conserved(const SysT &, bool periodic)
  {
    return {periodic};
  }

  template <typename SysT, typename SV>
  static auto flux(const SysT &y, const SV &sv, unsigned j)
  {
    const auto v = y.view();
    std::array<typename SysT::Vec, 1> f;
    f[0] = v.flux_function(std::get<0>(sv).get_tensor(j)[0]);
    return f;
  }

  template <typename SysT, typename St>
  static std::array<double, 8> scale(const SysT &y, const St &U)
  {
    std::array<double, 8> r;
    const auto v = y.view();
    r.fill(1. + std::abs(U[0]) + v.flux_function(U[0]).norm());
    return r;
  }

  template <typename SysT, typename St>
  static double decayed(const SysT &, const St &before, const St &, int q)
  {
    return before[q];
  }

  static std::vector<std::string> bcs() { return {"do nothing", "dirichlet"}; }
  static std::vector<std::string> walls() { return {"do nothing"}; }

  static std::string equation_prm(Src &s)
  {
    const std::string f = s.pick(std::vector<std::string>{
        "burgers", "kpp2", "linear", "mixed"});
    s.label(f);
    std::string r = "subsection B - Equation\n";
    if (f == "burgers")
      r += prm_entry("flux", std::string("burgers"));
    else {
      r += prm_entry("flux", std::string("function")) + "subsection function\n";
      r += prm_entry("derivative approximation delta", 1e-8);
      if (f == "kpp2")
        r += prm_entry("expression", "sin(u) ; cos(u) ; 0.5 * sin(u)");
      else if (f == "linear")
        r += prm_entry("expression", str(s.sym(2.)) + " * u ; " +
                                         str(s.sym(2.)) + " * u ; 0.5 * u");
      else
        r += prm_entry("expression",
                       "0.5 * u * u ; " + str(s.sym(1.)) +
                           " * u * u * u - u ; u * u * (1. - u)");
      r += "end\n";
    }
    return r + "end\n";
  }

  static std::string module(Src &s, double relax, int it)
  {
    const bool a = s.chance(0.5);
    return module_prm(s, relax, it, "",
                      prm_entry("use greedy wavespeed", std::string("false")) +
                          prm_entry("use averaged entropy",
                                    std::string(a ? "true" : "false")));
  }

  template <int dim>
  static std::string initial_prm(Src &s)
  {
    return "subsection E - InitialValues\n  set configuration = function\n  "
           "subsection function\n" +
           prm_entry("expression", expression(s, dim, -1., 2.)) +
           "  end\nend\n";
  }

  template <typename SysT, int dim>
  static void prepare(Src &, SysT &, const Mesh<dim> &)
  {
  }

  template <typename SysT, int dim>
  static std::vector<typename SysT::state>
  field(Src &s, const SysT &y, const Mesh<dim> &m, const FieldOptions &o)
  {
    auto p = Profile::make(s, dim);
    const double a = s.pick({1., 4., 0.01}), b = s.pick({0., -1., 1.5});
    if (o.constant)
      p.kind = 0;
    s.note("field", std::string(p.name()) + " " + str(b) + ".." + str(a + b));
    if (p.kind)
      s.label("varying");
    std::vector<typename SysT::state> U(y.n);
    for (unsigned i = 0; i < y.n; ++i)
      U[i][0] = b + a * p(y.pos[i], dim, m.lo, m.hi, i);
    return U;
  }
};

#include "sys_facets.h"

ALL_FACETS(ScalarTraits, 1)
ALL_FACETS(ScalarTraits, 2)
ALL_FACETS(ScalarTraits, 3)

SYS_MAIN
