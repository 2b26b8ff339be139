// Initial states of scalar conservation equations.
#include "init.h"

struct Tr {
  using D = ryujin::ScalarConservation::Description;
  static constexpr const char *tag = "scalar";
  static constexpr bool has_momentum = false, has_bathymetry = false;
  static std::string equation(Src &, bool) { return ""; }
  template <int dim>
  static std::string probe(int, const std::string &e)
  {
    return prm_entry("expression", e);
  }
  template <int dim>
  static Config configuration(Src &)
  {
    return {};
  }
};

template <int dim>
void values(Src &s)
{
  using I = Inst<Tr::D, dim>;
  const auto f = Frame<dim>::shifted(s);
  const bool uniform = s.chance(0.2);
  const double a = s.sym(3.), b = s.sym(3.), c = s.sym(3.), e = s.sym(3.);
  std::array<double, 3> k{s.sym(2.), s.sym(2.), s.sym(2.)};
  static const char *n[] = {"x", "y", "z"};
  std::string par;
  if (uniform)
    par = prm_entry("primitive state", a);
  else {
    std::string arg = pbt::num(c) + " + " + pbt::num(e) + " * t";
    for (int d = 0; d < dim; ++d)
      arg += std::string(" + ") + pbt::num(k[d]) + " * " + n[d];
    par = prm_entry("expression",
                    pbt::num(a) + " + " + pbt::num(b) + " * sin(" + arg + ")");
  }
  s.label(uniform ? "uniform" : "function");
  auto y = I::make("", uniform ? "uniform" : "function", par, f);
  for (int i = 0; i < 16; ++i) {
    const double t = s.chance(0.6) ? s.uniform(0., 1.) : 0.;
    Pt<dim> X, x;
    double arg = c + e * t;
    for (int d = 0; d < dim; ++d) {
      X[d] = s.sym(2.);
      x[d] = X[d] + f.pos[d];
      arg += k[d] * X[d];
    }
    close((*y)(x, t)[0], uniform ? a : a + b * std::sin(arg), 1e-12, "value");
  }
  s.nontrivial();
}

#define SC_FACETS(dim)                                                         \
  PBT(std::string("P25.frame_scalar_") + #dim "d", 200, 10000,                 \
      (frame<Tr, dim>));                                                       \
  PBT(std::string("P25.values_scalar_") + #dim "d", 400, 20000, (values<dim>));

SC_FACETS(1)
SC_FACETS(2)
SC_FACETS(3)
UNIT_MAIN
