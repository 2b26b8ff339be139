// What differs between the equations: parameters, boundary conditions, and
// the generator of discrete fields.
#pragma once

#include "sys.h"

/* A profile with values in [0,1], as a function of position and node. */
struct Profile {
  int kind = 0; // 0 constant, 1 sine, 2 step, 3 random, 4 bump, 5 two-valued
  double k[3] = {0, 0, 0}, phase = 0, level = 0.5;
  uint64_t seed = 0;

  static Profile make(Src &s, int dim)
  {
    Profile p;
    p.kind = int(s.range(0, 5));
    p.level = s.unit();
    if (p.kind == 0)
      return p;
    for (int d = 0; d < dim; ++d)
      p.k[d] = s.chance(0.7) ? double(s.range(-3, 3)) : 0.;
    p.phase = s.uniform(0., 2. * M_PI);
    p.seed = uint64_t(s.range(0, 1000000));
    return p;
  }

  template <typename P>
  double operator()(const P &x, int dim, const double *lo, const double *hi,
                    uint64_t node) const
  {
    auto rnd = [&](uint64_t salt) {
      return double(pbt::mix(pbt::mix(seed + 77 * salt) + node) >> 11) *
             0x1.0p-53;
    };
    double arg = phase;
    double r2 = 0.;
    for (int d = 0; d < dim; ++d) {
      const double y = (x[d] - lo[d]) / (hi[d] - lo[d]);
      arg += 2. * M_PI * k[d] * y;
      const double z = y - 0.5 - 0.1 * k[d];
      r2 += z * z;
    }
    switch (kind) {
    case 1:
      return 0.5 + 0.5 * std::sin(arg);
    case 2:
      return std::sin(arg) > 0. ? 1. : 0.;
    case 3:
      return rnd(0);
    case 4:
      return std::exp(-20. * r2);
    case 5:
      return rnd(1) < level ? 1. : 0.;
    default:
      return level;
    }
  }

  const char *name() const
  {
    static const char *n[] = {
        "constant", "sine", "step", "random", "bump", "two-valued"};
    return n[kind];
  }
};

/* a function expression with values in [a,b] */
inline std::string expression(Src &s, int dim, double a, double b)
{
  const char *x[3] = {"x", "y", "z"};
  std::string arg = pbt::num(s.uniform(0., 3.));
  for (int d = 0; d < dim; ++d)
    arg += " + " + pbt::num(s.uniform(-2., 2.)) + " * " + x[d];
  if (s.chance(0.7))
    arg += " + " + pbt::num(s.uniform(0., 5.)) + " * t";
  return pbt::num(0.5 * (a + b)) + " + " + pbt::num(0.5 * (b - a)) + " * sin(" +
         arg + ")";
}

inline std::string module_prm(Src &s, double relax, int iterations,
                              const std::string &more_limiter = "",
                              const std::string &riemann = "")
{
  return "subsection F - HyperbolicModule\n  subsection indicator\n" +
         prm_entry("evc factor", s.pick({1., 0., 0.25, 5.})) +
         "  end\n  subsection limiter\n" +
         prm_entry("iterations", double(iterations)) +
         prm_entry("relaxation factor", relax) + more_limiter +
         "  end\n  subsection riemann solver\n" + riemann + "  end\nend\n";
}

struct FieldOptions {
  double contrast = 1e3; // largest ratio of densities, pressures
  double mach = 3.;
  bool constant = false;
  bool dry = true;
  bool lake = false;
};
