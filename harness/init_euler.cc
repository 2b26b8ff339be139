#include "init_gas.h"

struct Tr {
  using D = ryujin::Euler::Description;
  static constexpr const char *tag = "euler";
  static constexpr bool has_momentum = true, has_bathymetry = false,
                        have_gamma = true;

  static std::string gas(double gamma, double)
  {
    return prm_entry("gamma", gamma);
  }
  static std::string equation(Src &, bool) { return gas(1.4, 0.); }

  template <int dim>
  static std::string probe(int k, const std::string &e)
  {
    static const char *n[] = {"x", "y", "z"};
    std::string r = prm_entry("density expression", e);
    for (int d = 0; d < dim; ++d)
      r += prm_entry(std::string("velocity ") + n[d] + " expression",
                     d == k ? "1." : "0.");
    return r;
  }

  template <int dim>
  static Config configuration(Src &s)
  {
    return gas_configuration<Tr, dim>(s);
  }
};

GAS_FACETS(Tr, 1)
GAS_FACETS(Tr, 2)
GAS_FACETS(Tr, 3)
UNIT_MAIN
