// Helpers shared by the harnesses that call single classes.
#pragma once

#include "pbt.h"

#include <compile_time_options.h>

#include <deal.II/base/mpi.h>
#include <deal.II/base/parameter_acceptor.h>
#include <deal.II/base/tensor.h>

using pbt::close;
using pbt::fail;
using pbt::require;
using pbt::Src;
using R = long double;

/* The program flushes denormals to zero, so do we. */
inline void flush_denormals()
{
#if defined(DENORMALS_ARE_ZERO) && defined(__x86_64)
  unsigned int mxcsr = __builtin_ia32_stmxcsr();
  mxcsr |= (1 << 6) | (1 << 15);
  __builtin_ia32_ldmxcsr(mxcsr);
#endif
}

/* Forget all declared parameters. The global handler also keeps every pattern
   ever declared (which makes declarations ever slower), so it is recreated. */
inline void fresh_parameters()
{
  dealii::ParameterAcceptor::clear();
  auto &p = dealii::ParameterAcceptor::prm;
  p.~ParameterHandler();
  new (&p) dealii::ParameterHandler();
}

inline void set_prm(const std::string &text)
{
  std::istringstream in(text);
  dealii::ParameterAcceptor::initialize(in);
}

inline std::string str(double x) { return pbt::num(x); }

template <int n>
std::string show(const dealii::Tensor<1, n, double> &t)
{
  std::string s = "(";
  for (int i = 0; i < n; ++i)
    s += (i ? " " : "") + pbt::num(t[i]);
  return s + ")";
}

template <std::size_t n>
std::string show(const std::array<double, n> &t)
{
  std::string s = "(";
  for (std::size_t i = 0; i < n; ++i)
    s += (i ? " " : "") + pbt::num(t[i]);
  return s + ")";
}

/* a unit vector; sometimes along an axis */
template <int dim>
dealii::Tensor<1, dim, double> unit_vector(Src &s)
{
  dealii::Tensor<1, dim, double> n;
  const long k = s.range(0, 2 * dim + 5);
  if (dim == 1 || k < 2 * dim) {
    n[k % dim] = (k / dim) % 2 ? -1. : 1.;
    return n;
  }
  if constexpr (dim == 2) {
    const double p = s.uniform(0., 2. * M_PI);
    n[0] = std::cos(p);
    n[1] = std::sin(p);
  } else if constexpr (dim == 3) {
    const double p = s.uniform(0., 2. * M_PI);
    const double z = s.uniform(-1., 1.);
    const double r = std::sqrt(1. - z * z);
    n[0] = r * std::cos(p);
    n[1] = r * std::sin(p);
    n[2] = z;
  }
  return n / n.norm();
}

/* a random rotation or reflection */
template <int dim>
dealii::Tensor<2, dim, double> orthogonal(Src &s)
{
  dealii::Tensor<2, dim, double> Q;
  for (int d = 0; d < dim; ++d)
    Q[d][d] = 1.;
  /* product of Householder reflections */
  const long k = s.range(1, 3);
  for (long i = 0; i < k; ++i) {
    const auto n = unit_vector<dim>(s);
    dealii::Tensor<2, dim, double> H;
    for (int a = 0; a < dim; ++a)
      for (int b = 0; b < dim; ++b)
        H[a][b] = (a == b) - 2. * n[a] * n[b];
    Q = H * Q;
  }
  return Q;
}

inline std::string prm_entry(const std::string &k, const std::string &v)
{
  return "  set " + k + " = " + v + "\n";
}

inline std::string prm_entry(const std::string &k, double v)
{
  return prm_entry(k, pbt::num(v));
}

/* Gradient of a scalar function of n variables in long double, central
   differences with one Richardson extrapolation.  */
template <int n, typename F>
std::array<R, n> gradient(const F &fn, const std::array<R, n> &x,
                          const std::array<R, n> &scale)
{
  std::array<R, n> g;
  for (int k = 0; k < n; ++k) {
    auto d = [&](R h) {
      auto a = x, b = x;
      a[k] += h;
      b[k] -= h;
      return (fn(a) - fn(b)) / (2 * h);
    };
    const R h = scale[k] * 1e-4L;
    g[k] = (4 * d(h / 2) - d(h)) / 3;
  }
  return g;
}

#define UNIT_MAIN                                                              \
  int main(int argc, char **argv)                                              \
  {                                                                            \
    flush_denormals();                                                         \
    dealii::Utilities::MPI::MPI_InitFinalize mpi(argc, argv, 1);               \
    return pbt::main_loop(argc, argv);                                         \
  }
