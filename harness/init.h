// The library of initial states, used through InitialValues.
#pragma once

#include "unit.h"

#include <description.h>
#include <discretization.h>
#include <initial_values.h>
#include <offline_data.h>

#include <deal.II/base/multithread_info.h>

#include <memory>

namespace rj = ryujin;

inline const MPI_Comm &world()
{
  static const MPI_Comm c = MPI_COMM_WORLD;
  return c;
}

template <int dim>
using Pt = dealii::Point<dim>;
template <int dim>
using VecD = dealii::Tensor<1, dim, double>;

template <int dim>
std::string list(const VecD<dim> &v)
{
  std::string r;
  for (int d = 0; d < dim; ++d)
    r += (d ? ", " : "") + pbt::num(v[d]);
  return r;
}

inline std::string list(std::initializer_list<double> v)
{
  std::string r;
  for (double x : v)
    r += (r.empty() ? "" : ", ") + pbt::num(x);
  return r;
}

/* direction and position of a configuration */
template <int dim>
struct Frame {
  VecD<dim> dir;
  Pt<dim> pos;
  Frame()
  {
    dir[0] = 1.;
  }
  static Frame shifted(Src &s)
  {
    Frame f;
    if (s.chance(0.5))
      for (int d = 0; d < dim; ++d)
        f.pos[d] = s.sym(3.);
    return f;
  }
};

template <typename D, int dim>
struct Inst {
  using HS = typename D::HyperbolicSystem;
  using View = typename D::template HyperbolicSystemView<dim, double>;
  using state = typename View::state_type;

  HS hs;
  rj::Discretization<dim> disc;
  rj::OfflineData<dim, double> off;
  rj::InitialValues<D, dim, double> iv;

  Inst()
      : hs("/B - Equation")
      , disc(world(), "/C - Discretization")
      , off(world(), disc, "/D - OfflineData")
      , iv(hs, off, "/E - InitialValues")
  {
  }

  auto view() const { return hs.template view<dim, double>(); }

  /* parameters of the equation, name and parameters of the configuration */
  static std::unique_ptr<Inst> make(const std::string &equation,
                                    const std::string &name,
                                    const std::string &parameters,
                                    const Frame<dim> &f = {},
                                    double perturbation = 0.)
  {
    fresh_parameters();
    auto r = std::make_unique<Inst>();
    const std::string text =
        "subsection B - Equation\n" + equation +
        "end\nsubsection E - InitialValues\n" +
        prm_entry("configuration", name) + prm_entry("direction", list<dim>(f.dir)) +
        prm_entry("position", list<dim>(f.pos)) +
        prm_entry("perturbation", perturbation) + "subsection " + name + "\n" +
        parameters + "end\nend\n";
    set_prm(text);
    return r;
  }

  state operator()(const Pt<dim> &x, double t) const
  {
    return iv.initial_state(x, t);
  }

  /* point with the first coordinate xi in the frame of the configuration */
  state at(const Frame<dim> &f, double xi, double t) const
  {
    Pt<dim> x = f.pos;
    x[0] += xi;
    return iv.initial_state(x, t);
  }
};

/* -------------------------------------------------------- adaptive quadrature */

template <typename V>
double magnitude(const V &v)
{
  double m = 0.;
  for (int k = 0; k < V::dimension; ++k)
    m = std::max(m, std::abs(v[k]));
  return m;
}

template <typename V, typename F>
V simpson(const F &f, double a, double b, const V &fa, const V &fm, const V &fb,
          double tol, int depth)
{
  const double m = 0.5 * (a + b);
  const V fl = f(0.5 * (a + m)), fr = f(0.5 * (m + b));
  const V whole = (b - a) / 6. * (fa + 4. * fm + fb);
  const V halves =
      (m - a) / 6. * (fa + 4. * fl + fm) + (b - m) / 6. * (fm + 4. * fr + fb);
  if (depth <= 0 || magnitude(V(whole - halves)) <= tol)
    return halves;
  return simpson(f, a, m, fa, fl, fm, 0.5 * tol, depth - 1) +
         simpson(f, m, b, fm, fr, fb, 0.5 * tol, depth - 1);
}

/* integral of a piecewise smooth function */
template <typename V, typename F>
V integral(const F &f, double a, double b, double tol, int parts = 64)
{
  V r;
  V f0 = f(a);
  for (int i = 0; i < parts; ++i) {
    const double x0 = a + (b - a) * i / parts, x1 = a + (b - a) * (i + 1) / parts;
    const V f1 = f(x1);
    r += simpson<V>(f, x0, x1, f0, f(0.5 * (x0 + x1)), f1, tol / parts, 30);
    f0 = f1;
  }
  return r;
}

/* derivative by central differences of fourth order */
template <typename V, typename F>
V derivative(const F &f, double h)
{
  return (8. * (f(h) - f(-h)) - (f(2. * h) - f(-2. * h))) / (12. * h);
}

/* ---------------------------------------------------------- frame of reference */

/* a direction that is not normalised */
template <int dim>
Frame<dim> random_frame(Src &s)
{
  Frame<dim> f;
  for (int d = 0; d < dim; ++d)
    f.pos[d] = s.sym(3.);
  if (dim > 1) {
    f.dir = unit_vector<dim>(s);
    if (dim == 3 && s.chance(0.2))
      f.dir[s.range(0, 2)] = 0.;
    if (f.dir.norm() < 0.1)
      f.dir = unit_vector<dim>(s);
    if (f.dir.norm() < 0.1)
      f.dir[0] = 1.;
    f.dir *= s.pick({1., 1., 2., 0.3});
  } else
    f.dir[0] = s.pick({1., 1., 2.});
  return f;
}

template <int dim>
Pt<dim> random_point(Src &s, const Frame<dim> &f, double r = 2.)
{
  Pt<dim> p = f.pos;
  for (int d = 0; d < dim; ++d)
    p[d] += s.sym(r);
  return p;
}

/* Everything about one configuration of a library: a generator of parameters
   and the range of positions and times where it is used. */
struct Config {
  std::string equation, name, parameters;
  double size = 2.; // positions
  double t_max = 1.;
};

/*
 * The probe: configurations of the "function" state reveal the transformation
 * of points (density = 100 + x_k) and of vectors (velocity = e_k).
 */
template <int dim>
struct Transformation {
  Frame<dim> f;
  dealii::Tensor<2, dim, double> R; // columns: images of the unit vectors
  Pt<dim> back(const Pt<dim> &p) const
  {
    Pt<dim> r;
    for (int a = 0; a < dim; ++a)
      for (int b = 0; b < dim; ++b)
        r[a] += R[b][a] * (p[b] - f.pos[b]);
    return r;
  }
  VecD<dim> forward(const VecD<dim> &v) const { return R * v; }
};

template <typename Tr, int dim>
void frame(Src &s)
{
  using I = Inst<typename Tr::D, dim>;
  Transformation<dim> T;
  T.f = random_frame<dim>(s);
  s.note("direction", list<dim>(T.f.dir));
  s.note("position", list<dim>(T.f.pos));
  const auto n = T.f.dir / T.f.dir.norm();

  std::array<Pt<dim>, 3> p;
  std::array<VecD<dim>, 3> q;
  for (auto &x : p)
    x = random_point<dim>(s, T.f);
  static const char *names[] = {"x", "y", "z"};

  for (int k = 0; k < dim; ++k) {
    auto y = I::make(Tr::equation(s, true), "function",
                     Tr::template probe<dim>(k, std::string("100. + ") + names[k]),
                     T.f);
    for (int i = 0; i < 3; ++i) {
      const auto U = (*y)(p[i], 0.);
      q[i][k] = U[0] - 100.;
      if constexpr (Tr::has_momentum)
        for (int d = 0; d < dim; ++d)
          T.R[d][k] = U[1 + d] / U[0];
    }
  }

  /* positions: rigid, and the direction is the first axis */
  for (int i = 0; i < 3; ++i) {
    const VecD<dim> x = p[i] - T.f.pos;
    close(q[i][0], x * n, 1e-11, "first coordinate in the frame");
    close(q[i].norm(), x.norm(), 1e-11, "distance from the position");
    for (int j = 0; j < i; ++j)
      close(q[i] * q[j], x * VecD<dim>(p[j] - T.f.pos), 1e-10, "angles");
  }

  if constexpr (Tr::has_momentum) {
    for (int a = 0; a < dim; ++a) {
      close(T.R[a][0], n[a], 1e-12, "image of the first axis, component ", a);
      for (int b = 0; b < dim; ++b) {
        double dot = 0.;
        for (int c = 0; c < dim; ++c)
          dot += T.R[c][a] * T.R[c][b];
        close(dot, a == b, 1e-12, "images of the unit vectors ", a, " ", b);
      }
    }
    close(determinant(T.R), 1., 1e-11, "orientation");
    for (int i = 0; i < 3; ++i) {
      const auto x = T.back(p[i]);
      for (int d = 0; d < dim; ++d)
        close(q[i][d], x[d], 1e-11, "points and vectors are turned differently, ",
              "coordinate ", d);
    }

    /* any other configuration */
    const Config c = Tr::template configuration<dim>(s);
    s.label(c.name);
    s.note("configuration", c.name);
    const double t = s.chance(0.5) ? s.uniform(0., c.t_max) : 0.;
    std::array<Pt<dim>, 8> P;
    for (auto &x : P)
      x = random_point<dim>(s, T.f, c.size);
    std::array<typename I::state, 8> A;
    std::array<double, 8> za{};
    {
      auto y = I::make(c.equation, c.name, c.parameters, T.f);
      for (int i = 0; i < 8; ++i) {
        A[i] = (*y)(P[i], t);
        if constexpr (Tr::has_bathymetry)
          za[i] = y->iv.initial_precomputed(P[i])[0];
      }
    }
    Frame<dim> id;
    auto y = I::make(c.equation, c.name, c.parameters, id);
    for (int i = 0; i < 8; ++i) {
      const auto X = T.back(P[i]);
      /* leave out points close to a front: they move by roundoff */
      auto B = (*y)(X, t);
      bool front = false;
      double size = 0.;
      for (int k = 0; k < 2 * dim; ++k) {
        auto Y = X;
        Y[k / 2] += k % 2 ? 1e-7 : -1e-7;
        const auto C = (*y)(Y, t);
        for (int a = 0; a < int(I::state::dimension); ++a) {
          size = std::max(size, std::abs(B[a]));
          front = front || !(std::abs(C[a] - B[a]) <=
                             1e-4 * (std::abs(B[a]) + std::abs(C[a])) + 1e-5 * size);
        }
      }
      if (front) {
        s.count("points at a front");
        continue;
      }
      s.count("points");
      VecD<dim> m;
      for (int d = 0; d < dim; ++d)
        m[d] = B[1 + d];
      m = T.forward(m);
      for (int d = 0; d < dim; ++d)
        B[1 + d] = m[d];
      for (int a = 0; a < int(I::state::dimension); ++a) {
        if (!std::isfinite(A[i][a]) || !std::isfinite(B[a]))
          fail(c.name, ": state is not finite");
        close(A[i][a], B[a], 1e-9 * size + 1e-13, c.name, ": component ", a,
              " of the turned configuration");
      }
      if constexpr (Tr::has_bathymetry) {
        const double z = y->iv.initial_precomputed(X)[0];
        close(za[i], z, 1e-8 * (1. + std::abs(z)), c.name, ": bathymetry");
      }
      s.nontrivial();
    }
  } else
    s.nontrivial();
}

/* A balance law along the first axis:
   int_a^b U(t2) - U(t1) dx + int_t1^t2 F(b) - F(a) dt = 0. */
template <typename V, typename U, typename F>
void weak_balance(const U &u, const F &flux, double a, double b, double t1,
                  double t2, double tol, const std::string &what)
{
  auto size = [&](auto &&g, double p, double q) {
    V r;
    for (int i = 0; i <= 50; ++i) {
      const V v = g(p + (q - p) * i / 50.);
      for (int k = 0; k < V::dimension; ++k)
        r[k] = std::max(r[k], std::abs(v[k]));
    }
    return r;
  };
  auto fa = [&](double t) { return flux(u(a, t)); };
  auto fb = [&](double t) { return flux(u(b, t)); };
  auto u1 = [&](double x) { return u(x, t1); };
  auto u2 = [&](double x) { return u(x, t2); };
  const V scale = (size(u1, a, b) + size(u2, a, b)) * (b - a) +
                  (size(fa, t1, t2) + size(fb, t1, t2)) * (t2 - t1);
  const double largest = magnitude(scale);
  auto scaled = [&](auto &&g) {
    return [&scale, largest, g](double x) {
      V r = g(x);
      for (int k = 0; k < V::dimension; ++k)
        r[k] /= std::max(scale[k], 1e-12 * largest);
      return r;
    };
  };
  const double q = 1e-2 * tol;
  const V balance = integral<V>(scaled(u2), a, b, q) -
                    integral<V>(scaled(u1), a, b, q) +
                    integral<V>(scaled(fb), t1, t2, q) -
                    integral<V>(scaled(fa), t1, t2, q);
  for (int k = 0; k < V::dimension; ++k)
    close(balance[k], 0., tol, what, ": relative balance of component ", k,
          " on [", a, ", ", b, "] x [", t1, ", ", t2, "]");
}
