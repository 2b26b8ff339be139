// The parabolic (Navier-Stokes) step against its variational formulation.
#include "traits_euler.h"

#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <cstring>
#include <functional>

#include <deal.II/base/quadrature_lib.h>
#include <deal.II/fe/fe_values.h>

#include "sys_facets.h"

struct NSTraits : EulerTraits {
  using D = ryujin::NavierStokes::Description;
  static constexpr const char *tag = "ns";

  static std::string equation_prm(Src &s)
  {
    /* viscosities are chosen relative to the step size where it matters */
    const double mu = s.pick({1e-3, 1e-2, 1e-1, 1., 0., 1e-6});
    const double lambda = mu * s.pick({0., 1., 10., 2. / 3., -0.5});
    const double kappa = mu == 0. ? s.pick({0., 1e-2})
                                  : mu * s.pick({1., 1.866, 0., 0.1, 10.});
    s.note("mu", mu);
    s.note("lambda", lambda);
    s.note("kappa", kappa);
    return "subsection B - Equation\n" +
           prm_entry("gamma", s.pick({1.4, 5. / 3., 1.1, 1.3})) +
           prm_entry("mu", mu) + prm_entry("lambda", lambda) +
           prm_entry("kappa", kappa) + "end\n";
  }

  static MeshOptions restrict_mesh(MeshOptions mo)
  {
    mo.dg = mo.high_order = false;
    return mo;
  }

  static std::vector<std::string> schemes()
  {
    return {"strang erk 33 cn", "strang ssprk 33 cn", "strang erk 43 cn",
            "imex 11"};
  }

  /* Strang splitting: half an explicit step, an implicit step (backward Euler
     to the midpoint, then extrapolation), half an explicit step */
  template <typename S>
  static double compose(const S &y, const std::string &scheme,
                        typename S::StateVector &v, double t, double limit)
  {
    using SV = typename S::StateVector;
    SV u, b;
    y.reinit(u);
    y.reinit(b);
    y.put(u, y.get(v));
    try {
      if (scheme == "imex 11") {
        const double tau = ::compose(y, "erk 11", u, t, limit);
        y.pm.template step<0>(u, t, {}, {}, b, tau);
        y.put(v, y.get(b));
        return tau;
      }
      const std::string e = scheme == "strang erk 33 cn"   ? "erk 33"
                            : scheme == "strang erk 43 cn" ? "erk 43"
                                                           : "ssprk 33";
      const double half = ::compose(y, e, u, t, limit / 2.);
      y.pm.template step<0>(u, t, {}, {}, b, half);
      auto A = y.get(u);
      const auto B = y.get(b);
      for (unsigned i = 0; i < y.n; ++i)
        A[i] = 2. * B[i] - A[i];
      y.put(u, A);
      /* the second half has the length of the first one */
      const double stages = e == "erk 33" ? 3. : e == "erk 43" ? 4. : 1.;
      ::compose(y, e, u, t + half, half, half / stages);
      y.put(v, y.get(u));
      return 2. * half;
    } catch (const rj::Restart &) {
      /* the step starts over with the boundary conditions applied */
      y.hm.prepare_state_vector(v, t);
      throw;
    }
  }
};

namespace
{
  std::string parabolic_prm(Src &s, double tolerance, bool linfty,
                            bool multigrid)
  {
    const bool gmg_v = multigrid && s.chance(0.6);
    const bool gmg_e = multigrid && s.chance(0.6);
    if (gmg_v || gmg_e)
      s.label("multigrid");
    std::string r = "subsection G - ParabolicModule\n" +
                    prm_entry("tolerance", tolerance) +
                    prm_entry("tolerance linfty norm",
                              std::string(linfty ? "true" : "false")) +
                    prm_entry("multigrid velocity",
                              std::string(gmg_v ? "true" : "false")) +
                    prm_entry("multigrid energy",
                              std::string(gmg_e ? "true" : "false"));
    if (s.chance(0.3))
      r += "  set multigrid velocity - max iter = 3\n"
           "  set multigrid energy - max iter = 3\n";
    if (s.chance(0.2))
      r += "  set multigrid - min level = 1\n";
    return r + "end\n";
  }

  /* The eigenvalue estimate of the coarse level's smoother can break down, in
     particular on tiny, periodic meshes and with slip walls; then its degree
     becomes astronomically large: run in a child process, for limited time */
  template <typename F, typename R, typename State>
  bool guarded(const F &run, R &res, std::vector<State> &after, double seconds)
  {
    int fd[2];
    if (pipe(fd) != 0)
      throw std::runtime_error("pipe");
    const pid_t child = fork();
    if (child < 0)
      throw std::runtime_error("fork");
    if (child == 0) {
      alarm(unsigned(4. * seconds));
      close(fd[0]);
      run();
      const unsigned long n = after.size();
      std::string all(reinterpret_cast<const char *>(&res), sizeof(res));
      all.append(reinterpret_cast<const char *>(&n), sizeof(n));
      all.append(reinterpret_cast<const char *>(after.data()),
                 n * sizeof(State));
      for (size_t k = 0; k < all.size();) {
        const auto w = write(fd[1], all.data() + k, all.size() - k);
        if (w <= 0)
          _exit(1);
        k += size_t(w);
      }
      _exit(0);
    }
    close(fd[1]);
    std::string all;
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    bool late = false;
    for (;;) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      const double left = seconds - double(t1.tv_sec - t0.tv_sec) -
                          1e-9 * double(t1.tv_nsec - t0.tv_nsec);
      pollfd p{fd[0], POLLIN, 0};
      if (left <= 0. || poll(&p, 1, int(1000. * left) + 1) == 0) {
        late = true;
        break;
      }
      char buf[65536];
      const auto r = read(fd[0], buf, sizeof(buf));
      if (r <= 0)
        break;
      all.append(buf, size_t(r));
    }
    if (late)
      kill(child, SIGKILL);
    close(fd[0]);
    int status = 0;
    waitpid(child, &status, 0);
    if (late)
      return false;
    unsigned long n = 0;
    const size_t head = sizeof(res) + sizeof(n);
    require(status == 0 && all.size() >= head, "the step crashes (status ",
            status, ")");
    std::memcpy(&res, all.data(), sizeof(res));
    std::memcpy(&n, all.data() + sizeof(res), sizeof(n));
    after.resize(n);
    require(all.size() == head + n * sizeof(State), "incomplete result");
    std::memcpy(after.data(), all.data() + head, n * sizeof(State));
    return true;
  }

  /* the nodal vector R with R_i = int f phi_i, constraints condensed */
  template <int dim, typename S>
  struct Weak {
    const S &y;
    std::vector<std::vector<double>> V; // velocity with hanging nodes resolved
    std::vector<double> e;
    std::vector<std::array<double, dim>> stress; // int S(V) : sym grad phi_i
    std::vector<double> heat;                    // int grad e . grad phi_i
    std::vector<double> diss;                    // int S(V) : sym grad V phi_i
    std::vector<std::array<double, dim>> stress_abs;
    std::vector<double> heat_abs;

    std::vector<std::vector<std::pair<unsigned, double>>> lines;

    Weak(const S &y, const std::vector<std::array<double, dim>> &V_free,
         const std::vector<double> &e_free, double mu, double lambda)
        : y(y)
    {
      const auto &dh = y.off.dof_handler();
      const auto &ac = y.off.affine_constraints();
      const auto &part = *y.off.scalar_partitioner();
      lines.assign(y.n, {});
      auto VV = V_free;
      auto ee = e_free;
      for (unsigned i = 0; i < y.n; ++i) {
        const auto g = part.local_to_global(i);
        if (!ac.is_constrained(g)) {
          lines[i] = {{i, 1.}};
          continue;
        }
        VV[i].fill(0.);
        ee[i] = 0.;
        for (const auto &[col, w] : *ac.get_constraint_entries(g)) {
          const unsigned j = part.global_to_local(col);
          lines[i].push_back({j, w});
          for (int d = 0; d < dim; ++d)
            VV[i][d] += w * V_free[j][d];
          ee[i] += w * e_free[j];
        }
      }
      std::array<double, dim> zero;
      zero.fill(0.);
      stress.assign(y.n, zero);
      stress_abs.assign(y.n, zero);
      heat.assign(y.n, 0.);
      heat_abs.assign(y.n, 0.);
      diss.assign(y.n, 0.);

      const dealii::QGauss<dim> quad(2);
      const auto &fe = dh.get_fe();
      dealii::FEValues<dim> fv(y.disc.mapping(), fe, quad,
                               dealii::update_values |
                                   dealii::update_gradients |
                                   dealii::update_JxW_values);
      std::vector<dealii::types::global_dof_index> ids(fe.n_dofs_per_cell());
      for (const auto &cell : dh.active_cell_iterators()) {
        fv.reinit(cell);
        cell->get_dof_indices(ids);
        for (unsigned q = 0; q < quad.size(); ++q) {
          double G[dim][dim] = {}, g[dim] = {};
          double G_size = 0., g_size = 0.;
          for (unsigned a = 0; a < ids.size(); ++a) {
            const unsigned j = part.global_to_local(ids[a]);
            const auto dphi = fv.shape_grad(a, q);
            for (int d = 0; d < dim; ++d) {
              g[d] += ee[j] * dphi[d];
              g_size += std::abs(ee[j] * dphi[d]);
              for (int c = 0; c < dim; ++c) {
                G[d][c] += VV[j][d] * dphi[c];
                G_size += std::abs(VV[j][d] * dphi[c]);
              }
            }
          }
          double div = 0.;
          for (int d = 0; d < dim; ++d)
            div += G[d][d];
          double T[dim][dim], T_eps = 0.;
          const double size =
              (2. * mu + std::abs(lambda - 2. / 3. * mu)) * G_size;
          for (int d = 0; d < dim; ++d)
            for (int c = 0; c < dim; ++c) {
              const double eps = 0.5 * (G[d][c] + G[c][d]);
              T[d][c] = 2. * mu * eps +
                        (d == c ? (lambda - 2. / 3. * mu) * div : 0.);
              T_eps += T[d][c] * eps;
            }
          for (unsigned a = 0; a < ids.size(); ++a) {
            const unsigned i = part.global_to_local(ids[a]);
            const auto dphi = fv.shape_grad(a, q);
            const double phi = fv.shape_value(a, q), w = fv.JxW(q);
            for (const auto &[j, x] : lines[i]) {
              diss[j] += x * w * phi * T_eps;
              for (int d = 0; d < dim; ++d) {
                heat[j] += x * w * g[d] * dphi[d];
                heat_abs[j] += std::abs(x) * w * g_size * std::abs(dphi[d]);
                for (int c = 0; c < dim; ++c) {
                  stress[j][d] += x * w * T[d][c] * dphi[c];
                  stress_abs[j][d] +=
                      std::abs(x) * w * size * std::abs(dphi[c]);
                }
              }
            }
          }
        }
      }
    }
  };

  template <typename Tr, int dim>
  void parabolic_step(Src &s)
  {
    MeshOptions mo;
    mo.bcs = {"no slip", "slip", "dirichlet", "do nothing", "dynamic"};
    const double tol = s.pick({1e-12, 1e-11, 1e-9});
    const bool linfty = s.chance(0.3);
    const bool multigrid = s.chance(0.5);
    if (multigrid && s.chance(0.75)) {
      mo.periodic = 0.;
      mo.bcs.erase(mo.bcs.begin() + 1); // no slip walls
    }
    Setup<Tr, dim> z(s, mo, 1., 1, parabolic_prm(s, tol, linfty, multigrid));
    auto &y = *z.y;
    using B = rj::Boundary;
    const double mu = y.ps.mu(), lambda = y.ps.lambda(),
                 kappa = y.ps.cv_inverse_kappa();

    FieldOptions fo;
    fo.contrast = 30.;
    auto old = z.random(s, fo);
    const auto before = y.get(*old);
    const auto v = y.view();

    double h = 1e300, rho_min = 1e300;
    for (int d = 0; d < dim; ++d)
      h = std::min(h, (z.mesh.hi[d] - z.mesh.lo[d]) / z.mesh.sub[d] /
                          double(1 << z.mesh.refine));
    for (const auto &u : before)
      rho_min = std::min(rho_min, u[0]);
    /* the size of the diffusion number */
    const double number = s.pick({1., 0.01, 100., 0.1, 10.});
    const double nu = std::max(mu + std::max(lambda, 0.), kappa) / rho_min;
    double tau = nu > 0. ? number * h * h / nu : s.uniform(0.01, 1.);
    s.note("tau", tau);
    s.note("diffusion number", number);
    y.pm.id_violation_strategy_ = s.chance(0.5)
                                      ? rj::IDViolationStrategy::warn
                                      : rj::IDViolationStrategy::raise_exception;
    const bool raise = y.pm.id_violation_strategy_ ==
                       rj::IDViolationStrategy::raise_exception;
    const int repeat = int(s.range(1, 3)); // later ones reuse the hierarchy

    struct Result {
      bool thrown = false, flagged = false, stuck = false, touched = false;
    } res;
    std::vector<typename std::remove_reference_t<decltype(y)>::state> after;
    auto run = [&]() {
      typename Setup<Tr, dim>::StateVector out;
      y.reinit(out);
      unsigned w0 = 0;
      try {
        for (int k = 0; k < repeat; ++k) {
          w0 = y.pm.n_warnings();
          res.thrown = false;
          try {
            y.pm.template step<0>(*old, z.t, {}, {}, out, tau);
          } catch (const rj::Restart &) {
            res.thrown = true;
          }
        }
      } catch (const dealii::SolverControl::NoConvergence &) {
        res.stuck = true;
      }
      res.flagged = res.thrown || y.pm.n_warnings() != w0;
      res.touched = y.get(*old) != before;
      after = y.get(out);
    };
    if (!multigrid)
      run();
    else if (!guarded(run, res, after, 4.)) {
      s.label("multigrid hangs");
      throw pbt::Discard{};
    }
    if (res.stuck) {
      s.label("not converged");
      throw pbt::Discard{};
    }
    const bool thrown = res.thrown, flagged = res.flagged;
    require(!thrown || raise, "restart although only warnings are requested");
    require(!raise || thrown || !flagged, "warning instead of a restart");
    require(!res.touched, "the old state vector was modified");

    /* what the boundary demands of a node */
    struct Node {
      bool fixed = false, dirichlet = false, several = false, slip = false;
      bool no_slip = false;
      std::vector<typename std::remove_reference_t<decltype(y)>::Vec> normals;
      typename std::remove_reference_t<decltype(y)>::state given;
    };
    std::vector<Node> node(y.n);
    bool any_dirichlet = false, walls = false;
    for (const auto &entry : y.off.boundary_map()) {
      const auto i = std::get<0>(entry);
      if (i >= y.n)
        continue;
      const auto id = std::get<4>(entry);
      auto &b = node[i];
      if (id == B::slip) {
        b.slip = true;
        b.normals.push_back(std::get<1>(entry));
      } else if (id == B::no_slip) {
        b.no_slip = b.fixed = true;
      } else if (id == B::dirichlet) {
        b.fixed = b.dirichlet = true;
        b.given = y.iv.initial_state(std::get<5>(entry), z.t + tau);
        any_dirichlet = true;
      }
      walls = walls || id != B::periodic;
    }

    std::vector<std::array<double, dim>> V(y.n), V0(y.n);
    std::vector<double> e(y.n), e0(y.n);
    double e_lo = 1e300, e_new = 1e300, e_hi = 0.;
    bool constrained = false;
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.constrained(i)) {
        V[i].fill(0.);
        e[i] = e0[i] = 0.;
        constrained = true;
        continue;
      }
      require(after[i][0] == before[i][0], "density of node ", i, " changed");
      for (int d = 0; d < dim; ++d) {
        V[i][d] = after[i][1 + d] / after[i][0];
        V0[i][d] = before[i][1 + d] / before[i][0];
      }
      e[i] = v.internal_energy(after[i]) / after[i][0];
      e0[i] = v.internal_energy(before[i]) / before[i][0];
      if (node[i].dirichlet)
        e0[i] = v.internal_energy(node[i].given) / node[i].given[0];
      e_lo = std::min(e_lo, e0[i]);
      e_hi = std::max(e_hi, e0[i]);
      e_new = std::min(e_new, e[i]);
      for (int q = 0; q < y.n_comp; ++q)
        require(std::isfinite(after[i][q]), "component ", q, " of node ", i);
    }

    const Weak<dim, std::remove_reference_t<decltype(y)>> w(y, V, e, mu, lambda);

    /* residuals of the two linear systems */
    double r2 = 0., b2 = 0., noise2 = 0.;
    double rE = 0., bE = 0., noiseE = 0.;
    double total0 = 0., total1 = 0., total_abs = 0.;
    std::vector<std::function<void(double, double)>> later;
    std::array<double, dim> P0, P1;
    P0.fill(0.);
    P1.fill(0.);
    double P_abs = 0.;
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.constrained(i))
        continue;
      const double m = y.mass[i], rho = before[i][0];
      const auto &b = node[i];
      std::array<double, dim> R, rhs;
      double size = 0.;
      for (int d = 0; d < dim; ++d) {
        rhs[d] = m * before[i][1 + d];
        R[d] = m * rho * V[i][d] + tau * w.stress[i][d] - rhs[d];
        size += std::abs(m * rho * V[i][d]) + tau * w.stress_abs[i][d] +
                std::abs(rhs[d]);
      }
      auto project = [&](auto &x, const auto &n) {
        double a = 0.;
        for (int d = 0; d < dim; ++d)
          a += x[d] * n[d];
        for (int d = 0; d < dim; ++d)
          x[d] -= a * n[d];
      };
      double speed = 0.;
      for (int d = 0; d < dim; ++d)
        speed = std::max(speed, std::abs(V0[i][d]));
      if (b.dirichlet)
        for (int d = 0; d < dim; ++d)
          speed = std::max(speed, std::abs(b.given[1 + d] / b.given[0]));
      speed += std::sqrt(e_hi);
      if (b.fixed) {
        R.fill(0.);
        size = 0.;
        const bool clear = !b.slip && !(b.no_slip && b.dirichlet);
        for (int d = 0; d < dim; ++d) {
          rhs[d] = b.dirichlet ? b.given[1 + d] / b.given[0] : 0.;
          if (clear)
            later.push_back([=, V = V[i][d], want = rhs[d],
                             D = b.dirichlet](double b2, double) {
              close(V, want, 1e-10 * speed + 1.01 * tol * b2, "velocity ", d,
                    " at the boundary node ", i,
                    D ? " (dirichlet)" : " (no slip)");
            });
        }
      } else if (b.slip) {
        for (const auto &n : b.normals) {
          project(R, n);
          project(rhs, n);
          double a = 0.;
          for (int d = 0; d < dim; ++d)
            a += V[i][d] * n[d];
          if (b.normals.size() == 1)
            later.push_back([=](double b2, double) {
              close(a, 0., 1e-10 * speed + 1.01 * tol * b2,
                    "normal velocity at the slip node ", i);
            });
        }
      }
      for (int d = 0; d < dim; ++d) {
        r2 += R[d] * R[d];
        b2 += rhs[d] * rhs[d];
      }
      noise2 += size * size;

      double dV2 = 0.;
      for (int d = 0; d < dim; ++d)
        dV2 += (V[i][d] - V0[i][d]) * (V[i][d] - V0[i][d]);
      double rhs_e = m * rho * (e0[i] + 0.5 * dV2) + tau * w.diss[i];
      if (b.dirichlet) {
        later.push_back([=, e = e[i], want = e0[i]](double, double bE) {
          close(e, want, 1e-10 * (want + speed * speed) + 1.01 * tol * bE,
                "internal energy at the dirichlet node ", i);
        });
        rhs_e = e0[i];
      } else {
        const double Re = m * rho * e[i] + tau * kappa * w.heat[i] - rhs_e;
        rE += Re * Re;
        const double sz = m * after[i][y.n_comp - 1] + std::abs(rhs_e) +
                          m * rho * (e0[i] + dV2 + speed * speed) +
                          tau * kappa * w.heat_abs[i] + tau * std::abs(w.diss[i]);
        noiseE += sz * sz;
      }
      bE += rhs_e * rhs_e;

      total0 += m * before[i][y.n_comp - 1];
      total1 += m * after[i][y.n_comp - 1];
      total_abs += m * (before[i][y.n_comp - 1] +
                        std::abs(after[i][y.n_comp - 1]) + rho * speed * speed);
      for (int d = 0; d < dim; ++d) {
        P0[d] += m * before[i][1 + d];
        P1[d] += m * after[i][1 + d];
        P_abs += m * rho * speed;
      }
    }
    r2 = std::sqrt(r2), b2 = std::sqrt(b2), noise2 = std::sqrt(noise2);
    rE = std::sqrt(rE), bE = std::sqrt(bE), noiseE = std::sqrt(noiseE);
    require(r2 <= 1.01 * tol * b2 + 1e-12 * noise2,
            "velocity: residual of the variational formulation ", r2,
            ", right-hand side ", b2, ", terms ", noise2);
    require(rE <= 1.01 * tol * bE + 1e-12 * noiseE,
            "internal energy: residual of the variational formulation ", rE,
            ", right-hand side ", bE, ", terms ", noiseE);

    for (auto &f : later)
      f(b2, bE);

    /* conservation */
    const double root = std::sqrt(double(y.n));
    if (!any_dirichlet) {
      double V_max = 0.;
      for (auto &x : V)
        for (double a : x)
          V_max = std::max(V_max, std::abs(a));
      close(total1, total0,
            1e-11 * total_abs + root * tol * (bE + V_max * b2) +
                1e-12 * root * (noiseE + V_max * noise2),
            "total energy");
      s.label("energy conserved");
    }
    bool free = true;
    for (auto &b : node)
      free = free && !b.fixed && !b.slip;
    if (free) {
      for (int d = 0; d < dim; ++d)
        close(P1[d], P0[d],
              1e-11 * P_abs + root * tol * b2 + 1e-12 * root * noise2,
              "total momentum ", d);
      s.label("momentum conserved");
    }

    /* minimum of the internal energy */
    const double fuzz = (1e-9 + 10. * tol) * (e_hi + std::abs(e_new));
    if (e_new < e_lo - fuzz)
      require(flagged, "the minimum of the internal energy dropped from ", e_lo,
              " to ", e_new, " unnoticed");
    if (flagged)
      require(e_new < e_lo + fuzz, "bounds violation reported, but the minimum "
              "of the internal energy went from ", e_lo, " to ", e_new);
    s.label(flagged ? "flagged" : "not flagged");
    if (constrained)
      s.label("constrained");
    s.nontrivial(nu > 0. && s.label_is("varying"));
  }

} // namespace

#define VISC_FACETS(dim)                                                       \
  FACET("P23.step", parabolic_step, NSTraits, dim, 500, 30000)                 \
  FACET("P16.compose", time_integrator, NSTraits, dim, 300, 15000)

VISC_FACETS(1)
VISC_FACETS(2)
VISC_FACETS(3)

SYS_MAIN
