// The properties of one explicit step, for any equation.
#pragma once

namespace
{
  /* ------------------------------------------------------------------ P04 */

  template <typename Tr>
  auto restrict_mesh(int, MeshOptions mo) -> decltype(Tr::restrict_mesh(mo))
  {
    return Tr::restrict_mesh(mo);
  }
  template <typename Tr>
  MeshOptions restrict_mesh(long, const MeshOptions &mo)
  {
    return mo;
  }

  template <typename Tr, int dim>
  struct Setup {
    using S = Sys<typename Tr::D, dim>;
    using StateVector = typename S::StateVector;
    Mesh<dim> mesh;
    std::unique_ptr<S> y;
    double t = 0.;

    Setup(Src &s, const MeshOptions &mo, double relax, int iterations,
          const std::string &more = "")
    {
      fresh_parameters();
      mesh = random_mesh<dim>(s, restrict_mesh<Tr>(0, mo));
      y = std::make_unique<S>();
      const std::string prm = mesh.prm() + Tr::equation_prm(s) +
                              Tr::module(s, relax, iterations) +
                              Tr::template initial_prm<dim>(s) + more;
      set_prm(prm);
      if (getenv("VERIF_PRM"))
        std::cerr << prm;
      s.note("mesh", mesh.show());
      s.label(mesh.dg() ? "dG" : "cG");
      if (mesh.hanging)
        s.label("hanging");
      y->setup(mesh);
      s.note("nodes", double(y->n));
      Tr::prepare(s, *y, mesh);
      t = s.pick({0., 0.7, 13.});
    }

    std::unique_ptr<StateVector> random(Src &s, const FieldOptions &o,
                                        bool bc = true)
    {
      auto v = std::make_unique<StateVector>();
      y->reinit(*v);
      y->put(*v, Tr::field(s, *y, mesh, o));
      const double hi = range(*v).second;
      if (bc)
        y->hm.prepare_state_vector(*v, t);
      /* characteristic boundary conditions can produce absurd states */
      const auto [lo2, hi2] = range(*v);
      pbt::discard_unless(hi2 < 1e4 * hi &&
                          (!Tr::positive || hi2 < 1e7 * lo2));
      return v;
    }

    std::pair<double, double> range(const StateVector &v) const
    {
      double lo = 1e300, hi = 0.;
      for (unsigned i = 0; i < y->n; ++i) {
        const double x = std::abs(std::get<0>(v).get_tensor(i)[0]);
        lo = std::min(lo, x);
        hi = std::max(hi, x);
      }
      return {lo, hi};
    }

    /* random stages for one explicit step */
    std::vector<std::unique_ptr<StateVector>> keep;
    std::vector<const StateVector *> stages;
    std::vector<double> w;
    void random_stages(Src &s, const FieldOptions &o)
    {
      const int n_stages = int(s.range(0, 4));
      s.label("stages " + std::to_string(n_stages));
      for (int k = 0; k < n_stages; ++k) {
        keep.push_back(random(s, o));
        stages.push_back(keep.back().get());
        w.push_back(s.chance(0.3) ? 0. : s.uniform(-1.5, 1.5));
      }
    }
  };

  template <typename Tr, int dim>
  void step_reference(Src &s)
  {
    MeshOptions mo;
    mo.bcs = Tr::bcs();
    const int it = int(s.pick({2, 1, 0, 2}));
    Setup<Tr, dim> z(s, mo, s.pick({1., 0., 4.}), it);
    auto &y = *z.y;
    s.label("iterations " + std::to_string(it));

    FieldOptions fo;
    auto old = z.random(s, fo);
    z.random_stages(s, fo);
    const auto &stages = z.stages;
    const auto &w = z.w;
    const double cfl = s.uniform(0.05, 1.);
    const double tau_factor = s.pick({0., 0., 1., 0.3, 1.3});
    y.hm.cfl(cfl);
    y.hm.id_violation_strategy_ =
        s.chance(0.5) ? rj::IDViolationStrategy::warn
                      : rj::IDViolationStrategy::raise_exception;
    const bool raise = y.hm.id_violation_strategy_ ==
                       rj::IDViolationStrategy::raise_exception;

    auto ref = y.reference(*old, stages, w, cfl, 0., 0., 0);
    double tau = tau_factor * ref.tau_max;
    if (tau_factor != 0.)
      ref = y.reference(*old, stages, w, cfl, tau, 0., 0);
    const double used = tau_factor == 0. ? ref.tau_max : tau;

    /* how much of a perturbation by roundoff reaches the result */
    std::vector<typename std::remove_reference_t<decltype(y)>::Step> noisy;
    for (int k = 0; k < 6; ++k)
      noisy.push_back(y.reference(
          *old, stages, w, cfl, used, k < 4 ? 1e-12 : 1e-13, 18 + k));

    typename Setup<Tr, dim>::StateVector out;
    y.reinit(out);
    bool thrown = false;
    double got = 0.;
    const unsigned w0 = y.hm.n_warnings(), r0 = y.hm.n_restarts();
    const auto before = y.get(*old);
    try {
      got = y.step(*old, stages, w, out, tau);
    } catch (const rj::Restart &) {
      thrown = true;
    }
    require(y.get(*old) == before, "the old state vector was modified");
    const bool flagged = thrown || y.hm.n_warnings() != w0;
    bool sure = true;
    for (auto &x : noisy)
      sure = sure && x.violated == ref.violated;
    if (sure && !ref.violated)
      require(!flagged, "violation of the bounds reported although there is "
                        "none");
    if (sure && ref.surely)
      require(flagged, "violation of the bounds not reported");
    s.count("clear violations", ref.surely);
    require(!flagged || (raise ? thrown && y.hm.n_restarts() == r0 + 1
                               : !thrown && y.hm.n_warnings() == w0 + 1),
            "violation reported the wrong way");
    if (!thrown) {
      if (tau != 0.)
        require(got == tau, "step() returned ", got, " instead of ", tau);
      double tau_spread = 0.;
      for (auto &x : noisy)
        tau_spread = std::max(tau_spread, std::abs(x.tau_max - ref.tau_max));
      close(got, used, 1e-11 * used + 100. * tau_spread, "time step");
    }
    s.count(flagged ? "violations" : "no violation");

    if (getenv("VERIF_PRM")) {
      double da = 0., dl = 0.;
      for (unsigned i = 0; i < y.n; ++i)
        if (!y.constrained(i)) {
          if (std::abs(y.hm.alpha().local_element(i) - ref.alpha[i]) > 1e-10)
            std::cerr << "alpha " << i << " code " << std::setprecision(17)
                      << y.hm.alpha().local_element(i) << " ref "
                      << ref.alpha[i] << "\n";
        }
    }
    /* cG: the update of a raised step is not used */
    const auto U = y.get(out);
    double scale[8] = {0};
    for (unsigned i = 0; i < y.n; ++i)
      if (!y.constrained(i))
        for (int q = 0; q < y.n_comp; ++q)
          scale[q] = std::max(scale[q], ref.size[i][q]);
    unsigned tight = 0, loose = 0;
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.constrained(i))
        continue;
      double sum = 0;
      for (int q = 0; q < y.n_comp; ++q)
        sum = std::max(sum, ref.size[i][q]);
      for (int q = 0; q < y.n_comp; ++q) {
        auto spread = [&](unsigned j) {
          double r = 0.;
          for (auto &x : noisy)
            r = std::max(r, std::abs(x.high[j][q] - ref.high[j][q]));
          return r;
        };
        double around = 0.;
        for (auto &e : y.rows[i])
          around = std::max(around, spread(e.j));
        const double tol =
            1e-10 * ref.size[i][q] + 100. * spread(i) + around;
        if (tol > 1e-3 * ref.size[i][q]) {
          ++loose;
          continue;
        }
        ++tight;
        close(U[i][q], ref.high[i][q], tol, "component ", q, " of node ", i,
              " at ", y.pos[i], " of ", y.n, " (old ", before[i][q],
              ", low-order ", ref.low[i][q], ")");
      }
    }
    s.count("tight values", tight);
    s.count("ill-conditioned values", loose);
    s.count("limited edges", ref.l_n ? (ref.l_min < 1. - 1e-9) : 0);
    s.nontrivial(tight > 0 && s.label_is("varying"));
  }


  /* ------------------------------------------------- boundary conditions */

  /* prepare_state_vector() applies the boundary conditions of every face a
     degree of freedom lies on, and nothing else. */
  template <typename Tr, int dim>
  void boundary(Src &s)
  {
    MeshOptions mo;
    mo.bcs = Tr::bcs();
    mo.periodic = 0.2;
    Setup<Tr, dim> z(s, mo, 1., 2);
    auto &y = *z.y;
    const auto view = y.view();
    auto v = z.random(s, FieldOptions{}, false);
    const auto before = y.get(*v);
    y.hm.prepare_state_vector(*v, z.t);
    const auto after = y.get(*v);

    /* independent list of (node, boundary id, normal) in the documented
       order: as stored in the boundary map */
    auto want = before;
    std::vector<int> touched(y.n, 0);
    for (const auto &[i, normal, nm, bm, id, x] : y.off.boundary_map()) {
      ++touched[i];
      if (id == rj::Boundary::do_nothing)
        continue;
      const auto pos = x;
      want[i] = view.apply_boundary_conditions(id, want[i], normal, [&]() {
        return y.iv.initial_state(pos, z.t);
      });
    }
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.constrained(i))
        continue;
      /* geometric: which faces of the box does the node lie on? */
      int faces = 0;
      bool all_nothing = true;
      for (int d = 0; d < dim; ++d) {
        if (z.mesh.periodic[d])
          continue;
        for (int k = 0; k < 2; ++k) {
          const double L = z.mesh.hi[d] - z.mesh.lo[d];
          if (std::abs(y.pos[i][d] - (k ? z.mesh.hi[d] : z.mesh.lo[d])) <
              1e-9 * L) {
            ++faces;
            all_nothing = all_nothing && z.mesh.bc[2 * d + k] == "do nothing";
          }
        }
      }
      if (z.mesh.ansatz != "dG Q0")
        require((faces > 0) == (touched[i] > 0), "node at ", y.pos[i],
                " lies on ", faces, " boundary faces but the boundary map has ",
                touched[i], " entries");
      if (all_nothing && z.mesh.ansatz != "dG Q0")
        require(after[i] == before[i], "state of node ", i, " at ", y.pos[i],
                " was changed without a boundary condition");
      for (int q = 0; q < y.n_comp; ++q)
        close(after[i][q], want[i][q],
              1e-12 * (std::abs(want[i][q]) + std::abs(before[i][q])),
              "component ", q, " of node ", i, " at ", y.pos[i],
              " after the boundary conditions");
      if (faces)
        s.nontrivial(!all_nothing);
    }
  }

  /* ------------------------------------------------------------------ P01 */

  /* one step with strict bounds, arbitrary stages: never outside the bounds
     formed from the bar states, and never a complaint for CFL <= 1 */
  template <typename Tr, int dim>
  void invariant_step(Src &s)
  {
    MeshOptions mo;
    mo.bcs = Tr::bcs();
    Setup<Tr, dim> z(s, mo, 0., int(s.pick({2, 1, 2, 0})));
    auto &y = *z.y;
    FieldOptions fo;
    auto old = z.random(s, fo);
    z.random_stages(s, fo);
    if (y.lp.iterations() == 0)
      s.label("low-order");
    y.hm.cfl(s.pick({0.95, 0.5, 0.9, 0.1}));
    y.hm.id_violation_strategy_ = rj::IDViolationStrategy::warn;
    const unsigned w0 = y.hm.n_warnings();
    typename Setup<Tr, dim>::StateVector out;
    y.reinit(out);
    const double tau = y.step(*old, z.stages, z.w, out, 0.);
    require(tau > 0., "time step ", tau);
    const auto ref =
        y.reference(*old, z.stages, z.w, 1., tau, 0., 0);
    const auto B = Tr::bounds(y, *old, ref.d);
    auto ext = B;
    if (y.dg)
      for (unsigned i = 0; i < y.n; ++i)
        for (unsigned k = 1; k < y.rows[i].size(); ++k)
          ext[i].merge(B[y.rows[i][k].j]);
    const auto U = y.get(out);
    for (unsigned i = 0; i < y.n; ++i)
      if (!y.constrained(i)) {
        double size = 0.;
        Tr::check(y, U[i], ext[i], ref.size[i],
                  "node " + std::to_string(i) + " of " + std::to_string(y.n));
        (void)size;
      }
    if (y.hm.n_warnings() != w0) {
      require(!Tr::strict,
              "bounds violated by the low-order update although CFL <= 1");
      /* a bound that is zero is compared without any slack */
      s.count("roundoff reported");
      for (unsigned i = 0; i < y.n; ++i)
        if (!y.constrained(i))
          Tr::check(y, ref.low[i], B[i], ref.size[i],
                    "reported violation: low-order update, node " +
                        std::to_string(i));
    }
    s.count("limited", ref.l_n > 0);
    s.nontrivial(s.label_is("varying"));
  }

  /* several steps with a time integrator: states stay admissible */
  template <typename Tr, int dim>
  void invariant_run(Src &s)
  {
    MeshOptions mo;
    mo.bcs = Tr::bcs();
    const std::string scheme = s.pick(std::vector<std::string>{
        "erk 33", "ssprk 33", "erk 11", "erk 22", "erk 43", "erk 54",
        "ssprk 22"});
    s.label(scheme);
    const double cfl_max = s.pick({0.9, 0.9, 0.5, 0.3});
    const double relax = s.pick({1., 0., 4.});
    Setup<Tr, dim> z(s, mo, relax, int(s.pick({2, 1, 2})),
                     "subsection H - TimeIntegrator\n" +
                         prm_entry("time stepping scheme", scheme) +
                         prm_entry("cfl max", cfl_max) +
                         prm_entry("cfl min", 0.5 * cfl_max) + "end\n");
    auto &y = *z.y;
    /* the relaxation window must not exceed the bounds themselves */
    double hd = 0.;
    for (unsigned i = 0; i < y.n; ++i)
      if (!y.constrained(i))
        hd = std::max(hd, y.mass[i] / y.off.measure_of_omega());
    pbt::discard_unless(relax <= 1. || relax * std::pow(hd, 1.5 / dim) < 0.95);
    auto v = z.random(s, FieldOptions{});
    const double initial = z.range(*v).second;
    double t = z.t;
    const int steps = int(s.range(1, 6));
    s.count("steps", steps);
    for (int k = 0; k < steps; ++k) {
      const unsigned w0 = y.hm.n_warnings(), r0 = y.hm.n_restarts();
      const double tau = y.ti.step(*v, t);
      s.count("restarts", y.hm.n_restarts() - r0);
      s.count("warnings", y.hm.n_warnings() - w0);
      require(tau > 0. && std::isfinite(tau), "time step ", tau);
      t += tau;
      const auto U = y.get(*v);
      if (getenv("VERIF_PRM")) {
        std::cerr << "step " << k << " tau " << tau << "\n";
        for (unsigned i = 0; i < y.n; ++i)
          std::cerr << i << " at " << y.pos[i] << " " << U[i] << "\n";
      }
      double hi = 0.;
      for (unsigned i = 0; i < y.n; ++i)
        if (!y.constrained(i))
          hi = std::max(hi, std::abs(U[i][0]));
      if (y.hm.n_warnings() != w0)
        break; /* the violation was reported */
      if (hi > 1e12 * initial) {
        s.label("blow up"); /* boundary data that feeds back */
        break;
      }
      for (unsigned i = 0; i < y.n; ++i)
        if (!y.constrained(i))
          Tr::admissible(y, U[i], hi,
                         "node " + std::to_string(i) + " at time step " +
                             std::to_string(k));
    }
    s.nontrivial(s.label_is("varying"));
  }

  /* ------------------------------------------------------------------ P02 */

  template <typename S, typename SV>
  typename S::state total(const S &y, const SV &v, typename S::state *size)
  {
    typename S::state r;
    const auto U = y.get(v);
    for (unsigned i = 0; i < y.n; ++i)
      if (!y.constrained(i))
        for (int q = 0; q < y.n_comp; ++q) {
          r[q] += y.mass[i] * U[i][q];
          if (size)
            (*size)[q] += y.mass[i] * std::abs(U[i][q]);
        }
    return r;
  }

  template <typename Tr, int dim>
  void conservation(Src &s)
  {
    MeshOptions mo;
    mo.bcs = Tr::walls();
    mo.periodic = s.pick({1., 0., 0.5});
    if (Tr::walls()[0] != "slip")
      mo.periodic = 1.;
    const std::string scheme = s.pick(std::vector<std::string>{
        "erk 33", "ssprk 33", "erk 11", "erk 22", "erk 43", "erk 54",
        "ssprk 22"});
    Setup<Tr, dim> z(s, mo, s.pick({1., 0., 4.}), int(s.pick({2, 1, 0})),
                     "subsection H - TimeIntegrator\n" +
                         prm_entry("time stepping scheme", scheme) + "end\n");
    auto &y = *z.y;
    const bool periodic = z.mesh.all_periodic();
    s.label(periodic ? "periodic" : "walls");
    FieldOptions fo;
    auto v = z.random(s, fo);
    const auto keep = Tr::conserved(y, periodic);
    typename std::decay_t<decltype(y)>::state size, drift;
    if (s.chance(0.5)) {
      /* one step with random stages */
      s.label("random stages");
      z.random_stages(s, fo);
      y.hm.cfl(s.pick({0.9, 0.5, 2.}));
      y.hm.id_violation_strategy_ = rj::IDViolationStrategy::warn;
      typename Setup<Tr, dim>::StateVector out;
      y.reinit(out);
      const auto before = total(y, *v, &size);
      for (auto st : z.stages) {
        typename std::decay_t<decltype(y)>::state x;
        total(y, *st, &x);
        for (int q = 0; q < y.n_comp; ++q)
          size[q] = std::max(size[q], x[q]);
      }
      y.step(*v, z.stages, z.w, out, 0.);
      drift = total(y, out, &size) - before;
    } else {
      s.label("time integrator");
      /* boundary conditions first, so that they change nothing later on */
      double t = z.t;
      const auto before = total(y, *v, &size);
      const int steps = int(s.range(1, 4));
      for (int k = 0; k < steps; ++k)
        t += y.ti.step(*v, t);
      /* walls: the normal momentum is removed by the boundary conditions,
         but neither mass nor total energy is touched */
      drift = total(y, *v, &size) - before;
    }
    double vmax = 0.; /* scale for all components */
    for (int q = 0; q < y.n_comp; ++q)
      vmax = std::max(vmax, size[q]);
    for (int q = 0; q < y.n_comp; ++q)
      if (keep[q])
        close(drift[q], 0.,
              1e-11 * (q == 0 ? std::max(size[q], 1e-6 * vmax) : vmax),
              "total of component ", q, " changed");
    s.nontrivial(s.label_is("varying"));
  }

  /* any boundary condition: the change is the flux through the boundary */
  template <typename Tr, int dim>
  void balance(Src &s)
  {
    if constexpr (!Tr::flat_flux) {
      throw pbt::Discard{};
    } else {
      MeshOptions mo;
      mo.bcs = Tr::bcs();
      mo.dg = false; /* boundary fluxes of dG are nodal, see below */
      mo.periodic = 0.3;
      Setup<Tr, dim> z(s, mo, s.pick({1., 0., 4.}), int(s.pick({2, 1, 0})));
      auto &y = *z.y;
      Tr::flatten(y);
      FieldOptions fo;
      fo.dry = false;
      auto old = z.random(s, fo);
      y.hm.cfl(s.pick({0.9, 0.5}));
      y.hm.id_violation_strategy_ = rj::IDViolationStrategy::warn;
      typename Setup<Tr, dim>::StateVector out;
      y.reinit(out);
      if (getenv("VERIF_PRM"))
        for (unsigned i = 0; i < y.n; ++i)
          std::cerr << "U " << std::get<0>(*old).get_tensor(i) << " pre "
                    << std::get<1>(*old).get_tensor(i) << "\n";
      const double tau = y.step(*old, {}, {}, out, 0.);
      using state = typename std::decay_t<decltype(y)>::state;
      state size, flux;
      const auto d = total(y, out, &size) - total(y, *old, nullptr);
      /* integral of the shape function times the outer normal */
      std::vector<typename std::decay_t<decltype(y)>::Vec> nu(y.n);
      for (unsigned i = 0; i < y.n; ++i)
        for (unsigned k = 0; k < y.rows[i].size(); ++k)
          nu[y.rows[i][k].j] += y.c[i][k];
      for (unsigned j = 0; j < y.n; ++j) {
        if (y.constrained(j))
          continue;
        const auto f = Tr::flux(y, *old, j);
        for (int q = 0; q < y.n_comp; ++q) {
          flux[q] += f[q] * nu[j];
          size[q] += tau * f[q].norm() * nu[j].norm();
        }
      }
      double vmax = 0.;
      for (int q = 0; q < y.n_comp; ++q)
        vmax = std::max(vmax, size[q]);
      for (int q = 0; q < y.n_comp; ++q)
        if (q < Tr::balanced && (q == 0 || !Tr::friction(y)))
          close(d[q], -tau * flux[q],
              1e-11 * (q == 0 ? std::max(size[q], 1e-6 * vmax) : vmax),
              "change of the total of component ", q,
              " differs from the flux through the boundary");
      s.nontrivial(s.label_is("varying"));
    }
  }

  /* ------------------------------------------------------------------ P03 */

  template <typename Tr, int dim>
  void constant_state(Src &s)
  {
    MeshOptions mo;
    mo.bcs = {"do nothing"};
    mo.periodic = s.pick({0.3, 1.});
    const std::string scheme = s.pick(std::vector<std::string>{
        "erk 33", "ssprk 33", "erk 11", "erk 22", "erk 43", "erk 54",
        "ssprk 22"});
    Setup<Tr, dim> z(s, mo, s.pick({1., 0., 4.}), int(s.pick({2, 1, 0})),
                     "subsection H - TimeIntegrator\n" +
                         prm_entry("time stepping scheme", scheme) + "end\n");
    auto &y = *z.y;
    Tr::flatten(y);
    /* with friction the stages differ: the contributions of the diagonal
       (m_ii, c_ii) to the high-order update are not distributed */
    pbt::discard_unless(!Tr::friction(y) || scheme == "erk 11");
    FieldOptions fo;
    fo.constant = true;
    fo.dry = false;
    auto v = z.random(s, fo);
    const auto before = y.get(*v);
    double t = z.t;
    /* roundoff grows by a factor of 100 per step with multistage schemes */
    const int steps = int(s.range(1, 2));
    if (getenv("VERIF_PRM"))
      for (unsigned i = 0; i < y.n; ++i)
        std::cerr << "U " << std::get<0>(*v).get_tensor(i) << " pre "
                  << std::get<1>(*v).get_tensor(i) << "\n";
    for (int k = 0; k < steps; ++k) {
      t += y.ti.step(*v, t);
      if (getenv("VERIF_PRM")) {
        const auto U = y.get(*v);
        double worst = 0.;
        for (unsigned i = 0; i < y.n; ++i)
          for (int q = 0; q < y.n_comp; ++q)
            worst = std::max(worst, std::abs(U[i][q] - before[i][q]));
        std::cerr << "step " << k << " t " << t << " drift " << worst << "\n";
      }
    }
    /* roundoff of earlier stages may leave the (empty) interior of the bounds */
    if (steps == 1 && scheme == "erk 11")
      require(y.hm.n_warnings() + y.hm.n_restarts() == 0,
              "constant state: bounds violated");
    const auto U = y.get(*v);
    double size = 0.;
    for (int q = 0; q < y.n_comp; ++q)
      size = std::max(size, std::abs(before[0][q]));
    const auto speed = Tr::scale(y, before[0]);
    for (unsigned i = 0; i < y.n; ++i)
      if (!y.constrained(i))
        for (int q = 0; q < y.n_comp; ++q)
          close(U[i][q], Tr::decayed(y, before[i], U[0], q),
                1e-9 * speed[q], "component ", q, " of node ", i,
                " of a constant state");
    s.nontrivial();
  }

  /* ------------------------------------------------------------ P16 / P31 */

  struct Tableau {
    const char *name;
    std::vector<std::vector<double>> A; /* last row: b */
    std::vector<double> c;
  };

  inline const std::vector<Tableau> &tableaux()
  {
    /* Ern, Guermond: Invariant-domain-preserving high-order time stepping:
       I. Explicit Runge-Kutta schemes; optimal efficiency, equidistant c */
    static const std::vector<Tableau> t = {
        {"erk 11", {{1.}}, {0.}},
        {"erk 22", {{0.5}, {0., 1.}}, {0., 0.5}},
        {"erk 33",
         {{1. / 3.}, {0., 2. / 3.}, {0.25, 0., 0.75}},
         {0., 1. / 3., 2. / 3.}},
        {"erk 43",
         {{0.25}, {0., 0.5}, {0., 0.25, 0.5}, {0., 2. / 3., -1. / 3., 2. / 3.}},
         {0., 0.25, 0.5, 0.75}},
        {"erk 54",
         {{0.2},
          {0.26075582269554909, 0.13924417730445096},
          {-0.25856517872570289, 0.91136274166280729, -0.05279756293710430},
          {0.21623276431503774, 0.51534223099602405, -0.81662794199265554,
           0.88505294668159373},
          {-0.10511678454691901, 0.87880047152100838, -0.58903404061484477,
           0.46213380485434047, 0.35321654878641495}},
         {0., 0.2, 0.4, 0.6, 0.8}}};
    return t;
  }

  /* own composition of the scheme out of single explicit steps */
  template <typename S>
  double compose(const S &y, const std::string &scheme,
                 typename S::StateVector &v, double t, double limit,
                 double given = 0.)
  {
    using SV = typename S::StateVector;
    auto cap = [&](double stages) {
      return std::atomic<double>(limit / stages).load();
    };
    auto first = [&](SV &u, SV &out, double stages) {
      if (given != 0.)
        return y.step(u, {}, {}, out, given);
      return y.hm.template step<0>(u, {}, {}, out, 0., cap(stages));
    };
    auto average = [&](SV &x, double a, double b, const SV &u) {
      auto X = y.get(x), Z = y.get(u);
      for (unsigned i = 0; i < y.n; ++i)
        X[i] = a * X[i] + b * Z[i];
      y.put(x, X);
    };
    if (scheme.substr(0, 3) == "ssp") {
      SV a, b;
      y.reinit(a);
      y.reinit(b);
      y.hm.prepare_state_vector(v, t);
      const double tau = first(v, a, 1.);
      y.hm.prepare_state_vector(a, t + tau);
      y.step(a, {}, {}, b, tau);
      if (scheme == "ssprk 22") {
        average(b, 0.5, 0.5, v);
        y.put(v, y.get(b));
        return tau;
      }
      average(b, 0.25, 0.75, v);
      y.hm.prepare_state_vector(b, t + 0.5 * tau);
      y.step(b, {}, {}, a, tau);
      average(a, 2. / 3., 1. / 3., v);
      y.put(v, y.get(a));
      return tau;
    }
    const Tableau *T = nullptr;
    for (auto &x : tableaux())
      if (scheme == x.name)
        T = &x;
    const int n = int(T->A.size());
    std::vector<std::unique_ptr<SV>> U;
    for (int k = 0; k < n; ++k) {
      U.push_back(std::make_unique<SV>());
      y.reinit(*U.back());
    }
    double tau = 0.;
    for (int k = 0; k < n; ++k) {
      SV &from = k ? *U[k - 1] : v;
      y.hm.prepare_state_vector(from, t + k * tau);
      if (k == 0) {
        tau = first(v, *U[0], n);
        continue;
      }
      /* U_{k+1} = U_k + n tau sum_j (A_{k+1,j} - A_{k,j}) F(U_j) */
      std::vector<const SV *> st;
      std::vector<double> w;
      for (int j = 0; j < k; ++j) {
        const double hi = T->A[k][j];
        const double lo = T->A[k - 1][j];
        st.push_back(j ? U[j - 1].get() : &v);
        w.push_back(n * (hi - lo));
      }
      y.step(from, st, w, *U[k], tau);
    }
    y.put(v, y.get(*U[n - 1]));
    return n * tau;
  }

  /* an equation may have further schemes */
  template <typename Tr>
  auto schemes_of(int) -> decltype(Tr::schemes())
  {
    return Tr::schemes();
  }
  template <typename Tr>
  std::vector<std::string> schemes_of(long)
  {
    return {"erk 33", "ssprk 33", "erk 11", "erk 22",
            "erk 43", "erk 54",   "ssprk 22"};
  }
  template <typename Tr, typename S, typename SV>
  auto compose_of(int, const S &y, const std::string &scheme, SV &v, double t,
                  double limit) -> decltype(Tr::compose(y, scheme, v, t, limit))
  {
    return Tr::compose(y, scheme, v, t, limit);
  }
  template <typename Tr, typename S, typename SV>
  double compose_of(long, const S &y, const std::string &scheme, SV &v,
                    double t, double limit)
  {
    return compose(y, scheme, v, t, limit);
  }

  template <typename Tr, int dim>
  void time_integrator(Src &s)
  {
    MeshOptions mo;
    mo.bcs = Tr::bcs();
    const std::string scheme = s.pick(schemes_of<Tr>(0));
    auto compose = [](const auto &y, const std::string &scheme, auto &v,
                      double t, double limit) {
      return compose_of<Tr>(0, y, scheme, v, t, limit);
    };
    s.label(scheme);
    const double cfl_max = s.pick({0.9, 0.9, 1.6, 4.});
    const double cfl_min = cfl_max * s.uniform(0.1, 1.);
    const bool bang = s.chance(0.6);
    s.label(bang ? "bang bang" : "no recovery");
    /* the high-order stages amplify roundoff unless the limiter is smooth */
    Setup<Tr, dim> z(
        s, mo, s.pick({1., 4.}), int(s.pick({2, 1, 0})),
        "subsection H - TimeIntegrator\n" +
            prm_entry("time stepping scheme", scheme) +
            prm_entry("cfl max", cfl_max) + prm_entry("cfl min", cfl_min) +
            prm_entry("cfl recovery strategy",
                      std::string(bang ? "bang bang control" : "none")) +
            "end\n");
    auto &y = *z.y;
    auto strategy = [&](rj::IDViolationStrategy x) {
      y.hm.id_violation_strategy_ = x;
      y.pm.id_violation_strategy_ = x;
    };
    auto restarts = [&]() { return y.hm.n_restarts() + y.pm.n_restarts(); };
    FieldOptions fo;
    auto v = z.random(s, fo, false);
    double largest = 1e-3;
    for (const auto &u : y.get(*v))
      for (int q = 0; q < y.n_comp; ++q)
        largest = std::max(largest, std::abs(u[q]));
    double t = z.t;
    const int steps = int(s.range(1, 3));
    for (int k = 0; k < steps; ++k) {
      /* mine first */
      typename Setup<Tr, dim>::StateVector mine;
      y.reinit(mine);
      y.put(mine, y.get(*v));
      double limit = 1e300;
      y.hm.cfl(cfl_max);
      strategy(bang ? rj::IDViolationStrategy::raise_exception
                    : rj::IDViolationStrategy::warn);
      double want = 0.;
      bool restarted = false;
      /* unstable steps (CFL > 1) overflow sooner or later */
      auto once = [&]() {
        double r = 0.;
        try {
          r = compose(y, scheme, mine, t, limit);
        } catch (const dealii::ExceptionBase &) {
          throw pbt::Discard{};
        }
        pbt::discard_unless(r < 1e200);
        return r;
      };
      if (s.chance(0.3)) {
        /* a final time close by */
        const auto keep = y.get(mine);
        strategy(rj::IDViolationStrategy::warn);
        limit = once() * s.uniform(0.2, 1.2);
        limit = (t + limit) - t;
        y.put(mine, keep);
        strategy(bang ? rj::IDViolationStrategy::raise_exception
                      : rj::IDViolationStrategy::warn);
        s.label("final time");
      }
      try {
        want = once();
      } catch (const rj::Restart &) {
        /* the boundary conditions are applied to the old state again */
        restarted = true;
        y.hm.cfl(cfl_min);
        strategy(rj::IDViolationStrategy::warn);
        want = once();
      }
      if (!bang)
        strategy(rj::IDViolationStrategy::warn);
      /* how much of a perturbation by roundoff reaches the result? */
      double spread[8] = {0};
      {
        const auto start = y.get(*v);
        const auto before = y.hm.id_violation_strategy_;
        const auto cfl = y.hm.cfl();
        strategy(rj::IDViolationStrategy::warn);
        for (int r = 0; r < 4; ++r) {
          typename Setup<Tr, dim>::StateVector other;
          y.reinit(other);
          auto X = start;
          for (unsigned i = 0; i < y.n; ++i)
            X[i] *= 1. + 1e-13 * (double(pbt::mix(1000 * r + i) >> 11) *
                                      0x1.0p-52 -
                                  1.);
          y.put(other, X);
          try {
            compose(y, scheme, other, t, limit);
          } catch (const dealii::ExceptionBase &) {
          }
          const auto A = y.get(other), B = y.get(mine);
          for (unsigned i = 0; i < y.n; ++i)
            if (!y.constrained(i))
              for (int q = 0; q < y.n_comp; ++q)
                spread[q] = std::max(spread[q], std::abs(A[i][q] - B[i][q]));
        }
        strategy(before);
        y.hm.cfl(cfl);
      }
      const unsigned r0 = restarts();
      const double got = limit < 1e300 ? y.ti.step(*v, t, t + limit)
                                       : y.ti.step(*v, t);
      require((restarts() != r0) == restarted,
              restarted ? "the step was not restarted"
                        : "the step was restarted for no reason");
      s.label(restarted ? "restarted" : "not restarted");
      close(got, want, 1e-12 * want, "step size of ", scheme);
      require(got <= limit * (1. + 1e-14), "step ", got,
              " exceeds the time left ", limit);
      const auto A = y.get(*v), B = y.get(mine);
      std::array<double, 8> size;
      size.fill(0.);
      bool finite = true;
      for (unsigned i = 0; i < y.n; ++i) {
        if (y.constrained(i))
          continue;
        const auto sc = Tr::scale(y, B[i]);
        for (int q = 0; q < y.n_comp; ++q) {
          finite = finite && std::abs(B[i][q]) < 1e5 * largest;
          size[q] = std::max(size[q], sc[q]);
        }
      }
      if (!finite) {
        s.label("blow up");
        break;
      }
      for (unsigned i = 0; i < y.n; ++i)
        if (!y.constrained(i))
          for (int q = 0; q < y.n_comp; ++q)
            if (spread[q] < 1e-5 * size[q])
              close(A[i][q], B[i][q],
                    Tr::step_tol * size[q] + 100. * spread[q], scheme,
                    ", step ", k, ": component ", q, " of node ", i);
            else
              s.count("ill-conditioned values");
      t += got;
    }
    s.nontrivial(s.label_is("varying"));
  }

  /* ------------------------------------------------------------------ P25 */

  /* the nodal values are the initial state at the support points */
  template <typename Tr, int dim>
  void interpolated(Src &s)
  {
    MeshOptions mo;
    Setup<Tr, dim> z(s, mo, 1., 1, "");
    auto &y = *z.y;
    const double t = s.chance(0.5) ? s.uniform(0., 2.) : 0.;
    const auto U = y.iv.interpolate_hyperbolic_vector(t);
    const auto P = y.iv.interpolate_initial_precomputed_vector();
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.constrained(i))
        continue;
      const auto E = y.iv.initial_state(y.pos[i], t);
      const auto V = U.get_tensor(i);
      for (int q = 0; q < y.n_comp; ++q)
        close(V[q], E[q], 1e-10 * (1. + std::abs(E[q])), "component ", q,
              " of node ", i);
      if constexpr (Tr::D::template HyperbolicSystemView<dim, double>::
                        n_initial_precomputed_values > 0) {
        const auto a = y.iv.initial_precomputed(y.pos[i]);
        const auto b = P.get_tensor(i);
        for (unsigned q = 0; q < a.size(); ++q)
          close(b[q], a[q], 1e-10 * (1. + std::abs(a[q])), "bathymetry of node ",
                i);
      }
    }
    s.nontrivial(y.n > 2);
  }
} // namespace

#define FACET(what, fn, Tr, dim, q, t)                                         \
  PBT(std::string(what "_") + Tr::tag + "_" #dim "d",                          \
      dim == 1 ? q : dim == 2 ? q / 2 : q / 8,                                 \
      dim == 1 ? t : dim == 2 ? t / 2 : t / 8, (fn<Tr, dim>));

#define ALL_FACETS(Tr, dim)                                                    \
  FACET("P04.step", step_reference, Tr, dim, 600, 30000)                       \
  FACET("P04.boundary", boundary, Tr, dim, 300, 10000)                         \
  FACET("P01.step", invariant_step, Tr, dim, 800, 40000)                       \
  FACET("P01.run", invariant_run, Tr, dim, 400, 20000)                         \
  FACET("P02.total", conservation, Tr, dim, 600, 30000)                        \
  FACET("P02.balance", balance, Tr, dim, 400, 20000)                           \
  FACET("P03.constant", constant_state, Tr, dim, 400, 20000)                   \
  FACET("P16.compose", time_integrator, Tr, dim, 400, 20000)                   \
  FACET("P25.interpolated", interpolated, Tr, dim, 200, 10000)
