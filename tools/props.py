"""The properties: statements, anchors, and how each check is run.

properties.jsonl and MANIFEST.json are generated from this file (mkfiles.py).
"""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = VERIF + "/known-findings.txt"

EU, AE, SW, SC = ("source/euler/", "source/euler_aeos/",
                  "source/shallow_water/", "source/scalar_conservation/")
S = "source/"
PROPS = {}


def prop(pid, title, statement, over, text, why, files, mechanism, observe,
         bins, rule, technique, level_note, **kw):
    PROPS[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why,
        files=files, mechanism=mechanism, observe=observe, bins=bins,
        rule=rule, technique=technique, level_note=level_note, **kw)


GEN = ("Random choice tapes drive a structured generator (weighted towards "
       "degenerate and extreme classes); a case is evaluated once its "
       "precondition holds. ")

# --------------------------------------------------------------------- P05
prop(
    "P05", "Wave-speed estimate of the gas-dynamics Riemann solvers is an upper bound",
    "For the Euler equations, and for the Euler equations with an arbitrary "
    "equation of state through its interpolated surrogate, the wave-speed "
    "estimate returned for any two admissible states and any unit normal is "
    "never below the largest wave speed in the exact solution of the "
    "(surrogate) Riemann problem, up to roundoff. The estimate is finite and "
    "positive, not needlessly large (at most about the speed that belongs to "
    "the failsafe star pressure), does not change when the two states are exchanged and the "
    "normal is reversed, and commutes with rotations of the frame.",
    ["inputs", "configurations"],
    "All pairs of admissible states (density, velocity, internal energy over "
    "many decades, equal and nearly equal states, strong shocks, double "
    "rarefactions, near vacuum), all normals, space dimensions 1-3, adiabatic "
    "indices, covolume and stiffened-gas interpolation parameters.",
    "The unit tests print the estimate for a dozen fixed Riemann data and "
    "compare with stored output; a bound over all pairs of states cannot be "
    "sampled that way.",
    [EU + "riemann_solver.template.h", EU + "riemann_solver.h",
     AE + "riemann_solver.template.h", AE + "riemann_solver.h"],
    [{"name": "two-rarefaction/shock secant bound on the star pressure",
      "where": EU + "riemann_solver.template.h compute()"},
     {"name": "surrogate interpolation of the equation of state",
      "where": AE + "riemann_solver.template.h compute()"}],
    ["return value of RiemannSolver::compute"],
    ["unit_euler", "unit_aeos"],
    GEN + "Non-trivial: the two states differ, so that the exact Riemann "
    "problem has waves; the exact star pressure is found independently in "
    "long double.",
    "property-based testing: generated Riemann data against an independent "
    "exact long-double Riemann solver, plus symmetry relations",
    "random search, 1-3 space dimensions; the exact solver is trusted",
)

prop(
    "P06", "Wave-speed estimate of the shallow-water Riemann solver is a bound",
    "For the shallow-water equations the wave-speed estimate returned for any "
    "two admissible states (wet, nearly dry or dry) and any unit normal is "
    "never below the largest wave speed of the exact Riemann problem of the "
    "flat-bottom system with the given depths and velocities, up to the "
    "documented regularisation of dry states and roundoff. It does not change "
    "when the states are exchanged and the normal is reversed, and commutes "
    "with rotations.",
    ["inputs", "configurations"],
    "All pairs of depths (dry to deep) and momenta, all normals, gravity "
    "constants and dry-state tolerances, space dimensions 1 and 2.",
    "Tests reach the solver only through a few verification runs whose time "
    "steps would not change visibly when the bound is lost.",
    [SW + "riemann_solver.template.h", SW + "riemann_solver.h"],
    [{"name": "two-rarefaction depth bound",
      "where": SW + "riemann_solver.template.h compute()"}],
    ["return value of RiemannSolver::compute"],
    ["unit_sw"],
    GEN + "Non-trivial: the states differ and at least one is wet.",
    "property-based testing: generated Riemann data against an independent "
    "exact long-double shallow-water Riemann solver",
    "random search in 1 and 2 space dimensions",
)

# --------------------------------------------------------------------- P07
prop(
    "P07", "Wave-speed estimate for scalar equations bounds jumps and characteristics",
    "For a scalar conservation law with any configured flux, the wave-speed "
    "estimate between two states is finite, never below the speed of the jump "
    "between them and, unless the greedy option is chosen, never below the "
    "characteristic speed of either state; with the averaged-entropy option "
    "the resulting bar state also satisfies the Kruzkov entropy inequality for "
    "the average of both states. It never exceeds the Lipschitz constant of the "
    "flux between the two states, and without random entropies it does not "
    "change when the states are exchanged and the normal is reversed.",
    ["inputs", "configurations"],
    "All pairs of values (equal, nearly equal, far apart), all normals in 1-3 "
    "dimensions, Burgers, KPP and user-supplied flux expressions (polynomial, "
    "trigonometric), greedy, averaged-entropy and random-entropy options.",
    "Tests run a few configurations of Burgers and KPP to a final time and "
    "compare errors to six digits; an estimate that is too small for some "
    "pairs of values passes.",
    [SC + "riemann_solver.template.h", SC + "riemann_solver.h",
     SC + "hyperbolic_system.h", SC + "flux_function.h"],
    [{"name": "Roe speed, characteristic speeds and entropy corrections",
      "where": SC + "riemann_solver.template.h compute()"}],
    ["return value of RiemannSolver::compute"],
    ["unit_scalar"],
    GEN + "Non-trivial: the two values differ.",
    "property-based testing: generated states and flux functions against "
    "long-double evaluation of the defining inequalities",
    "random search; exactness of the reference flux in long double is trusted",
)

# --------------------------------------------------------------------- P08
prop(
    "P08", "Limiter returns an admissible and not needlessly small limiter value",
    "For every equation, given a low-order state inside its local bounds and an "
    "arbitrary update direction, the limiter returns a factor within the "
    "requested interval for which the limited state satisfies every bound up to "
    "roundoff and the tolerance of the line search, and which is not smaller "
    "than needed: it is the upper end of the interval when the full update "
    "respects the bounds. The local bounds it accumulates contain every "
    "low-order bar state of the stencil, exceed them by no more than the "
    "configured relaxation allows, and do not depend on the order of the "
    "neighbours; combining the bounds of two nodes yields bounds that contain "
    "both.",
    ["inputs", "configurations"],
    "All admissible low-order states, update directions and magnitudes, bounds "
    "(tight and loose), limiter iterations and tolerances, relaxation factors, "
    "stencil sizes and orders, for Euler, Euler with arbitrary equation of "
    "state, shallow water and scalar equations in 1-3 dimensions.",
    "The unit tests limit about a dozen fixed states; bounds are otherwise only "
    "seen through errors of whole runs, which hardly change when the limiter "
    "violates or over-tightens a bound somewhere.",
    [EU + "limiter.template.h", EU + "limiter.h", AE + "limiter.template.h",
     AE + "limiter.h", SW + "limiter.template.h", SW + "limiter.h",
     SC + "limiter.template.h", SC + "limiter.h", S + "newton.h"],
    [{"name": "density/depth/value clipping",
      "where": EU + "limiter.template.h, " + SW + "limiter.template.h, " + SC
      + "limiter.template.h limit()"},
     {"name": "quadratic Newton line search on the entropy functional",
      "where": S + "newton.h quadratic_newton_step"},
     {"name": "accumulation and relaxation of bounds",
      "where": "limiter.h reset/accumulate/bounds/combine_bounds"}],
    ["return values of Limiter::limit, bounds and combine_bounds"],
    ["unit_euler", "unit_sw", "unit_aeos", "unit_scalar"],
    GEN + "Non-trivial: limit facets - the full update leaves the bounds (or "
    "the direction is non-zero); bounds facets - more than one stencil entry.",
    "property-based testing: invariant and maximality checks of the limited "
    "state in long double against an independent evaluation of all bounds",
    "random search; ill-conditioned states beyond the stated condition numbers "
    "are discarded and counted",
)

# --------------------------------------------------------------------- P09
prop(
    "P09", "Equations of state are thermodynamically self-consistent",
    "For every equation of state of the library (polytropic gas, Noble-Abel "
    "stiffened gas, van der Waals, Jones-Wilkins-Lee and user expressions) and "
    "any parameters, pressure and specific internal energy are inverse to each "
    "other at fixed density and follow the documented formula, the speed of "
    "sound is the derivative of pressure along an isentrope, and the "
    "temperature has the configured heat capacity and satisfies the "
    "thermodynamic integrability relation with the pressure. Evaluating arrays "
    "gives the same numbers as evaluating entries one by one.",
    ["inputs", "configurations"],
    "All admissible densities and energies and all equation-of-state parameters "
    "(heat capacity ratio, covolume, reference energies and pressures, JWL "
    "coefficients), including expressions equivalent to the built-in ones.",
    "Tests use each equation of state at default parameters and never evaluate "
    "temperature or speed of sound at all.",
    [AE + "equation_of_state_polytropic_gas.h",
     AE + "equation_of_state_noble_abel_stiffened_gas.h",
     AE + "equation_of_state_van_der_waals.h",
     AE + "equation_of_state_jones_wilkins_lee.h",
     AE + "equation_of_state_function.h", AE + "equation_of_state.h"],
    [{"name": "pressure, specific_internal_energy, temperature, speed_of_sound",
      "where": AE + "equation_of_state_*.h"}],
    ["values returned through the equation-of-state interface"],
    ["unit_aeos"],
    GEN + "Non-trivial: every evaluated case; speed of sound, temperature and "
    "array comparisons are counted separately.",
    "property-based testing: round trips, numerical derivatives and a "
    "long-double reference of the documented formulas",
    "random search; finite differences resolve relative errors above 1e-5 for "
    "the integrability relation, 1e-9 otherwise",
)

# --------------------------------------------------------------------- P10
prop(
    "P10", "State conversions, derived quantities and entropy derivatives are exact",
    "For every equation, the derived quantities of a state (velocity, pressure, "
    "internal energy, entropies, depth and kinetic energy, surrogate values) "
    "equal their definitions, the stated derivatives are the derivatives of the "
    "corresponding functions, conversions between primitive, conserved and "
    "initial states are inverse to each other, and admissible states are "
    "reported admissible and others not. Changing runtime parameters changes "
    "these functions accordingly.",
    ["inputs", "configurations"],
    "All admissible and inadmissible states over many decades in 1-3 "
    "dimensions; all values of the physical parameters.",
    "Tests contain no case for these functions; whole runs do not reach most "
    "parameter combinations.",
    [EU + "hyperbolic_system.h", AE + "hyperbolic_system.h",
     SW + "hyperbolic_system.h", SC + "hyperbolic_system.h",
     SC + "flux_burgers.h", SC + "flux_kpp.h", SC + "flux_function.h"],
    [{"name": "derived quantities and derivatives",
      "where": "*/hyperbolic_system.h"}],
    ["return values of the view of the hyperbolic system"],
    ["unit_euler", "unit_sw", "unit_aeos", "unit_scalar"],
    GEN + "Non-trivial: a non-zero, wet, admissible state.",
    "property-based testing: long-double reference formulas, numerical "
    "differentiation and round trips",
    "random search; tolerance scales with the condition number of the state",
)

# --------------------------------------------------------------------- P11
prop(
    "P11", "Boundary conditions impose exactly their defining relations",
    "For every equation and any interior state, boundary data and outward unit "
    "normal: do-nothing keeps the state, Dirichlet imposes the data, slip "
    "removes exactly the normal momentum and nothing else, no-slip removes all "
    "momentum, and the characteristic-based conditions of the Euler and "
    "shallow-water equations keep the outgoing characteristic quantities of the "
    "interior state and take the incoming ones from the data, for subsonic and "
    "supersonic in- and outflow. Boundary conditions commute with rotations, "
    "and conditions an equation does not support are rejected.",
    ["inputs", "configurations"],
    "All admissible interior states and data, all normals in 1-3 dimensions, "
    "subsonic and supersonic inflow and outflow.",
    "Tests exercise characteristic conditions in a few runs; the four flow "
    "regimes with general normals are never compared with their definition.",
    [EU + "hyperbolic_system.h", AE + "hyperbolic_system.h",
     SW + "hyperbolic_system.h", SC + "hyperbolic_system.h"],
    [{"name": "boundary states",
      "where": "*/hyperbolic_system.h apply_boundary_conditions, "
               "prescribe_riemann_characteristic"}],
    ["state returned by apply_boundary_conditions"],
    ["unit_euler", "unit_sw", "unit_aeos", "unit_scalar"],
    GEN + "Non-trivial: non-zero momentum or data different from the state; "
    "flow regimes are counted as labels.",
    "property-based testing: characteristic invariants, idempotence and "
    "rotation metamorphic relations over generated states",
    "random search",
)

# --------------------------------------------------------------------- P12
prop(
    "P12", "Numerical fluxes are consistent, antisymmetric and frame-indifferent",
    "For every equation the pairwise flux contribution of two nodes equals the "
    "negative sum of the physical fluxes of both states contracted with the "
    "coefficient vector (for shallow water with the equilibrated states of the "
    "hydrostatic reconstruction), changes sign when the two nodes are exchanged "
    "and the coefficient is reversed wherever the scheme is conservative, and "
    "commutes with rotations of the frame. Embedding a lower-dimensional state "
    "into more dimensions keeps all components and adds no momentum.",
    ["inputs", "configurations"],
    "All admissible pairs of states, coefficient vectors, rotations and "
    "reflections, bathymetry values, 1-3 space dimensions.",
    "Fluxes are only exercised through complete runs with fixed data.",
    [EU + "hyperbolic_system.h", AE + "hyperbolic_system.h",
     SW + "hyperbolic_system.h", SC + "hyperbolic_system.h",
     S + "convenience_macros.h", S + "simd.h"],
    [{"name": "flux contributions and flux divergence",
      "where": "*/hyperbolic_system.h flux_contribution, flux_divergence"}],
    ["values of flux contributions and flux divergences"],
    ["unit_euler", "unit_sw", "unit_aeos", "unit_scalar"],
    GEN + "Non-trivial: two different (or moving) states.",
    "property-based testing: long-double reference fluxes and metamorphic "
    "relations (exchange, rotation, embedding)",
    "random search",
)

# --------------------------------------------------------------------- P14
prop(
    "P14", "Shallow water scheme is well balanced and keeps depths non-negative",
    "For any bathymetry, including wet/dry fronts, a lake at rest with constant "
    "free surface produces no net flux and no source contribution on any edge "
    "(the high-order flux: between wet nodes), so that whole time steps on any "
    "mesh keep a wet lake, and with the low-order scheme a lake with dry shores, "
    "at rest; equilibrated depths are non-negative and never exceed the depth they are "
    "taken from, and the low-order and high-order contributions of an edge "
    "agree with the reference formula of the hydrostatic reconstruction.",
    ["inputs", "configurations"],
    "All bathymetries, free-surface levels, wet, thin and dry neighbours, "
    "gravity constants, coefficient vectors, meshes, finite elements and "
    "explicit schemes, 1 and 2 space dimensions.",
    "A single hydrostatic test run with one bathymetry is compared with stored "
    "output.",
    [SW + "hyperbolic_system.h"],
    [{"name": "hydrostatic reconstruction",
      "where": SW + "hyperbolic_system.h equilibrated_states, flux_divergence, "
               "high_order_flux_divergence"}],
    ["edge fluxes; state vector after whole time steps"],
    ["unit_sw", "sys_sw"],
    GEN + "Non-trivial: the two bathymetry values differ.",
    "property-based testing: generated bathymetries against the exact lake-at-"
    "rest balance and a long-double reference",
    "random search",
)

# --------------------------------------------------------------------- P15
prop(
    "P15", "Friction and dry-state regularisation are dissipative and bounded",
    "The Manning friction source of the shallow-water equations acts only on "
    "momentum, opposes it, never reverses its direction or creates kinetic "
    "energy for any time step, vanishes with the friction coefficient and at "
    "rest, and stays finite for vanishing depth; regularised inverse depths and "
    "velocities agree with the exact ones for wet states and stay bounded for "
    "dry states, and the dry-state filter only changes states below its "
    "cutoff.",
    ["inputs", "configurations"],
    "All depths from dry to deep, momenta, time steps, friction coefficients, "
    "gravity constants, dry-state cutoffs, 1 and 2 space dimensions.",
    "No test uses friction with thin layers, large time steps or non-default "
    "cutoffs.",
    [SW + "hyperbolic_system.h"],
    [{"name": "Manning friction source", "where": SW
      + "hyperbolic_system.h manning_friction, nodal_source"},
     {"name": "regularisation of dry states", "where": SW
      + "hyperbolic_system.h inverse_water_depth_mollified, "
        "inverse_water_depth_sharp, filter_dry_water_depth"}],
    ["source term and derived quantities of a state"],
    ["unit_sw"],
    GEN + "Non-trivial: moving water and a non-zero friction coefficient or a "
    "state near the dry cutoff.",
    "property-based testing: sign, monotonicity and limit relations against a "
    "long-double reference",
    "random search",
)

# --------------------------------------------------------------------- P28
prop(
    "P28", "The smoothness indicator is the normalised entropy commutator in [0,1]",
    "For every equation the smoothness indicator of a node lies in [0,1], is "
    "zero for a constant stencil, equals the normalised entropy-viscosity "
    "commutator of the stencil scaled by the configured factor and clipped at "
    "one, and does not depend on the order of the neighbours.",
    ["inputs", "configurations"],
    "All stencils of admissible states and coefficient vectors with zero sum, "
    "mesh sizes, indicator factors, 1-3 space dimensions.",
    "Tests see the indicator only through errors of complete runs; a wrong "
    "indicator merely adds or removes some viscosity.",
    [EU + "indicator.h", AE + "indicator.h", SW + "indicator.h",
     SC + "indicator.h"],
    [{"name": "entropy-viscosity commutator",
      "where": "*/indicator.h reset, accumulate, alpha"}],
    ["value of Indicator::alpha"],
    ["unit_euler", "unit_sw", "unit_aeos", "unit_scalar"],
    GEN + "Non-trivial: a stencil of more than one node with differing states.",
    "property-based testing: generated stencils against a long-double "
    "reference of the commutator",
    "random search; badly conditioned commutators are discarded and counted",
)


# ------------------------------------------------------------- whole steps
HM = [S + "hyperbolic_module.template.h", S + "hyperbolic_module.h"]
SYS = ["sys_euler", "sys_aeos", "sys_sw", "sys_scalar"]
MESHES = ("generated meshes (tensor-product and distorted cells, hanging nodes, "
          "periodic directions, cG Q1-Q3 and dG Q0-Q3, 1-3 space dimensions)")

prop(
    "P01", "Invariant-domain preservation: no explicit step leaves the admissible set",
    "For every equation, mesh, finite element, boundary condition and time "
    "stepping scheme, an explicit update with CFL number at most one started "
    "from admissible states yields admissible states: positive density and "
    "internal energy, non-negative water depth, finite values. With relaxation "
    "switched off the new state of every node also respects the local bounds "
    "of the stencil: density or depth within the range of the bar states, "
    "specific entropy not below its local minimum, and for scalar equations "
    "the maximum principle. With CFL number at most one the low-order update "
    "never violates its own bounds by more than roundoff, and violations that "
    "occur in later stages of a scheme are reported, never silently accepted.",
    ["inputs", "configurations", "histories"],
    "All admissible fields (smooth, discontinuous, random, strong contrasts, "
    "dry and nearly dry) on " + MESHES + ", all boundary conditions, limiter "
    "settings, arbitrary stage vectors and weights, all explicit schemes, 1-6 "
    "steps.",
    "Tests run a few flow problems on one mesh family and compare error norms; "
    "a bound violated at one node or for one stencil does not show up.",
    HM + [SC + "limiter.h", EU + "limiter.h", SW + "limiter.h",
          AE + "limiter.h", S + "time_integrator.template.h"],
    [{"name": "low-order update with graph viscosity, convex limiting",
      "where": S + "hyperbolic_module.template.h step()"},
     {"name": "time step restriction", "where": S
      + "hyperbolic_module.template.h step() tau_max"}],
    ["state vector after HyperbolicModule::step and TimeIntegrator::step"],
    SYS,
    GEN + "Non-trivial: the field is not constant.",
    "property-based testing: invariant checks over generated meshes, fields "
    "and histories with independently computed local bounds",
    "random search on meshes with up to a few hundred nodes",
    scale=3.,
)

prop(
    "P02", "Conservation: totals change only by fluxes through the boundary",
    "One explicit step, with any stages and weights and any limiter setting, "
    "and every step of an explicit time stepping scheme conserves the total of "
    "every conserved quantity on periodic domains and the total mass and energy "
    "in domains closed by slip walls, up to roundoff; a single-stage step with "
    "any boundary condition changes the totals exactly by the time step times "
    "the flux of the nodal states through the boundary. Where the equation "
    "itself has sources (bathymetry, friction) this holds for the water mass.",
    ["inputs", "configurations", "histories"],
    "All admissible fields on " + MESHES + ", all limiter iterations, "
    "relaxations and indicators, random stage vectors and weights, all explicit "
    "schemes.",
    "No test sums up a conserved quantity; a loss of conservation at hanging "
    "nodes, periodic faces or dG faces changes errors only slightly.",
    HM + [S + "offline_data.template.h", S + "time_integrator.template.h"],
    [{"name": "skew-symmetric edge contributions and symmetrised limiter",
      "where": S + "hyperbolic_module.template.h step()"}],
    ["mass-weighted sum of the state vector before and after a step"],
    SYS,
    GEN + "Non-trivial: the field is not constant.",
    "property-based testing: conserved totals and boundary-flux balance over "
    "generated meshes, fields and histories",
    "random search; tolerance 1e-11 of the summed magnitudes",
    scale=2.,
)

prop(
    "P03", "Uniform flow is preserved exactly on every mesh",
    "A spatially constant admissible state with do-nothing boundaries or "
    "periodic directions stays constant, up to roundoff, under every explicit "
    "time stepping scheme, on any mesh (distorted, with hanging nodes, mixed "
    "boundary conditions), for every finite element, and a forward Euler "
    "step raises no violation of bounds. With friction, the momentum decays by "
    "the same amount everywhere in a forward Euler step.",
    ["inputs", "configurations"],
    "All admissible constant states on " + MESHES + ", all limiter and "
    "indicator settings, all explicit schemes.",
    "Tests contain no uniform-flow case on distorted or non-matching meshes.",
    HM + [S + "offline_data.template.h", S + "discretization.template.h"],
    [{"name": "row sums of c_ij vanish, bounds are attained",
      "where": S + "offline_data.template.h assemble()"}],
    ["state vector after TimeIntegrator::step"],
    SYS,
    GEN + "Non-trivial: every evaluated case.",
    "property-based testing: invariant over generated meshes and states",
    "random search; roundoff amplification by multistage schemes limits the "
    "comparison to two steps",
    scale=3.,
)

prop(
    "P04", "An explicit step computes exactly the documented update",
    "For every equation, one explicit step with any stages and weights, any "
    "limiter, indicator and time step settings yields the state vector and "
    "time step of the scheme as published: graph viscosity from the wave-speed "
    "estimate with the documented treatment of boundary pairs and dG faces, "
    "maximal time step from the diagonal, low-order update, high-order update "
    "with the consistent mass matrix, limiter bounds, symmetric limiting over "
    "the configured number of passes; the old state is not modified, and "
    "violations of bounds are reported in the configured way exactly when they "
    "occur. Preparing a state vector applies the boundary conditions to "
    "exactly the boundary degrees of freedom and changes nothing else.",
    ["inputs", "configurations"],
    "All admissible fields on " + MESHES + ", all boundary conditions and "
    "Dirichlet data, limiter iterations 0-2, relaxation factors, indicator "
    "factors, prescribed and maximal time steps, 0-4 stages with random "
    "weights.",
    "Tests compare final error norms of a few problems; changes to single "
    "edges, corner nodes, hanging nodes or later stages stay below the printed "
    "digits or are not reached.",
    HM + [S + "offline_data.template.h"],
    [{"name": "steps 0-7 of the explicit update",
      "where": S + "hyperbolic_module.template.h step()"},
     {"name": "boundary conditions",
      "where": S + "hyperbolic_module.template.h prepare_state_vector()"}],
    ["state vector and time step returned by HyperbolicModule::step, state "
     "vector after prepare_state_vector, restart and warning counters"],
    SYS,
    GEN + "Non-trivial: a varying field and at least one value for which the "
    "comparison is well conditioned (sensitivity is measured by perturbing the "
    "reference in its last digits).",
    "property-based testing: differential check against an independent "
    "node-by-node reference implementation of the scheme",
    "random search; Riemann solver, limiter and indicator of a single edge are "
    "taken from the library (they are decided by P05-P08, P28)",
    scale=2.,
)

prop(
    "P16", "Time integrators compose explicit steps as their tableaux say",
    "A step of any time stepping scheme (SSP and explicit Runge-Kutta schemes "
    "up to fifth stage, Strang splitting and the first-order IMEX scheme for "
    "viscous equations) equals the composition of single explicit steps "
    "(and implicit ones) with the published coefficients, stage times and "
    "boundary data; the step size is the number of stages times the admissible single step at the "
    "configured CFL number and never exceeds the time left to a given final "
    "time. With bang-bang control a step that violates bounds at the large CFL "
    "number is discarded and repeated from the same state with the small CFL "
    "number, exactly once, and only then.",
    ["inputs", "configurations", "histories"],
    "All schemes, CFL numbers 0.1-4, recovery strategies, fields, meshes, "
    "time-dependent boundary data, final times close by, sequences of 1-3 "
    "steps.",
    "Convergence tests see low-order errors of a scheme only on smooth "
    "problems; recovery hardly ever triggers in any test.",
    [S + "time_integrator.template.h", S + "time_integrator.h"],
    [{"name": "stage loops and recovery",
      "where": S + "time_integrator.template.h step(), step_*()"}],
    ["state vector and time step returned by TimeIntegrator::step, number of "
     "restarts"],
    SYS + ["visc"],
    GEN + "Non-trivial: the field is not constant.",
    "property-based testing: differential check of every scheme against an "
    "independent composition of single steps",
    "random search; values that a perturbation by roundoff changes by more "
    "than 1e-5 are skipped and counted",
    scale=3.,
)

prop(
    "P21", "Precomputed operators satisfy the discrete identities of the scheme",
    "On every mesh the precomputed data are the finite element operators they "
    "claim to be: entries of mass, lumped mass, gradient and incidence "
    "matrices equal an independent quadrature with hanging-node and periodicity "
    "constraints condensed, gradient rows sum to zero and are skew-symmetric "
    "away from the boundary, lumped masses are positive row sums that add up to "
    "the measure of the domain, the boundary map lists exactly the boundary "
    "degrees of freedom with outward weighted normals and masses, coupling "
    "boundary pairs are complete, and constraints reproduce linear functions.",
    ["inputs", "configurations"],
    "All " + MESHES + ", boundary conditions and incidence relaxation "
    "parameters.",
    "Tests look at matrices of one or two uniform meshes at most.",
    [S + "offline_data.template.h", S + "offline_data.h",
     S + "discretization.template.h", S + "local_index_handling.h",
     S + "sparse_matrix_simd.template.h"],
    [{"name": "assembly, boundary map, coupling pairs, constraints",
      "where": S + "offline_data.template.h create_constraints_and_sparsity_"
               "pattern(), assemble(), construct_boundary_map(), "
               "collect_coupling_boundary_pairs()"}],
    ["matrices, vectors and maps of OfflineData"],
    ["sys_offline"],
    GEN + "Non-trivial: more than one cell.",
    "property-based testing: differential check against independently assembled "
    "dense operators plus algebraic identities",
    "random search on meshes with up to a few hundred nodes",
)

# ------------------------------------------------------------- the program
PROG = ["ryujin_e", "ryujin_s", "ryujin_c"]
TL = [S + "time_loop.template.h", S + "time_loop.h"]

prop(
    "P17", "Results do not depend on the number of ranks and threads",
    "A configuration run with any number of MPI ranks and any number of "
    "threads yields the same time steps, the same solution at the same "
    "positions, the same error norms and the same averages as the serial run, "
    "up to roundoff.",
    ["schedules", "configurations"],
    "Generated configurations (equation, dimension, element, mesh, "
    "periodicity, boundary conditions, scheme, limiter), 1-4 ranks, 1-5 "
    "threads.",
    "Tests run fixed configurations with fixed rank counts and one thread; a "
    "missing synchronisation shows only for some partitions or schedules.",
    HM + TL + [S + "offline_data.template.h", S + "openmp.h",
               S + "sparse_matrix_simd.template.h", S + "quantities.template.h",
               S + "discretization.template.h"],
    [{"name": "overlapped ghost exchange with thread-parallel loops",
      "where": S + "hyperbolic_module.template.h step(), " + S + "openmp.h "
               "SynchronizationDispatch"},
     {"name": "numbering of locally owned and exported degrees of freedom",
      "where": S + "local_index_handling.h"}],
    ["quantities files, error norms and time steps written by the program"],
    PROG,
    GEN + "Non-trivial: at least one step was made and more than one rank or "
    "thread took part.",
    "property-based testing: metamorphic relation between runs of the program "
    "with different parallelism",
    "random search; schedules are those the machine happens to produce; values "
    "that roundoff amplifies are compared with a tolerance that grows with "
    "the number of steps",
    run=["prog_par.py"], schedules=True, slots=4, time=420.,
)

prop(
    "P18", "A run that is checkpointed and resumed is the uninterrupted run",
    "Interrupting a run at any output tick and resuming it from the checkpoint, "
    "any number of times and on any number of ranks, with any checkpoint "
    "interval, gives the same output cycles with the same times, the same "
    "solution and the same final error norms as the run that was never "
    "interrupted, also if the mesh has been adapted before or is adapted "
    "afterwards. Resuming at time zero only shifts the time of an autonomous "
    "problem.",
    ["histories", "configurations"],
    "Generated configurations, 1-3 interruptions at arbitrary ticks, 1-3 ranks "
    "per leg, checkpoint multipliers, locally refined meshes, continuous and "
    "discontinuous elements.",
    "The one test resumes a single configuration once on the same number of "
    "ranks.",
    TL + [S + "mesh_adaptor.template.h", S + "discretization.template.h",
          S + "state_vector.h"],
    [{"name": "write and read of checkpoints",
      "where": S + "time_loop.template.h read_checkpoint(), "
               "write_checkpoint(), compute()"}],
    ["quantities files and error norms written by the program"],
    PROG,
    GEN + "Non-trivial: the run was interrupted between its first and its last "
    "tick (or, adapted facets, the mesh was adapted).",
    "property-based testing: metamorphic relation between interrupted and "
    "uninterrupted histories",
    "random search over small meshes in two and three dimensions",
    run=["prog_ckpt.py"], slots=4, time=420.,
)

prop(
    "P19", "A crash while checkpointing does not lose the computation",
    "If the program dies at any file operation of writing a checkpoint, the "
    "files left behind (the current or, after renaming, the previous "
    "checkpoint) still allow to resume, and the resumed run continues with a "
    "state of the uninterrupted run.",
    ["crash_points", "configurations"],
    "Every file operation (open, write, rename, close, remove and MPI I/O) of "
    "the second and later checkpoints, on 1-3 ranks.",
    "No test interrupts the program.",
    TL,
    [{"name": "old checkpoint renamed before the new one is written, metadata "
              "last",
      "where": S + "time_loop.template.h write_checkpoint()"}],
    ["files left on disk, outcome of resuming from them"],
    PROG,
    GEN + "Non-trivial: the process died inside of a checkpoint that was not "
    "the first one.",
    "property-based testing with fault injection: an interposed library kills "
    "the process at a generated file operation, the resumed run is compared "
    "with the uninterrupted one",
    "random search over crash points; crashes of the process, not of the "
    "operating system (the program does not sync)",
    run=["prog_crash.py"], slots=4, time=420.,
)

prop(
    "P20", "Mesh adaptation keeps the solution",
    "Adapting the mesh happens at the configured time points, once each, and "
    "transfers the solution: the new state is the finite element function of "
    "the old one on refined cells and its interpolation on coarsened ones, "
    "also at hanging nodes, periodic boundaries and across ranks. Polynomials "
    "of the element's degree and constants survive any sequence of "
    "adaptations, and refinement keeps the total mass.",
    ["histories", "configurations"],
    "Generated meshes and fields in two and three dimensions, continuous "
    "elements of degree 1 and 2 (discontinuous ones with global refinement), "
    "random refinement and coarsening fractions, sequences of adaptations, "
    "1-3 ranks.",
    "The tests refine a single uniform mesh globally.",
    TL + [S + "mesh_adaptor.template.h", S + "mesh_adaptor.h",
          S + "discretization.template.h"],
    [{"name": "transfer of the state vector",
      "where": S + "time_loop.template.h "
               "adapt_mesh_and_transfer_state_vector()"},
     {"name": "time points and marking",
      "where": S + "mesh_adaptor.template.h analyze(), "
               "mark_cells_for_coarsening_and_refinement()"}],
    ["quantities files written before and after the adaptation"],
    PROG,
    GEN + "Non-trivial: the number of nodes changed.",
    "property-based testing: the transferred state against an independent "
    "evaluation of the finite element function, polynomial reproduction and "
    "conservation over histories",
    "random search; sequences of up to three adaptations",
    run=["prog_amr.py"], slots=4, time=420.,
)

prop(
    "P24", "Quantities of interest are the averages they claim to be",
    "For every configured manifold the files list exactly the degrees of "
    "freedom on its level set with positions, normals and masses, the "
    "instantaneous primitive states, the space average with these masses over "
    "every time step, and the trapezoidal time average over exactly the "
    "interval named in its header; statistics are cleared on output exactly if "
    "configured, and files of an earlier run are not continued.",
    ["configurations", "histories"],
    "Generated configurations with interior and boundary manifolds of several "
    "level sets and all combinations of options, output intervals and "
    "multipliers, 1-3 ranks, reruns in the same directory.",
    "The tests compare one stored series.",
    [S + "quantities.template.h", S + "quantities.h"] + TL,
    [{"name": "maps, accumulation and output",
      "where": S + "quantities.template.h prepare(), accumulate(), "
               "write_out(), interior_statistics, boundary_statistics"}],
    ["quantities files written by the program"],
    PROG,
    GEN + "Non-trivial: at least two steps contribute and a manifold is not "
    "empty.",
    "property-based testing: differential check against averages recomputed "
    "from the full instantaneous states of every step",
    "random search",
    run=["prog_quant.py"], slots=4, time=420.,
)

prop(
    "P23", "The viscous step solves its variational formulation and conserves",
    "One implicit (Navier-Stokes) step leaves the density unchanged, returns "
    "velocity and internal energy that solve, up to the configured tolerance, "
    "the lumped backward Euler systems with the Newtonian stress tensor, the "
    "viscous heating and the Fourier heat flux on the given mesh; no-slip, "
    "slip and Dirichlet conditions hold at their nodes, hanging nodes and "
    "periodic nodes follow their neighbors; total energy (and, without walls, "
    "momentum) is conserved exactly; the result does not depend on whether "
    "plain or multigrid preconditioned solvers are used. A drop of the minimum "
    "of the internal energy is reported, and only then is a restart requested.",
    ["inputs", "configurations"],
    "Continuous linear elements on generated meshes (distorted, locally "
    "refined, periodic) in 1-3 dimensions, all boundary conditions, "
    "viscosities, conductivities and steps from mildly to strongly diffusive, "
    "solver parameters.",
    "The tests run three smooth Navier-Stokes problems on uniform meshes.",
    [S + "navier_stokes/parabolic_solver.template.h",
     S + "navier_stokes/parabolic_solver_gmg_operators.h",
     S + "navier_stokes/parabolic_system.h",
     S + "parabolic_module.template.h"],
    [{"name": "backward Euler step",
      "where": S + "navier_stokes/parabolic_solver.template.h "
               "backward_euler_step()"},
     {"name": "matrix-free operators",
      "where": S + "navier_stokes/parabolic_solver_gmg_operators.h vmult()"}],
    ["state vector returned by ParabolicModule::step, warnings, restarts"],
    ["visc"],
    GEN + "Non-trivial: varying field and positive viscosity or conductivity.",
    "property-based testing: residual of an independently assembled "
    "variational formulation, boundary values, conservation",
    "random search; cases whose linear solver does not converge within its "
    "1000 iterations, or hangs in setting up the multigrid smoother, are "
    "discarded and counted",
    scale=2., time=60., thorough_time=2400.,
)

prop(
    "P25", "Initial states are the documented states, in every frame",
    "Every state of the library of initial states, for every admissible "
    "parameter, position, direction and time, is finite and admissible and has "
    "the documented values: constant, two- and three-state contrasts, radial "
    "contrasts, shock fronts satisfying the jump conditions, smooth vortices "
    "and layers solving the equations exactly, dam breaks, lakes at rest, "
    "parabolic basins, and user functions. Moving and turning the frame moves "
    "and turns the state. Interpolation evaluates exactly this state at every "
    "degree of freedom, and the states used at boundaries are those of the "
    "same function at the current time.",
    ["inputs", "configurations"],
    "All initial states of the Euler, Euler with arbitrary equation of state, "
    "shallow water and scalar modules in 1-3 dimensions, generated "
    "parameters, frames, positions, times.",
    "The tests run a few of them with one set of parameters each.",
    [S + "initial_values.template.h", S + "initial_values.h",
     EU + "initial_state_library_euler.h",
     SW + "initial_state_library_shallow_water.h",
     SC + "initial_state_library.template.h",
     AE + "initial_state_library.template.h",
     EU + "initial_state_shock_front.h", EU + "initial_state_noh.h",
     EU + "initial_state_becker_solution.h",
     EU + "initial_state_isentropic_vortex.h",
     SW + "initial_state_paraboloid.h",
     SW + "initial_state_ritter_dam_break.h"],
    [{"name": "affine transformation of the frame, interpolation",
      "where": S + "initial_values.template.h"},
     {"name": "the individual states",
      "where": "initial_state_*.h of every equation"}],
    ["InitialValues::initial_state", "InitialValues::interpolate_hyperbolic_vector"],
    ["init_euler", "init_aeos", "init_sw", "init_scalar"] + SYS,
    GEN + "Non-trivial: the state is not constant at the sampled points.",
    "property-based testing: differential check against independent "
    "formulas, jump conditions and finite-difference residuals of the "
    "equations; metamorphic relations of the frame",
    "random search",
    time=100., thorough_time=2400.,
)

prop(
    "P26", "Generated meshes have the documented shape and boundary parts",
    "For all admissible parameters a geometry is a conforming mesh of "
    "positively oriented cells whose union has exactly the documented shape, "
    "and every boundary face lies on a documented part of the boundary and "
    "carries its boundary condition; there are no other boundary faces. "
    "Refinement follows curved parts. On all of these meshes the lumped "
    "masses add up to the measure of the domain, the discrete gradient of "
    "constants vanishes and that of linear functions is exact, and boundary "
    "normals are unit normals of the parts they lie on.",
    ["configurations"],
    "Generated (and default) parameters of the geometries cylinder, disk, "
    "wall, wave tank, step, annulus and airfoil in two and three dimensions, "
    "levels of refinement and elements.",
    "The tests use a handful of meshes with default parameters.",
    [S + "geometry_cylinder.h", S + "geometry_disk.h", S + "geometry_wall.h",
     S + "geometry_tank.h", S + "geometry_step.h", S + "geometry_annulus.h",
     S + "geometry_airfoil.h", S + "discretization.template.h",
     S + "offline_data.template.h"],
    [{"name": "mesh construction and boundary ids",
      "where": S + "geometry_*.h create_triangulation()"},
     {"name": "assembly on these meshes",
      "where": S + "offline_data.template.h"}],
    ["Discretization::triangulation", "OfflineData matrices and boundary map"],
    ["geo"],
    GEN + "Non-trivial: every evaluated mesh.",
    "property-based testing: generated geometries against independent "
    "descriptions of the shape (signed parts, measures) and exactness "
    "identities of the operators",
    "random search; airfoils whose graded mesh cannot be created are "
    "discarded and counted; NACA profiles without camber are compared with "
    "their formula, of the tabulated airfoils only the extent",
    scale=3., time=120., thorough_time=2400.,
)

prop(
    "P29", "Output files show the computed states, when they are asked for",
    "Visualisation files and checkpoints are written at exactly the cycles "
    "that the output granularity and the multipliers and switches name. Every "
    "file shows the current mesh (or exactly its cells in the configured level "
    "sets), once, with conserved, primitive and precomputed quantities, "
    "limiter data, schlieren and vorticity indicators belonging to the "
    "current state and mesh; the analytic solution at the current time, and "
    "reported error norms, are those of the configured state.",
    ["configurations", "histories"],
    "Generated configurations of equations, meshes (hanging nodes, periodic), "
    "elements, schemes, output options, level sets, normalisation of errors, "
    "numbers of ranks.",
    "The tests compare logs and a handful of stored files of a few fixed "
    "configurations; none of them reads back a visualisation file.",
    [S + "vtu_output.template.h", S + "vtu_output.h",
     S + "postprocessor.template.h", S + "postprocessor.h"] + TL,
    [{"name": "cycles of output", "where": S + "time_loop.template.h output()"},
     {"name": "content of the files",
      "where": S + "vtu_output.template.h prepare(), schedule_output(); "
               + S + "postprocessor.template.h compute()"},
     {"name": "errors", "where": S + "time_loop.template.h compute_error()"}],
    ["vtu and pvtu files, log"],
    PROG,
    GEN + "Non-trivial: at least one file with cells was compared.",
    "property-based testing: parsed output files against an independent "
    "model of the schedule, the mesh and the postprocessed fields of the "
    "states dumped by another writer",
    "random search; schlieren and vorticity on continuous linear elements",
    run=["prog_out.py"], slots=4, time=420.,
)

prop(
    "P30", "A run is what its parameter file says, or is refused",
    "The file of parameters recorded by a run, and every file that lists the "
    "same settings in another order, with defaults spelled out or left out, "
    "gives the same results. A file with a mistake (unknown entry or "
    "section, value out of range or of the wrong type, unknown name, "
    "unbalanced section), a missing file or wrong arguments end in an error "
    "status before anything is computed.",
    ["configurations", "inputs"],
    "Generated configurations of all program variants, generated rewritings "
    "of their parameter files, generated mistakes, command lines.",
    "The tests use correct files only.",
    [S + "main.cc", S + "equation_dispatch.h"] + TL +
    [S + "discretization.template.h", S + "initial_values.template.h",
     S + "time_integrator.template.h"],
    [{"name": "parsing and dispatch",
      "where": S + "main.cc, " + S + "equation_dispatch.h"},
     {"name": "lookup of names",
      "where": "parse_parameters callbacks of the modules"}],
    ["exit status, files written, quantities files"],
    PROG,
    GEN + "Non-trivial: the rewritten file differs, or the mistake is "
    "effective.",
    "property-based testing: metamorphic relations between parameter files; "
    "injected mistakes against the requirement of refusal",
    "random search",
    run=["prog_out.py"], slots=4, time=300.,
)

NOT_APPLICABLE = []
