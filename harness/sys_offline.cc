// P21: the precomputed operators.
#include "sys_traits.h"

#include <deal.II/base/quadrature_lib.h>
#include <deal.II/fe/fe_values.h>
#include <deal.II/lac/full_matrix.h>

using D = ryujin::ScalarConservation::Description;

namespace
{
  template <int dim>
  struct Setup {
    using S = Sys<D, dim>;
    Mesh<dim> mesh;
    std::unique_ptr<S> y;
    double even = 0., odd = 0.;

    Setup(Src &s, const MeshOptions &mo)
    {
      fresh_parameters();
      mesh = random_mesh<dim>(s, mo);
      y = std::make_unique<S>();
      even = s.pick({0.5, 0., 1.5});
      odd = s.pick({0., 0.3, 1.});
      const std::string prm =
          mesh.prm() + "subsection D - OfflineData\n" +
          prm_entry("incidence matrix relaxation even degree", even) +
          prm_entry("incidence matrix relaxation odd degree", odd) + "end\n";
      set_prm(prm);
      if (getenv("VERIF_PRM"))
        std::cerr << prm;
      s.note("mesh", mesh.show());
      s.label(mesh.ansatz);
      if (mesh.hanging)
        s.label("hanging");
      y->setup(mesh);
      s.note("nodes", double(y->n));
    }
    int degree() const { return mesh.ansatz[4] - '0'; }
    double volume() const
    {
      double v = 1.;
      for (int d = 0; d < dim; ++d)
        v *= mesh.hi[d] - mesh.lo[d];
      return v;
    }
  };

  /* A monomial in normalized coordinates */
  template <int dim>
  struct Mono {
    int e[3] = {0, 0, 0};
    double lo[3], L[3];
    template <typename M>
    Mono(Src &s, const M &m, int degree, bool affine)
    {
      int left = affine ? 100 : degree;
      for (int d = 0; d < dim; ++d) {
        e[d] = m.periodic[d] ? 0 : int(s.range(0, std::min(degree, left)));
        left -= e[d];
        lo[d] = m.lo[d];
        L[d] = m.hi[d] - m.lo[d];
      }
    }
    double value(const dealii::Point<dim> &x) const
    {
      double r = 1.;
      for (int d = 0; d < dim; ++d)
        r *= std::pow((x[d] - lo[d]) / L[d], e[d]);
      return r;
    }
    dealii::Tensor<1, dim> grad(const dealii::Point<dim> &x) const
    {
      dealii::Tensor<1, dim> g;
      for (int k = 0; k < dim; ++k) {
        if (e[k] == 0)
          continue;
        double r = e[k] / L[k];
        for (int d = 0; d < dim; ++d)
          r *= std::pow((x[d] - lo[d]) / L[d], e[d] - (d == k));
        g[k] = r;
      }
      return g;
    }
    int total() const { return e[0] + e[1] + e[2]; }
  };

  /* v_i += sum of the entries of a cell vector, constraints resolved */
  template <typename S, typename V>
  void add(const S &y, dealii::types::global_dof_index g, const V &x,
           std::vector<V> &to)
  {
    const auto &ac = y.off.affine_constraints();
    auto put = [&](dealii::types::global_dof_index k, double w) {
      to[y.off.scalar_partitioner()->global_to_local(k)] += w * x;
    };
    if (!ac.is_constrained(g))
      put(g, 1.);
    else
      for (const auto &[k, w] : *ac.get_constraint_entries(g))
        put(k, w);
  }

  template <int dim>
  void operators(Src &s)
  {
    MeshOptions mo;
    Setup<dim> z(s, mo);
    auto &y = *z.y;
    using Vec = typename std::decay_t<decltype(y)>::Vec;
    const auto &ac = y.off.affine_constraints();
    const auto &part = *y.off.scalar_partitioner();
    const auto &sp = y.off.sparsity_pattern_simd();
    const double V = z.volume();
    const int k = z.degree();

    /* the stencil */
    require(y.n == y.off.dof_handler().n_dofs(), "number of unknowns");
    for (unsigned i = 0; i < y.n; ++i) {
      require(ac.is_constrained(part.local_to_global(i)) == y.constrained(i) ||
                  y.n == 1 || z.mesh.ansatz == "dG Q0",
              "node ", i, " has a row of length ", y.rows[i].size());
      if (y.constrained(i))
        continue;
      require(y.rows[i][0].j == i, "row ", i, " does not start with itself");
      std::set<unsigned> seen;
      for (unsigned c = 0; c < y.rows[i].size(); ++c) {
        const auto &e = y.rows[i][c];
        require(seen.insert(e.j).second, "column twice in row ", i);
        require(e.back >= 0, "entry ", i, ",", e.j, " without its transpose");
        require(!y.constrained(e.j) || z.mesh.ansatz == "dG Q0" || y.n == 1,
                "row ", i, " couples to constrained node ", e.j);
        require(y.off.mass_matrix().get_transposed_entry(i, c) ==
                    y.rows[e.j][e.back].m,
                "transposed entry of the mass matrix at ", i, ",", e.j);
        require((y.off.cij_matrix().get_transposed_tensor(i, c) -
                 y.c[e.j][e.back])
                        .norm() == 0.,
                "transposed entry of the gradient matrix at ", i, ",", e.j);
      }
      (void)sp;
    }

    /* masses */
    double total = 0.;
    const double eps = 1e-12;
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.rows[i].size() <= 1 && ac.is_constrained(part.local_to_global(i)))
        continue;
      total += y.mass[i];
      require(y.mass[i] > 0., "lumped mass ", y.mass[i], " of node ", i);
      close(y.off.lumped_mass_matrix_inverse().local_element(i) * y.mass[i], 1.,
            1e-14, "inverse lumped mass");
      double sum = 0., size = 0.;
      for (auto &e : y.rows[i]) {
        sum += e.m;
        size += std::abs(e.m);
        close(e.m, y.rows[e.j][e.back].m, eps * V, "symmetry of the mass matrix");
      }
      close(sum, y.mass[i], eps * size, "row sum of the mass matrix, node ", i);
    }
    /* the midpoint rule is not exact for distorted hexahedra */
    const bool exact = dim < 3 || k > 0 || z.mesh.distort == 0.;
    close(total, y.off.measure_of_omega(), 1e-11 * V,
          "sum of all lumped masses");
    close(y.off.measure_of_omega(), V, (exact ? 1e-11 : 0.3) * V,
          "measure of the domain");

    /* moments: exact for polynomials the ansatz contains */
    const bool affine = z.mesh.distort == 0.;
    const Mono<dim> p(s, z.mesh, k, affine);
    s.label(p.total() == 0 ? "moment 0"
                           : p.total() == 1 ? "moment 1" : "moment 2+");
    std::map<dealii::types::global_dof_index, dealii::Point<dim>> sup;
    dealii::DoFTools::map_dofs_to_support_points(
        y.disc.mapping(), y.off.dof_handler(), sup);

    const auto &fe = y.disc.finite_element();
    dealii::QGauss<dim> quad(k + 3);
    dealii::FEValues<dim> fv(y.disc.mapping(), fe, quad,
                             dealii::update_values |
                                 dealii::update_quadrature_points |
                                 dealii::update_gradients |
                                 dealii::update_JxW_values);
    /* distorted hexahedra: the quadrature of the code is not exact; use it */
    dealii::FEValues<dim> fv_same(y.disc.mapping(), fe, y.disc.quadrature(),
                                  dealii::update_values |
                                      dealii::update_quadrature_points |
                                      dealii::update_gradients |
                                      dealii::update_JxW_values);
    auto &f = dim == 3 && !affine ? fv_same : fv;
    std::vector<double> mp(y.n, 0.), sm(y.n, 0.);
    std::vector<Vec> cp(y.n), nn(y.n);
    std::vector<double> sc(y.n, 0.);
    std::vector<dealii::types::global_dof_index> dofs(fe.dofs_per_cell);
    for (const auto &cell : y.off.dof_handler().active_cell_iterators()) {
      f.reinit(cell);
      cell->get_dof_indices(dofs);
      for (unsigned a = 0; a < dofs.size(); ++a) {
        double m = 0., sz = 0.;
        Vec g;
        for (unsigned q = 0; q < f.n_quadrature_points; ++q) {
          const double w = f.shape_value(a, q) * f.JxW(q);
          const auto x = f.quadrature_point(q);
          m += w * p.value(x);
          sz += std::abs(w);
          g += w * p.grad(x);
        }
        add(y, dofs[a], m, mp);
        add(y, dofs[a], g, cp);
        add(y, dofs[a], sz, sm);
      }
    }
    /* boundary part of C + C^T */
    std::vector<std::vector<Vec>> anti(y.n, std::vector<Vec>(y.n));
    dealii::QGauss<dim - 1> fq(k + 2);
    dealii::FEFaceValues<dim> ff(y.disc.mapping(), fe, fq,
                                 dealii::update_values |
                                     dealii::update_normal_vectors |
                                     dealii::update_JxW_values);
    for (const auto &cell : y.off.dof_handler().active_cell_iterators()) {
      cell->get_dof_indices(dofs);
      for (const auto face : cell->face_indices()) {
        if (!cell->at_boundary(face) || cell->has_periodic_neighbor(face))
          continue;
        ff.reinit(cell, face);
        for (unsigned a = 0; a < dofs.size(); ++a) {
          std::vector<Vec> col(y.n);
          bool any = false;
          for (unsigned b = 0; b < dofs.size(); ++b) {
            Vec v;
            for (unsigned q = 0; q < ff.n_quadrature_points; ++q)
              v += ff.shape_value(a, q) * ff.shape_value(b, q) * ff.JxW(q) *
                   ff.normal_vector(q);
            if (v.norm() == 0.)
              continue;
            any = true;
            add(y, dofs[b], v, col);
          }
          if (!any)
            continue;
          for (unsigned j = 0; j < y.n; ++j) {
            if (col[j].norm() == 0.)
              continue;
            const Vec x = col[j];
            std::vector<Vec> row(y.n);
            add(y, dofs[a], x, row);
            for (unsigned i = 0; i < y.n; ++i)
              anti[i][j] += row[i];
          }
        }
      }
    }
    const auto at = [&](unsigned i) {
      return sup[part.local_to_global(i)];
    };
    double cmax = 0.;
    for (unsigned i = 0; i < y.n; ++i)
      for (unsigned c = 0; c < y.rows[i].size(); ++c)
        cmax = std::max(cmax, y.c[i][c].norm());
    for (unsigned i = 0; i < y.n; ++i) {
      if (ac.is_constrained(part.local_to_global(i)))
        continue;
      double m = 0.;
      Vec g, g0;
      for (unsigned c = 0; c < y.rows[i].size(); ++c) {
        const auto &e = y.rows[i][c];
        const double u = p.value(at(e.j));
        m += e.m * u;
        g += y.c[i][c] * u;
        g0 += y.c[i][c];
        close((y.c[i][c] + y.c[e.j][e.back] - anti[i][e.j]).norm(), 0.,
              1e-11 * cmax, "c_ij + c_ji at ", at(i), " and ", at(e.j),
              ", compared with the boundary integral");
      }
      close(g0.norm(), 0., 1e-11 * cmax, "sum of c_ij, node ", i);
      close(m, mp[i], 1e-11 * sm[i], "mass matrix times a polynomial, node ",
            i, " at ", at(i));
      if (k > 0)
        close((g - cp[i]).norm(), 0., 1e-10 * cmax,
              "gradient matrix times a polynomial, node ", i, " at ", at(i));
    }

    /* dG: inverse and incidence */
    if (y.dg) {
      for (unsigned i = 0; i < y.n; ++i) {
        std::map<unsigned, double> r, size;
        for (auto &e : y.rows[i])
          for (auto &g : y.rows[e.j]) {
            r[g.j] += e.m * g.minv;
            size[g.j] += std::abs(e.m * g.minv);
          }
        for (auto &[j, v] : r)
          close(v, j == i ? 1. : 0., 1e-12 * std::max(1., size[j]),
                "mass matrix times its inverse at ", i, ",", j);
        unsigned faces = 0;
        for (auto &e : y.rows[i]) {
          bool same = e.j != i;
          double dist = 0.;
          if (!exact) /* normalized by an inexact measure */
            continue;
          for (int d = 0; d < dim; ++d) {
            const double L = z.mesh.hi[d] - z.mesh.lo[d];
            double dx = at(e.j)[d] - at(i)[d];
            if (z.mesh.periodic[d])
              dx -= L * std::round(dx / L);
            dist = std::max(dist, std::abs(dx) / L);
          }
          if (k > 0)
            same = same && dist < 1e-8;
          else
            same = same && y.c[i][&e - y.rows[i].data()].norm() > 1e-14 * cmax;
          /* cells sharing only a vertex or an edge are not in the stencil */
          const double hd = 0.5 * (y.mass[i] + y.mass[e.j]) / V;
          const double want =
              same ? std::pow(hd, (k % 2 ? z.odd : z.even) / dim) : 0.;
          faces += same;
          close(e.inc, want, 1e-11 * std::max(1., want),
                "incidence of the nodes at ", at(i), " and ", at(e.j));
        }
        (void)faces;
      }
    }
    s.nontrivial(y.n > 2);
  }

  /* ------------------------------------------------------------- boundary */

  template <int dim>
  void boundary_map(Src &s)
  {
    MeshOptions mo;
    mo.bcs = {"do nothing", "slip", "no slip", "dirichlet", "dynamic",
              "dirichlet momentum"};
    mo.distort = false;
    Setup<dim> z(s, mo);
    auto &y = *z.y;
    using Vec = typename std::decay_t<decltype(y)>::Vec;
    const auto &ac = y.off.affine_constraints();
    const auto &part = *y.off.scalar_partitioner();
    static const std::map<std::string, unsigned> ids{
        {"do nothing", rj::Boundary::do_nothing},
        {"slip", rj::Boundary::slip},
        {"no slip", rj::Boundary::no_slip},
        {"dirichlet", rj::Boundary::dirichlet},
        {"dynamic", rj::Boundary::dynamic},
        {"dirichlet momentum", rj::Boundary::dirichlet_momentum}};

    /* expected: (node, side) -> integral of the shape function, |.|: from the
       cells alone, i.e., without the contribution of constrained nodes */
    const auto &fe = y.disc.finite_element();
    dealii::QGauss<dim - 1> fq(fe.degree + 2);
    dealii::FEFaceValues<dim> ff(y.disc.mapping(), fe, fq,
                                 dealii::update_values |
                                     dealii::update_normal_vectors |
                                     dealii::update_JxW_values);
    struct W {
      double mass = 0., plain = 0.;
    };
    std::map<std::pair<unsigned, int>, W> want;
    std::vector<dealii::types::global_dof_index> dofs(fe.dofs_per_cell);
    std::vector<double> area(2 * dim, 0.);
    for (const auto &cell : y.off.dof_handler().active_cell_iterators()) {
      cell->get_dof_indices(dofs);
      for (const auto face : cell->face_indices()) {
        if (!cell->at_boundary(face) || cell->has_periodic_neighbor(face))
          continue;
        ff.reinit(cell, face);
        int side = -1;
        for (int d = 0; d < dim; ++d)
          if (std::abs(ff.normal_vector(0)[d]) > 0.9)
            side = 2 * d + (ff.normal_vector(0)[d] > 0);
        for (unsigned a = 0; a < dofs.size(); ++a) {
          if (!fe.has_support_on_face(a, face))
            continue;
          double m = 0.;
          for (unsigned q = 0; q < ff.n_quadrature_points; ++q)
            m += ff.shape_value(a, q) * ff.JxW(q);
          area[side] += m;
          if (!ac.is_constrained(dofs[a]))
            want[{part.global_to_local(dofs[a]), side}].plain += m;
          auto addto = [&](auto g, double w) {
            want[{part.global_to_local(g), side}].mass += w * m;
          };
          if (!ac.is_constrained(dofs[a]))
            addto(dofs[a], 1.);
          else
            for (const auto &[g, w] : *ac.get_constraint_entries(dofs[a]))
              addto(g, w);
        }
      }
    }
    for (int f = 0; f < 2 * dim; ++f) {
      double A = z.mesh.periodic[f / 2] ? 0. : 1.;
      for (int d = 0; d < dim; ++d)
        if (d != f / 2)
          A *= z.mesh.hi[d] - z.mesh.lo[d];
      close(area[f], A, 1e-11 * A, "harness: area of side ", f);
    }

    std::map<std::pair<unsigned, int>, int> found;
    for (const auto &[i, normal, nm, bm, id, x] : y.off.boundary_map()) {
      require(i < y.n && !ac.is_constrained(part.local_to_global(i)),
              "boundary map with node ", i);
      close((x - y.pos[i]).norm(), 0., 1e-12 * (1. + x.norm()),
            "position of a boundary node");
      int side = -1;
      for (int d = 0; d < dim; ++d)
        if (std::abs(std::abs(normal[d]) - 1.) < 1e-10 + 5e-16 / nm)
          side = 2 * d + (normal[d] > 0);
      require(side >= 0, "normal ", normal, " at ", x);
      require(want.count({i, side}), "node at ", x,
              " with boundary data for side ", side);
      require(++found[{i, side}] == 1, "node at ", x, " twice for side ", side);
      /* id: two different slip sides at one corner become no slip in 2D */
      unsigned expect = ids.at(z.mesh.bc[side]);
      if (dim == 2 && z.mesh.bc[side] == "slip")
        for (int other = 0; other < 4; ++other)
          if (other != side && !z.mesh.periodic[other / 2] &&
              want.count({i, other}) && want.at({i, other}).plain != 0. &&
              z.mesh.bc[other] == "slip")
            expect = rj::Boundary::no_slip;
      require(id == expect, "boundary id ", unsigned(id), " instead of ",
              expect, " at ", x, " side ", side);
      const auto &w = want.at({i, side});
      close(nm, std::abs(w.plain), 1e-10 * area[side],
            "normal mass at ", x, " side ", side);
      close(bm, w.plain, 1e-10 * area[side], "boundary mass at ", x,
            " side ", side);
      if (std::abs(w.plain - w.mass) > 1e-8 * area[side])
        s.count("incomplete boundary mass");
    }
    for (auto &[key, w] : want)
      if (!z.mesh.periodic[key.second / 2] && std::abs(w.plain) > 0.)
        require(found.count(key), "node at ", y.pos[key.first],
                " is missing in the boundary map, side ", key.second);

    /* coupling boundary pairs: exactly those of two boundary nodes */
    std::vector<bool> on(y.n, false);
    for (auto &[key, w] : want)
      on[key.first] = on[key.first] || std::abs(w.plain) > 0.;
    std::set<std::pair<unsigned, unsigned>> pairs;
    for (const auto &[i, c, j] : y.off.coupling_boundary_pairs()) {
      require(i < y.n && c < y.rows[i].size() && y.rows[i][c].j == j,
              "coupling pair ", i, " ", c, " ", j);
      require(pairs.insert({i, j}).second, "coupling pair twice");
    }
    double cmax = 0.;
    for (unsigned i = 0; i < y.n; ++i)
      for (auto &v : y.c[i])
        cmax = std::max(cmax, v.norm());
    for (unsigned i = 0; i < y.n; ++i) {
      if (y.constrained(i))
        continue;
      for (unsigned c = 1; c < y.rows[i].size(); ++c) {
        const auto &e = y.rows[i][c];
        const bool listed = pairs.count({i, e.j});
        if (on[i] && on[e.j])
          require(listed, "boundary nodes at ", y.pos[i], " and ",
                  y.pos[e.j], " are not listed as a coupling pair");
        if (!listed)
          close((y.c[i][c] + y.c[e.j][e.back]).norm(), 0., 1e-11 * cmax,
                "c_ij + c_ji of a pair that is no coupling boundary pair: ",
                y.pos[i], " and ", y.pos[e.j]);
      }
    }
    (void)sizeof(Vec);
    s.nontrivial(!found.empty());
  }

  /* ---------------------------------------------------------- constraints */

  template <int dim>
  void constraints(Src &s)
  {
    MeshOptions mo;
    mo.dg = false;
    mo.distort = false;
    Setup<dim> z(s, mo);
    auto &y = *z.y;
    const auto &ac = y.off.affine_constraints();
    std::map<dealii::types::global_dof_index, dealii::Point<dim>> sup;
    dealii::DoFTools::map_dofs_to_support_points(
        y.disc.mapping(), y.off.dof_handler(), sup);
    s.nontrivial(ac.n_constraints() > 0);
    std::map<std::array<long, dim>, unsigned> seen;
    for (const auto &[i, x] : sup) {
      if (!ac.is_constrained(i)) {
        std::array<long, dim> key;
        for (int d = 0; d < dim; ++d) {
          const double L = z.mesh.hi[d] - z.mesh.lo[d];
          double r = (x[d] - z.mesh.lo[d]) / L;
          if (z.mesh.periodic[d] && r > 1. - 1e-8)
            r = 0.;
          key[d] = std::lround(r * 1e7);
        }
        require(seen.emplace(key, i).second,
                "two independent degrees of freedom at ", x);
        continue;
      }
      double sum = 0.;
      for (int d = 0; d < dim; ++d) {
        const double L = z.mesh.hi[d] - z.mesh.lo[d];
        sum = 0.;
        double mean = 0.;
        for (const auto &[j, w] : *ac.get_constraint_entries(i)) {
          require(!ac.is_constrained(j), "constrained to a constrained node");
          sum += w;
          double dx = sup[j][d] - x[d];
          if (z.mesh.periodic[d])
            dx -= L * std::round(dx / L);
          mean += w * dx;
        }
        close(mean, 0., 1e-9 * L, "constraint of node at ", x,
              " is not consistent, direction ", d);
      }
      close(sum, 1., 1e-12, "constraint weights at ", x);
    }
    /* every hanging position is resolved: the constrained space is
       continuous across all faces, also periodic ones */
    std::vector<double> values(y.n);
    std::mt19937 gen(z.mesh.seed);
    for (auto &v : values)
      v = double(gen()) / 4294967296.;
    auto value = [&](dealii::types::global_dof_index g) {
      if (!ac.is_constrained(g))
        return values[y.off.scalar_partitioner()->global_to_local(g)];
      double r = 0.;
      for (const auto &[j, w] : *ac.get_constraint_entries(g))
        r += w * values[y.off.scalar_partitioner()->global_to_local(j)];
      return r;
    };
    const auto &fe = y.disc.finite_element();
    std::vector<dealii::types::global_dof_index> dofs(fe.dofs_per_cell);
    auto evaluate = [&](const auto &cell, const dealii::Point<dim> &x) {
      const auto u =
          y.disc.mapping().transform_real_to_unit_cell(cell, x);
      cell->get_dof_indices(dofs);
      double r = 0.;
      for (unsigned a = 0; a < dofs.size(); ++a)
        r += value(dofs[a]) * fe.shape_value(a, u);
      return r;
    };
    for (const auto &cell : y.off.dof_handler().active_cell_iterators())
      for (const auto f : cell->face_indices()) {
        if (cell->at_boundary(f) && !cell->has_periodic_neighbor(f))
          continue;
        const auto nb = cell->neighbor_or_periodic_neighbor(f);
        if (nb->has_children() || nb->level() > cell->level())
          continue; /* checked from the finer side */
        dealii::Point<dim> x = cell->face(f)->center();
        for (int d = 0; d < dim; ++d)
          if (d != int(f) / 2)
            x[d] += cell->extent_in_direction(d) *
                    (double(gen()) / 4294967296. - 0.5) * 0.9;
        dealii::Point<dim> x2 = x;
        const int d = int(f) / 2;
        if (cell->has_periodic_neighbor(f))
          x2[d] += (f % 2 ? -1. : 1.) * (z.mesh.hi[d] - z.mesh.lo[d]);
        const double a = evaluate(cell, x), b = evaluate(nb, x2);
        close(a, b, 1e-9, "jump of a discrete function at ", x);
      }
  }
} // namespace

#define FACET(what, fn, dim, q, t)                                             \
  PBT(std::string("P21." what "_") + #dim "d", q, t, (fn<dim>))

FACET("operators", operators, 1, 600, 20000);
FACET("operators", operators, 2, 400, 15000);
FACET("operators", operators, 3, 80, 4000);
FACET("boundary", boundary_map, 1, 600, 20000);
FACET("boundary", boundary_map, 2, 500, 20000);
FACET("boundary", boundary_map, 3, 150, 8000);
FACET("constraints", constraints, 1, 200, 5000);
FACET("constraints", constraints, 2, 500, 20000);
FACET("constraints", constraints, 3, 200, 8000);

SYS_MAIN
