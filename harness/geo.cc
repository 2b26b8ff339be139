// P26: the library of geometries.
#include "sys_traits.h"

#include <deal.II/base/quadrature_lib.h>
#include <deal.II/fe/fe_values.h>

using D = ryujin::ScalarConservation::Description;

namespace
{
  namespace B = ryujin;

  template <int dim>
  using Pt = dealii::Point<dim>;
  template <int dim>
  using VecD = dealii::Tensor<1, dim>;

  /* a part of the boundary as it is documented */
  template <int dim>
  struct Part {
    std::string what;
    unsigned id;
    std::function<double(const Pt<dim> &)> off;          // distance
    std::function<VecD<dim>(const Pt<dim> &)> normal;    // outward
    double size;                                         // length, area
    double radius = 0.;                                  // of a curved part
  };

  template <int dim>
  struct Shape {
    std::string name, params;
    std::vector<Part<dim>> parts;
    double measure = 0.;  // of the smooth domain
    double height = 1.;   // of an extruded domain
    double slack = 0.;    // documented deviations, e.g. a rounded corner
    double slack_length = 0.;
    int min_refine = 0, max_refine = 2;
    bool high_order = true;
    bool ball = false;
    bool loose = false;   // parts are reached up to one cell only
  };

  /* axis parallel part: x[d] == c within the box lo..hi of the others */
  template <int dim>
  Part<dim> flat(std::string what, unsigned id, int d, double c, int sign,
                 std::array<double, 3> lo, std::array<double, 3> hi)
  {
    Part<dim> p;
    p.what = what;
    p.id = id;
    p.off = [=](const Pt<dim> &x) {
      double r = std::abs(x[d] - c);
      for (int k = 0; k < dim; ++k)
        if (k != d)
          r = std::max({r, lo[k] - x[k], x[k] - hi[k]});
      return r;
    };
    p.normal = [=](const Pt<dim> &) {
      VecD<dim> n;
      n[d] = sign;
      return n;
    };
    p.size = 1.;
    for (int k = 0; k < dim; ++k)
      if (k != d)
        p.size *= hi[k] - lo[k];
    return p;
  }

  template <int dim>
  Shape<dim> random_shape(Src &s)
  {
    Shape<dim> g;
    const bool standard = s.chance(0.2);
    auto P = [&](const char *n, double def, double lo, double hi) {
      if (standard)
        return def;
      const double v = std::round(s.uniform(lo, hi) * 1e3) / 1e3;
      g.params += prm_entry(n, v);
      return v;
    };
    const int kind = dim == 2 ? int(s.pick<int>({0, 0, 1, 2, 3, 4, 5, 6, 6}))
                              : int(s.pick<int>({0, 0, 0, 0, 1, 1, 1, 1, 6}));
    if (standard)
      s.label("default parameters");
    switch (kind) {
    case 0: {
      g.name = "cylinder";
      const double diam = P("object diameter", 0.5, 0.2, 0.8);
      const double H = P("height", 2., 2.3 * diam, 6. * diam);
      const double pos = P("object position", 0.6, 1.1 * diam, 3. * diam);
      const double L =
          P("length", 4., pos + 1.3 * diam, pos + 8. * diam);
      const double a = -pos, b = L - pos, r = diam / 2.;
      const std::array<double, 3> lo{a, -H / 2., -H / 2.}, hi{b, H / 2., H / 2.};
      g.parts.push_back(flat<dim>("inflow", B::dirichlet, 0, a, -1, lo, hi));
      g.parts.push_back(flat<dim>("outflow", B::do_nothing, 0, b, 1, lo, hi));
      for (int d = 1; d < dim; ++d)
        for (int k : {-1, 1})
          g.parts.push_back(
              flat<dim>("channel wall", B::slip, d, k * H / 2., k, lo, hi));
      g.height = dim == 3 ? H : 1.;
      if (dim == 3)
        for (auto &p : g.parts)
          if (p.normal(Pt<dim>())[dim - 1] != 0.)
            p.size -= M_PI * r * r;
      Part<dim> c;
      c.what = "object";
      c.id = B::slip;
      c.radius = r;
      c.off = [=](const Pt<dim> &x) {
        return std::abs(std::hypot(x[0], x[1]) - r);
      };
      c.normal = [=](const Pt<dim> &x) {
        VecD<dim> n;
        n[0] = -x[0] / std::hypot(x[0], x[1]);
        n[1] = -x[1] / std::hypot(x[0], x[1]);
        return n;
      };
      c.size = 2. * M_PI * r * g.height;
      g.parts.push_back(c);
      g.measure = (L * H - M_PI * r * r) * g.height;
      g.max_refine = dim == 3 ? 0 : 2;
      break;
    }
    case 1: {
      g.name = "disk";
      const double r = P("radius", 1.2, 0.1, 5.);
      const bool balanced = standard || s.chance(0.5);
      if (!standard)
        g.params += std::string("set balanced = ") +
                    (balanced ? "true\n" : "false\n");
      unsigned id = B::dirichlet;
      if (!standard) {
        static const std::vector<std::pair<const char *, unsigned>> v{
            {"dirichlet", B::dirichlet},
            {"slip", B::slip},
            {"no slip", B::no_slip},
            {"do nothing", B::do_nothing},
            {"dynamic", B::dynamic},
            {"dirichlet momentum", B::dirichlet_momentum}};
        const auto &w = v[s.range(0, v.size() - 1)];
        g.params += std::string("set boundary condition = ") + w.first + "\n";
        id = w.second;
      }
      Part<dim> c;
      c.what = "sphere";
      c.id = id;
      c.radius = r;
      c.off = [=](const Pt<dim> &x) { return std::abs(x.norm() - r); };
      c.normal = [=](const Pt<dim> &x) { return x / x.norm(); };
      c.size = dim == 2 ? 2. * M_PI * r : 4. * M_PI * r * r;
      g.parts.push_back(c);
      g.measure = dim == 2 ? M_PI * r * r : 4. / 3. * M_PI * r * r * r;
      g.ball = true;
      g.max_refine = dim == 3 ? 1 : 3;
      break;
    }
    case 2: {
      g.name = "wall";
      const double L = P("length", 3.2, 1., 5.);
      const double H = P("height", 1., 0.3, 3.);
      const double w = P("wall position", 1. / 6., 0.05, 0.8);
      const std::array<double, 3> lo{0., 0., 0.}, hi{L, H, 0.};
      g.parts.push_back(flat<dim>("left", B::dirichlet, 0, 0., -1, lo, hi));
      g.parts.push_back(flat<dim>("top", B::dirichlet, 1, H, 1, lo, hi));
      g.parts.push_back(flat<dim>("right", B::do_nothing, 0, L, 1, lo, hi));
      g.parts.push_back(
          flat<dim>("wall", B::slip, 1, 0., -1, {w, 0, 0}, {L, 0, 0}));
      g.parts.push_back(flat<dim>("bottom, in front of the wall", B::dirichlet,
                                  1, 0., -1, {0, 0, 0}, {w, 0, 0}));
      g.measure = L * H;
      break;
    }
    case 3: {
      g.name = "wave tank";
      const double RL = P("reservoir length", 1.57, 0.02, 0.12);
      const double FW = P("flume width", 0.24, 0.01, 0.06);
      const double RW =
          P("reservoir width", 0.81, FW + 0.02, FW + 0.08);
      const double FL = P("flume length", 6.0078, 0.02, 0.2);
      g.parts.push_back(flat<dim>("end of the flume", B::dynamic, 0, FL, 1,
                                  {0, -FW / 2, 0}, {0, FW / 2, 0}));
      g.parts.push_back(flat<dim>("back wall", B::slip, 0, -RL, -1,
                                  {0, -RW / 2, 0}, {0, RW / 2, 0}));
      for (int k : {-1, 1}) {
        g.parts.push_back(flat<dim>("side of the reservoir", B::slip, 1,
                                    k * RW / 2, k, {-RL, 0, 0}, {0, 0, 0}));
        g.parts.push_back(flat<dim>("side of the flume", B::slip, 1,
                                    k * FW / 2, k, {0, 0, 0}, {FL, 0, 0}));
        g.parts.push_back(flat<dim>(
            "front wall", B::slip, 0, 0., 1,
            {0, k > 0 ? FW / 2 : -RW / 2, 0}, {0, k > 0 ? RW / 2 : -FW / 2, 0}));
      }
      g.measure = RL * RW + FL * FW;
      g.max_refine = standard ? 0 : 1;
      break;
    }
    case 4: {
      g.name = "step";
      const double L = P("length", 3., 2.2, 3.8);
      const double H = P("height", 1., 0.7, 1.5);
      const double sp = P("step position", 0.6, 0.35, 0.95);
      const double sh = P("step height", 0.2, 0.14, 0.3);
      const double rad = 0.0125;
      g.parts.push_back(
          flat<dim>("inflow", B::dirichlet, 0, 0., -1, {0, 0, 0}, {0, H, 0}));
      g.parts.push_back(
          flat<dim>("outflow", B::do_nothing, 0, L, 1, {0, sh, 0}, {0, H, 0}));
      g.parts.push_back(
          flat<dim>("top", B::slip, 1, H, 1, {0, 0, 0}, {L, 0, 0}));
      g.parts.push_back(
          flat<dim>("bottom", B::slip, 1, 0., -1, {0, 0, 0}, {sp, 0, 0}));
      /* (the corner of the step is rounded off) */
      Part<dim> c = flat<dim>("face of the step", B::slip, 0, sp, 1,
                              {0, 0, 0}, {0, sh, 0});
      auto round = [=](std::function<double(const Pt<dim> &)> f) {
        return [=](const Pt<dim> &x) {
          if (std::hypot(x[0] - sp, x[1] - sh) < 2.5 * rad)
            return std::max(0., f(x) - 0.5 * rad);
          return f(x);
        };
      };
      c.off = round(c.off);
      g.parts.push_back(c);
      c = flat<dim>("top of the step", B::slip, 1, sh, -1, {sp, 0, 0},
                    {L, 0, 0});
      c.off = round(c.off);
      g.parts.push_back(c);
      g.measure = L * H - (L - sp) * sh;
      g.slack = rad * rad;
      g.slack_length = 2. * rad;
      g.max_refine = 0;
      g.high_order = false;
      break;
    }
    case 5: {
      g.name = "annulus";
      const double L = P("length", 2., 1.7, 3.);
      const double ri = P("inner radius", 0.6, 0.4, 0.65);
      const double ro = P("outer radius", 0.7, ri + 0.06, ri + 0.12);
      const double ang = P("coverage angle", 45., 15., 75.);
      const std::array<double, 3> lo{-L / 2, -L / 2, 0}, hi{L / 2, L / 2, 0};
      for (int d = 0; d < 2; ++d)
        for (int k : {-1, 1})
          g.parts.push_back(
              flat<dim>("square", B::slip, d, k * L / 2, k, lo, hi));
      const double tol = 3. * M_PI / 180.;
      const double a = ang * M_PI / 180.;
      auto inside = [=](const Pt<dim> &x) {
        return std::atan2(std::abs(x[1]), std::abs(x[0])) - a - tol;
      };
      for (double r : {ri, ro}) {
        Part<dim> c;
        c.what = r == ri ? "inner arc" : "outer arc";
        c.id = B::slip;
        c.radius = r;
        c.off = [=](const Pt<dim> &x) {
          return std::max(std::abs(x.norm() - r), inside(x));
        };
        c.normal = [=](const Pt<dim> &x) {
          return (r == ri ? 1. : -1.) * x / x.norm();
        };
        c.size = 4. * a * r;
        g.parts.push_back(c);
      }
      Part<dim> c;
      c.what = "end of the annulus";
      c.id = B::slip;
      c.off = [=](const Pt<dim> &x) {
        const double r = x.norm();
        const double w = std::atan2(std::abs(x[1]), std::abs(x[0]));
        return std::max({ri - r - 1e-6, r - ro - 1e-6, std::abs(w - a) - tol});
      };
      c.normal = [=](const Pt<dim> &x) {
        VecD<dim> n;
        n[0] = std::copysign(std::sin(a), x[0]);
        n[1] = -std::copysign(std::cos(a), x[1]);
        return n;
      };
      c.size = 4. * (ro - ri);
      c.radius = -1.;
      g.parts.push_back(c);
      g.measure = L * L - 2. * a * (ro * ro - ri * ri);
      g.slack = 4. * tol * (ro * ro - ri * ri);
      g.slack_length = 16. * tol * ro;
      g.loose = true;
      g.max_refine = 0;
      g.high_order = false;
      break;
    }
    default: {
      g.name = "airfoil";
      std::string type = "NASA SC(2) 0714";
      double thick = 0.;
      if (!standard) {
        const auto k = s.range(0, 5);
        if (k < 3) {
          const int t = int(s.range(6, 21));
          thick = t / 100.;
          type = std::string("NACA 00") + (t < 10 ? "0" : "") +
                 std::to_string(t);
        } else
          type = k == 3 ? "NASA SC(2) 0714"
                        : (k == 4 ? "ONERA OAT15a" : "BELL NLR-1T");
        g.params += "set airfoil type = " + type + "\n";
      }
      s.label(type.substr(0, 4));
      const double len = P("airfoil length", 2., 0.5, 2.5);
      const double H = P("height", 6., 2.6 * len, 4. * len);
      const double pc = standard ? 0.05 : 0.03 + 0.01 * s.range(0, 4);
      const double ac = standard ? -.5 : -0.01 * s.range(15, 35) * len;
      if (!standard) {
        g.params += "set psi center = " + std::to_string(pc) + ", 0\n";
        g.params += "set airfoil center = " + std::to_string(ac) + ", 0\n";
        g.params += "set anisotropic pre refinement airfoil = " +
                    std::to_string(s.range(0, 2)) + "\n";
      }
      if (dim == 3) {
        g.height = P("width", 1., 0.5, 2.);
        if (!standard)
          g.params += "set subdivisions z = " + std::to_string(s.range(2, 4)) +
                      "\n";
      }
      const double R = 0.5 * H, front = ac - pc * len, W = g.height;
      /* the upper surface */
      auto profile = [=](double x) {
        x = std::min(1., std::max(0., x));
        return 5. * thick *
               (0.2969 * std::sqrt(x) - 0.126 * x - 0.3516 * x * x +
                0.2843 * x * x * x - 0.1036 * x * x * x * x);
      };
      const double q = std::sqrt(3.) / 2.;
      const std::vector<std::array<double, 2>> poly{
          {R / 2, -q * R}, {R, -R / 2}, {R, R / 2}, {R / 2, q * R}};
      const double l1 = std::hypot(R / 2, q * R - R / 2);
      Part<dim> back;
      back.what = "back of the outer boundary";
      back.id = B::dynamic;
      back.off = [=](const Pt<dim> &x) {
        double best = 1e10;
        for (int k = 0; k < 3; ++k) {
          const double ex = poly[k + 1][0] - poly[k][0],
                       ey = poly[k + 1][1] - poly[k][1];
          const double l = std::hypot(ex, ey);
          best = std::min(best, std::abs((x[0] - poly[k][0]) * ey -
                                         (x[1] - poly[k][1]) * ex) /
                                    l);
        }
        return std::max({0., best - 1e-5 * R, R / 2 - x[0]});
      };
      back.normal = [=](const Pt<dim> &) { return VecD<dim>(); };
      back.size = (2. * l1 + R) * W;
      if (dim == 3)
        for (int k : {0, 1}) {
          Part<dim> z;
          z.what = "side";
          z.id = B::periodic;
          z.off = [=](const Pt<dim> &x) {
            return std::abs(x[dim - 1] - k * W);
          };
          z.normal = [=](const Pt<dim> &) {
            VecD<dim> n;
            n[dim - 1] = k ? 1. : -1.;
            return n;
          };
          g.parts.push_back(z);
        }
      g.parts.push_back(back);
      Part<dim> o;
      o.what = "front of the outer boundary";
      o.id = B::dynamic;
      o.off = [=](const Pt<dim> &x) {
        return std::max({0., std::abs(std::hypot(x[0], x[1]) - R) - 1e-5 * R,
                         x[0] - R / 2});
      };
      o.normal = [=](const Pt<dim> &x) {
        VecD<dim> n;
        n[0] = x[0];
        n[1] = x[1];
        return n / n.norm();
      };
      o.radius = R;
      o.size = 4. * M_PI / 3. * R * W;
      g.parts.push_back(o);
      Part<dim> c;
      c.what = "airfoil";
      c.id = B::no_slip;
      c.off = [=](const Pt<dim> &x) {
        const double a = (x[0] - front) / len, b = std::abs(x[1]) / len;
        if (thick == 0.) // only the extent is known
          return std::max({1e-9, -a - 1e-8, a - 1. - 1e-8, b - 0.1});
        /* distance to the curve */
        double best = 1e10;
        for (int k = 0; k <= 400; ++k) {
          const double u = double(k) / 400., xx = u * u;
          best = std::min(best, std::hypot(a - xx, b - profile(xx)));
        }
        /* sampling of the curve above, interpolation by splines */
        return std::max(1e-9, best - 3e-3) * len;
      };
      c.normal = [=](const Pt<dim> &) { return VecD<dim>(); };
      c.radius = -2.;
      double length = 0., area = 0.;
      for (int k = 0; k < 2000; ++k) {
        const double u = double(k) / 2000., v = double(k + 1) / 2000.;
        length += std::hypot(v * v - u * u, profile(v * v) - profile(u * u));
        area += (v * v - u * u) * (profile(v * v) + profile(u * u)) / 2.;
      }
      if (thick > 0.) {
        c.size = 2. * length * len * W;
        area *= 2. * len * len;
      } else {
        c.size = 2.05 * len * W;
        area = 0.08 * len * len;
      }
      g.parts.push_back(c);
      double outer = 2. * M_PI / 3. * R * R;
      for (int k = 0; k < 3; ++k)
        outer += 0.5 * (poly[k][0] * poly[k + 1][1] -
                        poly[k + 1][0] * poly[k][1]);
      g.measure = (outer - area) * W;
      g.slack = (thick > 0. ? 0.08 : 0.4) * area * W;
      g.slack += 1e-4 * R * R * W;
      g.slack_length = 0.08 * len * W;
      g.loose = true;
      g.min_refine = 2;
      g.max_refine = dim == 2 ? 3 : 2;
      g.high_order = false;
    }
    }
    s.note("geometry", g.name + (standard ? " (default)" : ""));
    s.note("parameters", g.params);
    s.label(g.name);
    return g;
  }

  template <int dim>
  void domain(Src &s)
  {
    const auto g = random_shape<dim>(s);
    Mesh<dim> mesh;
    mesh.ansatz = s.pick(g.high_order
                             ? std::vector<std::string>{"cG Q1", "cG Q1",
                                                        "cG Q2", "dG Q1"}
                             : std::vector<std::string>{"cG Q1"});
    mesh.refine = s.range(g.min_refine, g.max_refine);
    if (mesh.ansatz == "cG Q2" && dim == 3)
      mesh.refine = g.min_refine;
    s.label(mesh.ansatz);
    s.note("refinement", double(mesh.refine));
    fresh_parameters();
    auto y = std::make_unique<Sys<D, dim>>();
    set_prm("subsection C - Discretization\n  set finite element ansatz = " +
            mesh.ansatz + "\n  set geometry = " + g.name +
            "\n  set mesh refinement = " + std::to_string(mesh.refine) +
            "\n  set mesh writeout = false\n  subsection " + g.name + "\n" +
            g.params + "  end\nend\n");
    try {
      y->disc.prepare("unused");
    } catch (const dealii::ExceptionBase &e) {
      /* (the graded mesh cannot always be created) */
      if (g.name == "airfoil" &&
          std::string(e.what()).find("chart coordinates") != std::string::npos)
        pbt::discard_unless(false);
      throw;
    }
    auto &tria = y->disc.triangulation();
    s.note("cells", double(tria.n_active_cells()));
    const double diameter = std::pow(g.measure, 1. / dim);
    const double eps = 1e-7 * diameter;

    /* cells */
    double total = 0.;
    {
      dealii::MappingQ<dim> q1(1);
      const auto &fe = y->disc.finite_element();
      dealii::QGauss<dim> q(3);
      dealii::FEValues<dim> fv(q1, fe, q, dealii::update_JxW_values);
      for (const auto &cell : tria.active_cell_iterators()) {
        fv.reinit(cell);
        for (unsigned k = 0; k < q.size(); ++k) {
          require(fv.JxW(k) > 0., "cell with a negative Jacobian at ",
                  cell->center());
          total += fv.JxW(k);
        }
      }
    }

    /* boundary faces */
    std::vector<double> size(g.parts.size(), 0.);
    double segment = 0.; // between polygon and curve
    for (const auto &cell : tria.active_cell_iterators())
      for (const auto f : cell->face_indices()) {
        const auto face = cell->face(f);
        if (!face->at_boundary())
          continue;
        int hit = -1;
        double best = eps;
        for (unsigned k = 0; k < g.parts.size(); ++k) {
          double r = 0.;
          for (unsigned v = 0; v < face->n_vertices(); ++v)
            r = std::max(r, g.parts[k].off(face->vertex(v)));
          if (g.parts[k].radius > -2. && g.parts[k].radius <= 0.)
            r = std::max(r, g.parts[k].off(face->center()) - 1e-6);
          if (r < best) {
            best = r;
            hit = k;
          }
        }
        require(hit >= 0, "boundary face at ", face->center(),
                " lies on no part of the boundary of \"", g.name, "\"");
        const auto &p = g.parts[hit];
        require(face->boundary_id() == p.id, "boundary id ",
                unsigned(face->boundary_id()), " instead of ", p.id, " at ",
                face->center(), " (", p.what, ")");
        const double m = face->measure();
        size[hit] += m;
        if (p.radius > 0. && dim - g.ball * (dim == 3) == dim) {
          const double chord = m / g.height * 1.;
          double c = chord;
          if (dim == 3) {
            /* chord in the xy-plane */
            c = 0.;
            for (unsigned v = 0; v < face->n_vertices(); ++v)
              for (unsigned w = 0; w < v; ++w) {
                const auto e = face->vertex(v) - face->vertex(w);
                c = std::max(c, std::hypot(e[0], e[1]));
              }
          }
          const double th = 2. * std::asin(std::min(1., c / 2. / p.radius));
          const double len = dim == 3 ? m / c : 1.;
          segment +=
              (p.what == "object" || p.what == "outer arc" ? 1. : -1.) * 0.5 *
              p.radius * p.radius * (th - std::sin(th)) * len;
        }
      }
    if (g.ball && dim == 3) {
      /* an inscribed polyhedron */
      const double h = 1.7 / (1 << mesh.refine);
      require(total < g.measure && total > g.measure * (1. - 0.35 * h * h),
              "volume ", total, " of a ball of volume ", g.measure);
    } else
      close(total, g.measure + segment, 1e-9 * g.measure + g.slack,
            "measure of the domain");
    for (unsigned k = 0; k < g.parts.size(); ++k) {
      const auto &p = g.parts[k];
      double want = p.size, tol = 1e-9 * p.size + g.slack_length;
      if (p.what == "side") {
        want = total / g.height;
        tol = 1e-6 * want;
      }
      if (p.radius > 0.)
        tol += (g.ball && dim == 3 && mesh.refine == 0 ? 0.4 : 0.15) * p.size;
      if (g.name == "cylinder" && dim == 3 && p.what == "channel wall")
        tol += 1e-1 * M_PI * std::pow(g.parts.back().radius, 2);
      if (g.name == "step" || g.name == "wave tank" || g.name == "wall")
        tol += 1e-6 * p.size;
      close(size[k], want, tol, "size of the boundary part ", p.what);
    }
    s.count("boundary parts", double(g.parts.size()));

    /* unknowns and their boundary data */
    y->dg = mesh.dg();
    y->prepare();
    double mass = 0.;
    for (unsigned i = 0; i < y->n; ++i)
      mass += y->mass[i];
    if (mesh.ansatz[4] == '1')
      close(mass, total, 1e-10 * total, "sum of the lumped masses");
    else
      require(std::abs(mass - g.measure) <=
                  0.5 * std::abs(total - g.measure) + 1e-9 * g.measure,
              "lumped masses add up to ", mass, " for a domain of measure ",
              g.measure, " and straight cells of measure ", total);
    if (!mesh.dg())
      for (unsigned i = 0; i < y->n; ++i) {
        if (y->rows[i].size() == 1)
          continue; // constrained
        VecD<dim> sum;
        dealii::Tensor<2, dim> grad;
        double scale = 0.;
        for (unsigned c = 0; c < y->rows[i].size(); ++c) {
          sum += y->c[i][c];
          scale += y->c[i][c].norm();
          const auto dx = y->pos[y->rows[i][c].j] - y->pos[i];
          for (int a = 0; a < dim; ++a)
            for (int b = 0; b < dim; ++b)
              grad[a][b] += y->c[i][c][a] * dx[b];
        }
        close(sum.norm(), 0., 1e-12 * scale, "row sum of c_ij at ", y->pos[i]);
        if (g.name == "airfoil" && dim == 3)
          continue; // periodic
        for (int a = 0; a < dim; ++a)
          for (int b = 0; b < dim; ++b)
            close(grad[a][b], a == b ? y->mass[i] : 0., 1e-9 * y->mass[i],
                  "gradient of a linear function at ", y->pos[i]);
      }
    std::map<unsigned, double> bsum, fsum;
    for (unsigned k = 0; k < g.parts.size(); ++k)
      fsum[g.parts[k].id] += size[k];
    for (const auto &[i, normal, nm, bm, id, x] : y->off.boundary_map()) {
      close(normal.norm(), 1., 1e-10, "norm of the normal at ", x);
      bsum[id] += bm;
      /* the normal belongs to a part of the boundary through this point */
      double best = 10.;
      bool any = false;
      for (auto &p : g.parts) {
        const double r = p.off(x);
        if (r > eps)
          continue;
        any = true;
        double e = (p.normal(x) - normal).norm();
        if (p.radius != 0.)
          e = std::max(0., e - 0.42); // chords of at most 45 degrees
        best = std::min(best, e);
      }
      require(any, "boundary node at ", x, " lies on no part of the boundary");
      if (!g.loose && !(g.slack > 0. && dim == 2) &&
          !(g.ball && dim == 3 && mesh.refine == 0))
        require(best < 1e-8 + 1e-7 * (dim == 3) || corner(g, x, eps, normal),
                "normal ", normal, " at ", x);
    }
    (void)bsum;
    s.nontrivial(true);
  }

  /* normals of parts that meet at an obtuse angle are merged */
  template <int dim>
  bool corner(const Shape<dim> &g, const Pt<dim> &x, double eps,
              const VecD<dim> &normal)
  {
    int n = 0;
    for (auto &p : g.parts)
      if (p.off(x) < eps) {
        ++n;
        if (p.radius != 0. && (p.normal(x) * normal) > 0.7)
          return true;
      }
    (void)n;
    return false;
  }
} // namespace

PBT(std::string("P26.domain_2d"), 60, 3000, (domain<2>));
PBT(std::string("P26.domain_3d"), 20, 800, (domain<3>));

SYS_MAIN
