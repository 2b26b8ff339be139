// Exact solution of the Riemann problem for a covolume / stiffened ideal gas
// with individual gamma on either side, in long double.
#pragma once

#include <cmath>
#include <utility>

namespace exact
{
  using R = long double;

  struct Side {
    R rho, u, p, gamma; /* p physical pressure */
    R b, pinf;
    R a() const
    {
      return std::sqrt(gamma * (p + pinf) / (rho * (1 - b * rho)));
    }
    R f(R ps) const
    {
      const R P = p + pinf, Q = ps + pinf;
      if (ps >= p) {
        const R A = 2 * (1 - b * rho) / ((gamma + 1) * rho);
        const R B = (gamma - 1) / (gamma + 1) * P;
        return (ps - p) * std::sqrt(A / (Q + B));
      }
      return 2 * a() * (1 - b * rho) / (gamma - 1) *
             (std::pow(Q / P, (gamma - 1) / (2 * gamma)) - 1);
    }
    /* speed of the fastest signal relative to u */
    R signal(R ps) const
    {
      const R r = std::max<R>(0, (ps - p) / (p + pinf));
      return a() * std::sqrt(1 + (gamma + 1) / (2 * gamma) * r);
    }
  };

  /* Star pressure; -pinf when a vacuum forms. */
  inline R p_star(const Side &l, const Side &r)
  {
    auto phi = [&](R p) { return l.f(p) + r.f(p) + r.u - l.u; };
    const R pinf = l.pinf;
    if (phi(-pinf) >= 0)
      return -pinf;
    /* bisection in log(p + pinf) */
    R hi = std::max(l.p, r.p) + pinf;
    while (phi(hi - pinf) < 0)
      hi *= 4;
    R lo = hi;
    int guard = 0;
    while (phi(lo - pinf) > 0 && guard++ < 400)
      lo /= 16;
    if (guard >= 400)
      return -pinf;
    while (hi > lo * (1 + 1e-3L)) {
      const R m = std::sqrt(lo) * std::sqrt(hi);
      if (m <= lo || m >= hi)
        break;
      (phi(m - pinf) < 0 ? lo : hi) = m;
    }
    /* phi is concave: chords approach the root from the right */
    const R fl = phi(lo - pinf);
    for (int i = 0; i < 8 && fl < 0; ++i) {
      const R fh = phi(hi - pinf);
      if (!(fh > 0))
        break;
      hi = std::max(lo, hi - fh * (hi - lo) / (fh - fl));
    }
    lo = std::max(lo, hi * (1 - 1e-17L));
    return lo - pinf; /* from below: the exact bound is not overstated */
  }

  /* The bound (sqrt of the root of a quadratic) that replaces both shock
     curves by their secants at max(p_l, p_r). */
  inline R p_failsafe(const Side &l, const Side &r)
  {
    const R q = std::max(l.p + l.pinf, r.p + r.pinf);
    auto x = [&](const Side &s) {
      const R P = s.p + s.pinf;
      return std::sqrt(2 * (1 - s.b * s.rho) * q /
                       (s.rho * ((s.gamma + 1) * q + (s.gamma - 1) * P)));
    };
    const R xl = x(l), xr = x(r);
    const R a = xl + xr, b = r.u - l.u;
    const R c = -(l.p + l.pinf) * xl - (r.p + r.pinf) * xr;
    const R w = (-b + std::sqrt(b * b - 4 * a * c)) / (2 * a);
    return w * w - l.pinf;
  }

  /* The largest wave speed (absolute value) of the Riemann fan. */
  inline R lambda_max(const Side &l, const Side &r, R *ps = nullptr)
  {
    const R p = p_star(l, r);
    if (ps)
      *ps = p;
    const R lm = l.u - l.signal(p);
    const R rp = r.u + r.signal(p);
    return std::max(std::max<R>(rp, 0), std::max<R>(-lm, 0));
  }
} // namespace exact
