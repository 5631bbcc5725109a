// Reference solutions of Riemann problems, written from the textbook wave relations and solved by bisection
// in extended precision. The right half of a solution is obtained from the left half of the mirrored problem.
#ifndef VERIF_RIEMANN_REF_HPP
#define VERIF_RIEMANN_REF_HPP
#include <cmath>
#include <utility>
namespace ref {
using real = long double;
struct W { real rho, u, p; };
struct Sample { W w; bool left; real jump; /* distance of xi to the closest discontinuity */ };
inline real sound(const W& w, real g) { return std::sqrt(g * w.p / w.rho); }
inline bool vacuum(const W& l, const W& r, real g, real margin) {
  return r.u - l.u >= margin * 2 / (g - 1) * (sound(l, g) + sound(r, g));
}
// velocity change over the wave that connects w with pressure p
inline real wave(real p, const W& w, real g) {
  if (p > w.p) return (p - w.p) / std::sqrt(0.5L * w.rho * ((g + 1) * p + (g - 1) * w.p));
  return 2 * sound(w, g) / (g - 1) * (std::pow(p / w.p, (g - 1) / (2 * g)) - 1);
}
inline std::pair<real, real> star(const W& l, const W& r, real g) {
  real lo = 0, hi = std::fmax(l.p, r.p);
  auto f = [&](real p) { return wave(p, l, g) + wave(p, r, g) + r.u - l.u; };
  while (f(hi) < 0) hi *= 2;
  for (int i = 0; i < 400; ++i) {
    real m = 0.5L * (lo + hi);
    (f(m) < 0 ? lo : hi) = m;
  }
  const real p = 0.5L * (lo + hi);
  return {p, 0.5L * (l.u + r.u) + 0.5L * (wave(p, r, g) - wave(p, l, g))};
}
inline Sample sample_left(const W& l, real pm, real um, real g, real xi) { // xi <= um
  const real a = sound(l, g);
  Sample s{l, true, std::fabs(xi - um)};
  if (pm > l.p) {
    // shock speed from the jump in mass: s = (rho u - rho_m u_m)/(rho - rho_m)
    const real z = pm / l.p, b = (g - 1) / (g + 1);
    const real rm = l.rho * (z + b) / (b * z + 1);
    const real S = l.u - std::sqrt(((g + 1) * pm + (g - 1) * l.p) / (2 * l.rho));
    s.jump = std::fmin(s.jump, std::fabs(xi - S));
    if (xi > S) s.w = {rm, um, pm};
  } else {
    const real am = a + 0.5L * (g - 1) * (l.u - um);
    auto isentropic = [&](real c, real u) {
      const real q = c / a;
      return W{l.rho * std::pow(q, 2 / (g - 1)), u, l.p * std::pow(q, 2 * g / (g - 1))};
    };
    if (xi >= um - am) s.w = isentropic(am, um);
    else if (xi > l.u - a) {
      // u - c = xi and u + 2c/(g-1) = const
      const real c = ((l.u - xi) * (g - 1) + 2 * a) / (g + 1);
      s.w = isentropic(c, xi + c);
    }
  }
  return s;
}
inline Sample sample(const W& l, const W& r, real g, real xi) {
  const auto [pm, um] = star(l, r, g);
  if (xi <= um) return sample_left(l, pm, um, g, xi);
  const W m{r.rho, -r.u, r.p};
  Sample s = sample_left(m, pm, -um, g, -xi);
  s.w.u = -s.w.u;
  s.left = false;
  return s;
}
// fastest signals to the left and to the right
inline std::pair<real, real> signals(const W& l, const W& r, real g) {
  const real pm = star(l, r, g).first;
  auto head = [&](const W& w, real u) { return pm > w.p ? u - std::sqrt(((g + 1) * pm + (g - 1) * w.p) / (2 * w.rho)) : u - sound(w, g); };
  return {head(l, l.u), -head(r, -r.u)};
}
// ---- shallow water ------------------------------------------------------
struct H { real h, u; };
inline real sw_wave(real h, const H& w, real g) {
  if (h > w.h) return (h - w.h) * std::sqrt(0.5L * g * (h + w.h) / (h * w.h));
  return 2 * (std::sqrt(g * h) - std::sqrt(g * w.h));
}
inline bool sw_dry(const H& l, const H& r, real g, real margin) { return r.u - l.u >= margin * 2 * (std::sqrt(g * l.h) + std::sqrt(g * r.h)); }
inline std::pair<real, real> sw_star(const H& l, const H& r, real g) {
  real lo = 0, hi = std::fmax(l.h, r.h);
  auto f = [&](real h) { return sw_wave(h, l, g) + sw_wave(h, r, g) + r.u - l.u; };
  while (f(hi) < 0) hi *= 2;
  for (int i = 0; i < 400; ++i) {
    real m = 0.5L * (lo + hi);
    (f(m) < 0 ? lo : hi) = m;
  }
  const real h = 0.5L * (lo + hi);
  return {h, 0.5L * (l.u + r.u) + 0.5L * (sw_wave(h, r, g) - sw_wave(h, l, g))};
}
struct SwSample { H w; bool left; real jump; };
inline SwSample sw_left(const H& l, real hm, real um, real g) { // at x/t = 0 <= um
  SwSample s{l, true, std::fabs(um)};
  if (hm > l.h) {
    const real S = l.u - std::sqrt(0.5L * g * hm * (hm + l.h) / l.h);
    s.jump = std::fmin(s.jump, std::fabs(S));
    if (S < 0) s.w = {hm, um};
  } else {
    const real a = std::sqrt(g * l.h), am = std::sqrt(g * hm);
    if (um - am <= 0) s.w = {hm, um};
    else if (l.u - a < 0) {
      const real c = (l.u + 2 * a) / 3;
      s.w = {c * c / g, c};
    }
  }
  return s;
}
inline SwSample sw_sample(const H& l, const H& r, real g) {
  const auto [hm, um] = sw_star(l, r, g);
  if (um >= 0) return sw_left(l, hm, um, g);
  SwSample s = sw_left({r.h, -r.u}, hm, -um, g);
  s.w.u = -s.w.u;
  s.left = false;
  return s;
}
inline std::pair<real, real> sw_signals(const H& l, const H& r, real g) {
  const real hm = sw_star(l, r, g).first;
  auto head = [&](const H& w, real u) { return hm > w.h ? u - std::sqrt(0.5L * g * hm * (hm + w.h) / w.h) : u - std::sqrt(g * w.h); };
  return {head(l, l.u), -head(r, -r.u)};
}
} // namespace ref
#endif
