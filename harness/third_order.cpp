#include "muscl.hpp"
#include "fub/flux_method/FluxMethod.hpp"
#include "fub/equations/perfect_gas/ThirdOrderRungeKuttaMethod.hpp"
namespace {
using Method = perfect_gas::ThirdOrderRungeKutta<1>;
using Stencil = std::vector<Complete<PG1>>;
Method make(Adapter<PG1>& A, double k0, double eta0) { Method m(A.eq); m.k_0 = k0; m.eta_0 = eta0; return m; }
}
// Stencils of 12 cells that are constant up to one jump or one different cell.
SCENARIO("stencils-third-order", "all pairs of nearby states x positions of a jump or of a single different cell x 2 time steps x 4 coefficients of diffusion; 8 lanes", 3) {
  auto& A = adapter<PG1>(ctx.choose(2));
  auto& cs = clusters(A, 5);
  const int base = ctx.choose(ctx.thorough() ? int(cs.size()) : std::min<int>(6, int(cs.size())));
  auto& pool = cs[base];
  const int n = int(pool.size()), i = ctx.choose(n), j = ctx.choose(n), pos = ctx.choose(12), spike = ctx.choose(2);
  const double cfl = ctx.pick({0.0, 0.2}), k0 = ctx.pick({0.0, 1e-3}), eta0 = ctx.pick({0.0, 1e-3});
  Method m = make(A, k0, eta0);
  Caller<PG1, Method, 12> call{A, m, Direction::X};
  auto build = [&](int a, int b, int p, int sp) { Stencil s; for (int c = 0; c < 12; ++c) s.push_back(pool[(sp ? c == p : c >= p) ? b : a]); return s; };
  const Stencil s = build(i, j, pos, spike);
  double sm = 0;
  for (const auto& q : pool) sm = std::max(sm, smax_of(A, q, 0));
  const double dx = 0.125, dt = cfl * dx / sm;
  const V scale = scale_of(A, pool, 0), f = call.scalar(s, Direction::X, dt, dx);
  auto text = [&] { return mc::cat("states ", show(flat(AsCons(pool[i]))), " | ", show(flat(AsCons(pool[j]))), spike ? " spike " : " jump ", pos, " cfl ", cfl, " k0 ", k0, " eta0 ", eta0); };
  if (i == j) { const V e = A.flux(s[5], Direction::X); ctx.check(same(f, e, scale, 1e-11), "inconsistent", show(f), " expected ", show(e), text()); }
  Stencil mir;
  for (int c = 11; c >= 0; --c) mir.push_back(A.mirror(s[c], 0));
  Conservative<PG1> g(A.eq);
  std::size_t k = 0;
  const V raw = call.scalar(mir, Direction::X, dt, dx);
  ForEachComponent([&](double& x) { x = raw[k++]; }, g);
  ctx.check(same(flat(A.mirror_flux(g, 0)), f, scale, 1e-11), "not-mirror-symmetric", show(flat(A.mirror_flux(g, 0))), " expected ", show(f), text());
  std::vector<Stencil> lanes;
  for (int l = 0; l < W; ++l) lanes.push_back(build((i + l) % n, (j + 3 * l) % n, (pos + 5 * l) % 12, (spike + l / 2) % 2));
  const std::vector<V> fv = call.vector(lanes, Direction::X, dt, dx);
  for (int l = 0; l < W; ++l) { const V e = call.scalar(lanes[l], Direction::X, dt, dx); ctx.check(same(fv[l], e, scale, 1e-11), "vectorised-flux-differs", "lane ", l, " ", show(fv[l]), " expected ", show(e), text()); }
  { // without diffusion the units of length and time do not matter; diffusion scales with the inverse of length
    Method w = make(A, 8 * k0, 8 * eta0);
    Caller<PG1, Method, 12> other{A, w, Direction::X};
    const V e = other.scalar(s, Direction::X, 8 * dt, 8 * dx);
    ctx.check(same(e, f, scale, 1e-11), "depends-on-units", show(e), " expected ", show(f), text());
  }
  { // the step of the two cells at the face
    double h = 1e300;
    for (int c : {5, 6}) h = std::min(h, dx / smax_of(A, s[c], 0));
    const double x = m.ComputeStableDt(span<const Complete<PG1>, 12>(s.data(), 12), dx, Direction::X);
    ctx.check(std::fabs(x - h) <= 1e-12 * h, "stable-step-differs", x, " expected ", h);
    std::vector<CompleteArray<PG1>> t(12, CompleteArray<PG1>(A.eq));
    for (int l = 0; l < W; ++l) for (int c = 0; c < 12; ++c) set_lane(t[c], lanes[l][c], l);
    const Array1d y = m.ComputeStableDt(span<const CompleteArray<PG1>, 12>(t.data(), 12), dx, Direction::X);
    for (int l = 0; l < W; ++l) { h = m.ComputeStableDt(span<const Complete<PG1>, 12>(lanes[l].data(), 12), dx, Direction::X); ctx.check(std::fabs(y[l] - h) <= 1e-12 * h, "stable-step-differs", "lane ", l, " ", y[l], " expected ", h); }
  }
  ctx.transition(12);
  ctx.validated();
  ctx.state(mc::Hash().add(base).add(i).add(j).add(pos).add(spike).add(cfl).add(k0).add(eta0));
}
// A density wave in a uniform flow is linear advection: three stages of third order, edge values that keep the variance of white noise.
SCENARIO("advection-third-order", "all pool states as uniform flow x a disturbed density in every pair of the 12 cells x 3 time steps", 1) {
  auto& A = adapter<PG1>(ctx.choose(2));
  const int i = ctx.choose(int(A.pool.size())), c1 = ctx.choose(12), c2 = ctx.choose(12);
  const double cfl = ctx.pick({0.0, 0.1, 0.4}), size = ctx.pick({0.05, -0.05});
  Method m = make(A, 0, 0);
  Caller<PG1, Method, 12> call{A, m, Direction::X};
  const Complete<PG1>& q = A.pool[i];
  const double u = A.velocity(q, 0), p = A.pressure(q), sm = smax_of(A, q, 0), dx = 0.5, dt = cfl * dx / sm;
  Stencil s;
  std::vector<double> rho(12, q.density);
  rho[c1] *= 1 + size;
  if (c2 != c1) rho[c2] *= 1 - 0.4 * size;
  for (int c = 0; c < 12; ++c) { Array<double, 1, 1> v; v[0] = u; s.push_back(A.eq.CompleteFromPrim(rho[c], v, p)); }
  const double a1 = (std::sqrt(7.0) + 1) / 4, a2 = (std::sqrt(7.0) - 1) / 4;
  // mass flux of linear advection with three stages
  auto edge = [&](const std::vector<double>& r, int k) { return u * (a1 * (r[k - 1] + r[k]) - a2 * (r[k - 2] + r[k + 1])); };
  auto rate = [&](const std::vector<double>& r) { std::vector<double> o(12, 0.0); for (int k = 2; k < 10; ++k) o[k] = (edge(r, k) - edge(r, k + 1)) / dx; return o; };
  // integral mean over the step of the cubic Taylor polynomial of the flux: f(r) + dt/2 f(r') + dt^2/6 f(r'')
  const std::vector<double> r1 = rate(rho), r2 = rate(r1);
  const double f = edge(rho, 6) + dt / 2 * edge(r1, 6) + dt * dt / 6 * edge(r2, 6);
  const V g = call.scalar(s, Direction::X, dt, dx), h = call.vector(std::vector<Stencil>(W, s), Direction::X, dt, dx)[(c1 + c2) % W];
  const double scale = q.density * sm;
  for (const V& x : {g, h}) {
    ctx.check(std::fabs(x[0] - f) <= 1e-10 * scale, "wrong-advection", "mass flux ", x[0], " expected ", f, " velocity ", u, " cells ", c1, " ", c2, " cfl ", cfl);
  }
  ctx.transition(2);
  ctx.validated();
  ctx.state(mc::Hash().add(i).add(c1).add(c2).add(cfl).add(size));
}
// Linear data: second order flux of the face's state, minus viscous stress and heat conduction.
SCENARIO("order-third-order", ORDER, 1) { auto& A = adapter<PG1>(ctx.choose(2)); Method m = make(A, 0, 0); order<PG1, Method, 12>(ctx, A, m, opts(1e-10)); }
SCENARIO("diffusion-third-order", "all pairs (state, difference) x 3 coefficients of viscosity x 3 of conduction", 1) {
  auto& A = adapter<PG1>(ctx.choose(2));
  const int n = int(A.pool.size()), i = ctx.choose(n), du_ = ctx.choose(3), dT_ = ctx.choose(3);
  const double k0 = ctx.pick({0.0, 0.5, 2.0}), eta0 = ctx.pick({0.0, 0.25, 1.0});
  Method plain = make(A, 0, 0), m = make(A, k0, eta0);
  Caller<PG1, Method, 12> a{A, plain, Direction::X}, b{A, m, Direction::X};
  const Complete<PG1>& q = A.pool[i];
  const double u = A.velocity(q, 0), p = A.pressure(q), dx = 0.25;
  const double eps = 1e-4, c = A.sound(q), T = A.eq.Temperature(q), du = (du_ - 1) * eps * c, dT = (dT_ - 1) * eps * T;
  Stencil s;
  for (int k = 0; k < 12; ++k) {
    const double x = k - 5.5, Tk = T + x * dT;
    Array<double, 1, 1> v;
    v[0] = u + x * du;
    s.push_back(A.eq.CompleteFromPrim(p / (A.eq.Rspec * Tk), v, p));
  }
  const V f = a.scalar(s, Direction::X, 0.0, dx), g = b.scalar(s, Direction::X, 0.0, dx), h = b.vector(std::vector<Stencil>(W, s), Direction::X, 0.0, dx)[i % W];
  const double tau = 4.0 / 3.0 * eta0 * std::sqrt(T) * du / dx, heat = k0 * std::sqrt(T) * dT / dx;
  for (const V& x : {g, h}) {
    ctx.check(x[0] == f[0] || std::fabs(x[0] - f[0]) < 1e-12 * std::fabs(f[0]), "mass-diffuses", x[0], " ", f[0]);
    ctx.check(std::fabs(f[1] - x[1] - tau) <= 1e-5 * std::fabs(tau) + 1e-10 * std::fabs(f[1]), "wrong-stress", f[1] - x[1], " expected ", tau, " velocity ", u, " difference ", du, " temperature ", T);
    ctx.check(std::fabs(f[2] - x[2] - u * tau - heat) <= 1e-3 * eps * (std::fabs(tau) * c / eps + std::fabs(heat) / eps) + 1e-10 * (std::fabs(f[2]) + c * p), "wrong-heat-flux", f[2] - x[2], " expected ", u * tau + heat, " velocity ", u, " difference ", du, " temperature ", T, " ", dT);
  }
  ctx.transition(3);
  ctx.validated();
  ctx.state(mc::Hash().add(i).add(du_).add(dT_).add(k0).add(eta0));
}
