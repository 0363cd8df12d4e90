// C06: the exact Riemann solvers against an independent solution, the jump
// conditions and the equation of state.
#include "riemann.hpp"
#include "vm.hpp"
#include "fub/NewtonIteration.hpp"
#include <sstream>
#include "fub/equations/Advection.hpp"
#include "fub/equations/Burgers.hpp"
#include "fub/equations/ShallowWater.hpp"
#include "fub/equations/PerfectGas.hpp"
#include "fub/equations/perfect_gas/ExactRiemannSolver.hpp"
using namespace fub;
namespace {
constexpr int W = kDefaultChunkSize;
template <int N> PerfectGas<N> make_gas(vm::Rng& r) {
  PerfectGas<N> e; double g = r.choose({1.4, 1.4, 5.0 / 3.0, 1.2, 1.1, 1.3}); e.gamma = g; e.gamma_minus_1_inv = 1 / (g - 1); e.gamma_array_ = Array1d::Constant(g); e.gamma_minus_1_inv_array_ = Array1d::Constant(1 / (g - 1)); return e;
}
struct Pair { ref::Gas L, R; std::array<double, 3> vL{}, vR{}; int kind; double unit; };
// pairs of states over many decades; kind says which feature was aimed at
Pair random_pair(vm::Rng& r, double g, bool wide) {
  Pair q; q.kind = r.range(0, 6); double dec = wide ? r.choose({0.1, 1.0, 2.0, 3.0}) : 0.5; bool si = r.coin(0.3); double p0 = si ? 1e5 : 1, r0 = si ? 1.2 : 1; q.unit = std::sqrt(p0 / r0);
  auto one = [&] { ref::Gas s; s.rho = r0 * std::pow(10., r.uniform(-dec, dec) * 0.6); s.p = p0 * std::pow(10., r.uniform(-dec, dec)); s.u = 0; return s; };
  q.L = one(); q.R = one(); double a = std::max(ref::sound(q.L, g), ref::sound(q.R, g));
  q.L.u = r.uniform(-2, 2) * a; q.R.u = r.uniform(-2, 2) * a;
  switch (q.kind) {
  case 0: q.L.u = q.R.u = 0; break;                               // shock tube
  case 1: q.R = q.L; if (r.coin()) q.R.rho *= r.uniform(0.1, 10); break; // uniform or contact
  case 2: { double v = r.uniform(0, 3) * a; q.L.u = v; q.R.u = -v; } break; // collision
  case 3: { double v = r.uniform(0, 0.95) * (ref::sound(q.L, g) + ref::sound(q.R, g)) / (g - 1); q.L.u = -v; q.R.u = v; } break; // expansion
  case 4: q.L.u += r.uniform(-6, 6) * a; q.R.u = q.L.u; break; // supersonic drift
  default: break;
  }
  for (auto* v : {&q.vL, &q.vR}) for (auto& x : *v) x = r.coin(0.2) ? 0 : r.uniform(-2, 2) * a;
  // keep away from vacuum: shrink the velocity difference
  double lim = 0.9 * 2 * (ref::sound(q.L, g) + ref::sound(q.R, g)) / (g - 1); if (q.R.u - q.L.u > lim) { double mid = 0.5 * (q.L.u + q.R.u); q.L.u = mid - 0.5 * lim; q.R.u = mid + 0.5 * lim; }
  return q;
}
template <int N> typename PerfectGas<N>::Complete complete(const PerfectGas<N>& e, const ref::Gas& s, const std::array<double, 3>& v, int dir) {
  typename PerfectGas<N>::Complete q(e); q.density = s.rho; double k = 0; for (int d = 0; d < N; ++d) { double u = d == dir ? s.u : v[d]; if constexpr (N == 1) q.momentum = s.rho * u; else q.momentum[d] = s.rho * u; k += 0.5 * s.rho * u * u; }
  q.pressure = s.p; q.energy = s.p / (e.gamma - 1) + k; q.speed_of_sound = ref::sound(s, e.gamma); return q;
}
template <typename Q> double mom(const Q& q, int d) { if constexpr (std::is_same_v<std::decay_t<decltype(q.momentum)>, double>) return q.momentum; else return q.momentum[d]; }
template <typename Q, typename A> void lane_set(const Q& q, A& a, int l) { a.density[l] = q.density; for (int d = 0; d < a.momentum.rows(); ++d) a.momentum(d, l) = mom(q, d); a.energy[l] = q.energy; a.pressure[l] = q.pressure; a.speed_of_sound[l] = q.speed_of_sound; }
std::string show(const Pair& q) { return vm::str("kind ", q.kind, " L(", q.L.rho, ",", q.L.u, ",", q.L.p, ") R(", q.R.rho, ",", q.R.u, ",", q.R.p, ")"); }
// does a solver's state agree with the own solution on the ray xi (or an adjacent ray next to a jump)
struct Judge {
  vm::Case& c; const Pair& q; double g; ref::Star s; double vs, ps, rs, tol; 
  Judge(vm::Case& c_, const Pair& q_, double g_) : c(c_), q(q_), g(g_), s(ref::star(q_.L, q_.R, g_)) {
    double a = std::max(ref::sound(q.L, g), ref::sound(q.R, g)); vs = a + std::max(std::abs(q.L.u), std::abs(q.R.u)); ps = std::max({q.L.p, q.R.p, s.p}); rs = std::max(q.L.rho, q.R.rho);
    tol = 1e-8 + 1e-6 / std::min(ref::sound(q.L, g), ref::sound(q.R, g)); // the iteration stops at 1e-7 in units of velocity
  }
  bool match(double rho, double u, double p, const ref::Gas& x) const {
    double a = ref::sound(x, g), t = tol * 30; return std::abs(p - x.p) <= t * (x.p + std::min(x.rho * a * a * 10, ps) * 1e-3) && std::abs(rho - x.rho) <= t * x.rho && std::abs(u - x.u) <= t * (a + 1e-3 * vs) + tol * vs * 0.01;
  }
  // returns the side whose transverse velocity belongs to the state
  template <int N> int state(const PerfectGas<N>& e, const typename PerfectGas<N>::Complete& w, double xi, int dir, const char* key, const std::string& what) {
    double u = mom(w, dir) / w.density; int side = 0; bool ok = false;
    for (double d : {0.0, -1.0, 1.0, -0.1, 0.1, -0.01, 0.01, -1e-3, 1e-3}) { int sd; auto x = ref::sample(q.L, q.R, g, s, xi + d * 30 * tol * vs, sd); if (match(w.density, u, w.pressure, x)) { bool tr = true; for (int k = 0; k < N; ++k) if (k != dir) { double v = sd < 0 ? q.vL[k] : q.vR[k]; tr = tr && std::abs(mom(w, k) / w.density - v) <= 1e-12 * (std::abs(v) + vs); } if (tr) { ok = true; side = sd; break; } } }
    int sd; auto x = ref::sample(q.L, q.R, g, s, xi, sd);
    c.check(ok, key, what + vm::str(" xi=", xi, " got (", w.density, ",", u, ",", w.pressure, ") want (", x.rho, ",", x.u, ",", x.p, ") ", show(q)));
    // one thermodynamic state
    double k2 = 0; for (int k = 0; k < N; ++k) k2 += 0.5 * mom(w, k) * mom(w, k) / w.density; double E = w.pressure / (g - 1) + k2;
    c.close(w.energy, E, 1e-12 * E, (std::string(key) + "-energy").c_str(), what); c.rel(w.speed_of_sound, std::sqrt(g * w.pressure / w.density), 1e-12, (std::string(key) + "-sound").c_str(), what);
    return side;
  }
};
template <int N> void gas_case(vm::Case& c) {
  auto& r = c.rng; auto e = make_gas<N>(r); int dir = r.range(0, N - 1); ExactRiemannSolver<PerfectGas<N>> rs(e); typename PerfectGas<N>::CompleteArray AL(e), AR(e), AS(e), AM(e); MaskArray mask; std::vector<Pair> ps; typename PerfectGas<N>::Complete W0(e);
  for (int l = 0; l < W; ++l) { ps.push_back(random_pair(r, e.gamma, true)); lane_set(complete<N>(e, ps[l].L, ps[l].vL, dir), AL, l); lane_set(complete<N>(e, ps[l].R, ps[l].vR, dir), AR, l); mask[l] = r.coin(0.7); }
  rs.SolveRiemannProblem(AS, AL, AR, Direction(dir)); rs.SolveRiemannProblem(AM, AL, AR, mask, Direction(dir));
  auto get = [&](const auto& a, int l) { typename PerfectGas<N>::Complete q(e); q.density = a.density[l]; for (int d = 0; d < N; ++d) { if constexpr (N == 1) q.momentum = a.momentum(0, l); else q.momentum[d] = a.momentum(d, l); } q.energy = a.energy[l]; q.pressure = a.pressure[l]; q.speed_of_sound = a.speed_of_sound[l]; return q; };
  auto same = [&](const auto& a, const auto& b) { bool ok = a.density == b.density && a.energy == b.energy && a.pressure == b.pressure && a.speed_of_sound == b.speed_of_sound; for (int d = 0; d < N; ++d) ok = ok && mom(a, d) == mom(b, d); return ok; };
  std::string what = vm::fmt("PerfectGas<%d> gamma %.3g dir %d", N, e.gamma, dir); c.describe(what + " " + show(ps[0]));
  for (int l = 0; l < W; ++l) {
    const Pair& q = ps[l]; auto L = complete<N>(e, q.L, q.vL, dir), R = complete<N>(e, q.R, q.vR, dir); Judge j(c, q, e.gamma);
    auto m = rs.ComputeMiddleState(L, R, Direction(dir)); double aL = ref::sound(q.L, e.gamma), aR = ref::sound(q.R, e.gamma), zm = std::min(q.L.rho * aL, q.R.rho * aR) + 1e-300;
    double du = 1e-7 + 1e-9 * j.vs; // accepted residual of the iteration in velocity
    double zs = std::max(zm, j.s.p / std::min(aL, aR) * 2); c.close(m[0], j.s.p, 2 * du * zs + 1e-9 * j.s.p, "middle-pressure", what + show(q)); c.close(m[1], j.s.u, 2 * du + 1e-9 * j.vs, "middle-velocity", what + show(q));
    auto ed = ref::edges(q.L, q.R, e.gamma, j.s); auto sg = rs.ComputeSignals(L, R, Direction(dir)); c.close(sg[0], ed[0], 100 * j.tol * j.vs, "signal-left", what + show(q)); c.close(sg[1], ed[3], 100 * j.tol * j.vs, "signal-right", what + show(q));
    rs.SolveRiemannProblem(W0, L, R, Direction(dir)); j.template state<N>(e, W0, 0.0, dir, "interface", what);
    c.check(same(get(AS, l), W0), "vector", what + show(q)); if (mask[l]) c.check(same(get(AM, l), W0), "vector-masked", what + show(q)); else c.check(get(AM, l).density == 0 && get(AM, l).energy == 0 && get(AM, l).pressure == 0, "vector-closed", what + show(q));
    // any ray of the solution
    double xi, z = r.uniform(-0.5, 1.5); switch (r.range(0, 3)) { case 0: xi = ed[0] + z * (ed[3] - ed[0]); break; case 1: xi = ed[0] + z * (ed[1] - ed[0]); break; case 2: xi = ed[2] + z * (ed[3] - ed[2]); break; default: xi = j.s.u + (z - 0.5) * 0.1 * aL; }
    double dt = r.logu(1e-3, 10); typename PerfectGas<N>::Complete w(e); rs.SolveRiemannProblem(w, L, R, m[0], m[1], Duration(dt), xi * dt, Direction(dir)); j.template state<N>(e, w, xi, dir, "ray", what);
    // jump conditions of shocks seen on the interface
    double u = mom(W0, dir) / W0.density;
    for (int side : {-1, 1}) { const auto& k = side < 0 ? q.L : q.R; double fast = side < 0 ? ed[0] : ed[3]; bool star = std::abs(W0.pressure / j.s.p - 1) < 1e-6 && (side < 0 ? j.s.u > 1e-6 * j.vs : j.s.u < -1e-6 * j.vs); if (!star || !(W0.pressure > k.p * (1 + 1e-3))) continue;
      double d1 = W0.density * (u - fast), d2 = k.rho * (k.u - fast), sc = 1e3 * j.tol; c.close(d1, d2, sc * std::abs(d2), "jump-mass", what + show(q)); c.close(d1 * u + W0.pressure, d2 * k.u + k.p, sc * (std::abs(d2) * j.vs + W0.pressure), "jump-momentum", what + show(q));
      double E1 = W0.pressure / (e.gamma - 1) + 0.5 * W0.density * u * u, E2 = k.p / (e.gamma - 1) + 0.5 * k.rho * k.u * k.u; c.close(E1 * (u - fast) + W0.pressure * u, E2 * (k.u - fast) + k.p * k.u, sc * (std::abs(E2 * (k.u - fast)) + W0.pressure * j.vs), "jump-energy", what + show(q)); c.event("shock_jumps"); }
    auto wave = [&](double k) { return j.s.p > k ? 'S' : 'R'; }; int reg = xi < ed[0] ? 0 : xi < ed[1] ? 1 : xi < j.s.u ? 2 : xi < ed[2] ? 3 : xi < ed[3] ? 4 : 5; int reg0 = 0 < ed[0] ? 0 : 0 < ed[1] ? 1 : 0 < j.s.u ? 2 : 0 < ed[2] ? 3 : 0 < ed[3] ? 4 : 5;
    c.event(vm::fmt("pattern_%c%c", wave(q.L.p), wave(q.R.p))); c.event(vm::fmt("interface_region_%d", reg0)); c.event(vm::fmt("ray_region_%d", reg)); c.sig(vm::fmt("%d%d %c%c %d %d %d %ld", N, dir, wave(q.L.p), wave(q.R.p), reg0, reg, q.kind, c.index % 997));
  }
}
} // namespace

ORACLE("perfect-gas", 12000, 400000) { switch (c.index % 3) { case 0: gas_case<1>(c); break; case 1: gas_case<2>(c); break; default: gas_case<3>(c); } }

ORACLE("shallow-water", 12000, 400000) {
  auto& r = c.rng; ShallowWater e; if (r.coin(0.4)) e.gravity_ = r.choose({1.0, 9.81, 10.0}); double g = e.gravity_; int dir = r.range(0, 1), tr = 1 - dir; ExactRiemannSolver<ShallowWater> rs(e); ShallowWater::CompleteArray AL(e), AR(e), AS(e); struct P { ref::Water L, R; double vL, vR; }; std::vector<P> ps;
  for (int l = 0; l < W; ++l) {
    P p; double dec = r.choose({0.05, 0.5, 2.0}); p.L.h = std::pow(10., r.uniform(-dec, dec)); p.R.h = r.coin(0.1) ? p.L.h : std::pow(10., r.uniform(-dec, dec)); double cm = std::sqrt(g * std::max(p.L.h, p.R.h)); p.L.u = r.uniform(-2, 2) * cm; p.R.u = r.coin(0.2) ? p.L.u : r.uniform(-2, 2) * cm; p.vL = r.uniform(-1, 1); p.vR = r.coin(0.2) ? 0 : r.uniform(-1, 1);
    double lim = 0.9 * 2 * (std::sqrt(g * p.L.h) + std::sqrt(g * p.R.h)); if (p.R.u - p.L.u > lim) { double mid = 0.5 * (p.L.u + p.R.u); p.L.u = mid - lim / 2; p.R.u = mid + lim / 2; }
    ps.push_back(p); AL.height[l] = p.L.h; AR.height[l] = p.R.h; AL.momentum(dir, l) = p.L.h * p.L.u; AL.momentum(tr, l) = p.L.h * p.vL; AR.momentum(dir, l) = p.R.h * p.R.u; AR.momentum(tr, l) = p.R.h * p.vR;
  }
  rs.SolveRiemannProblem(AS, AL, AR, Direction(dir)); auto sg8 = rs.ComputeSignals(AL, AR, Direction(dir));
  for (int l = 0; l < W; ++l) {
    auto& p = ps[l]; ShallowWater::Complete L(e), R(e), w(e); L.height = p.L.h; R.height = p.R.h; for (int d = 0; d < 2; ++d) { L.momentum[d] = AL.momentum(d, l); R.momentum[d] = AR.momentum(d, l); }
    auto s = ref::wstar(p.L, p.R, g); auto ed = ref::wedges(p.L, p.R, g, s); double cmin = std::sqrt(g * std::min(p.L.h, p.R.h)), cmax = std::sqrt(g * std::max({p.L.h, p.R.h, s.h})), vs = cmax + std::max(std::abs(p.L.u), std::abs(p.R.u)); std::string what = vm::str("g=", g, " dir ", dir, " L(", p.L.h, ",", p.L.u, ") R(", p.R.h, ",", p.R.u, ")"); double du = 1e-6 + 1e-9 * vs;
    auto m = rs.ComputeMiddleState(L, R, Direction(dir)); double cs = std::sqrt(g * s.h), dh = std::max(s.h / cs * du, 1e-9 * s.h) * 2; (void)cmin; c.close(m.height, s.h, dh, "middle-height", what); c.close(m.momentum[dir] / m.height, s.u, 3 * du, "middle-velocity", what);
    rs.SolveRiemannProblem(w, L, R, Direction(dir)); bool ok = false; double u = w.momentum[dir] / w.height, v = w.momentum[tr] / w.height; ref::Water x{};
    for (double d : {0., -1., 1.}) { int sd; x = ref::wsample(p.L, p.R, g, s, d * 1e-5 * vs, sd); double vt = sd < 0 ? p.vL : p.vR; if (std::abs(w.height - x.h) <= 2e-5 * x.h + dh && std::abs(u - x.u) <= 2e-5 * vs && std::abs(v - vt) <= 1e-12) { ok = true; break; } }
    if (!ok && (std::abs(s.h - p.L.h) < 1e-4 * p.L.h || std::abs(s.h - p.R.h) < 1e-4 * p.R.h)) { // an invisible jump: its speed is a quotient of rounding errors
      const auto& k = s.u >= 0 ? p.L : p.R; ok = std::abs(w.height - k.h) <= 2e-4 * k.h && std::abs(u - k.u) <= 2e-4 * vs && std::abs(v - (s.u >= 0 ? p.vL : p.vR)) <= 1e-12; }
    int sd0; x = ref::wsample(p.L, p.R, g, s, 0, sd0); c.check(ok, "interface", what + vm::str(" got ", w.height, ",", u, ",", v, " want ", x.h, ",", x.u));
    c.check(AS.height[l] == w.height && AS.momentum(0, l) == w.momentum[0] && AS.momentum(1, l) == w.momentum[1], "vector", what);
    auto sg = rs.ComputeSignals(L, R, Direction(dir)); c.check(sg8[0][l] == sg[0] && sg8[1][l] == sg[1], "vector-signals", what);
    bool weakL = std::abs(s.h / p.L.h - 1) < 1e-3, weakR = std::abs(s.h / p.R.h - 1) < 1e-3; // shock speeds of nearly invisible shocks are ill conditioned
    if (!weakL) c.close(sg[0], ed[0], 1e-3 * vs, "signal-left", what); else c.check(sg[0] <= sg[1] || true, "none"); if (!weakR) c.close(sg[1], ed[3], 1e-3 * vs, "signal-right", what);
    int reg = 0 < ed[0] ? 0 : 0 < ed[1] ? 1 : 0 < s.u ? 2 : 0 < ed[2] ? 3 : 0 < ed[3] ? 4 : 5; char a = s.h > p.L.h ? 'S' : 'R', b = s.h > p.R.h ? 'S' : 'R'; c.event(vm::fmt("pattern_%c%c", a, b)); c.event(vm::fmt("interface_region_%d", reg)); c.describe(what); c.sig(vm::fmt("%d %c%c %d %ld", dir, a, b, reg, c.index % 997));
  }
}

ORACLE("scalar-equations", 10000, 200000) {
  auto& r = c.rng; Burgers1d b; ExactRiemannSolver<Burgers1d> rb(b); Burgers1d::CompleteArray L(b), R(b), S(b); std::array<double, 2> vel{r.coin(0.1) ? 0 : r.uniform(-1, 1), r.coin(0.1) ? 0 : r.uniform(-1, 1)}; Advection2d ad({vel[0], vel[1]}); ExactRiemannSolver<Advection2d> ra(ad); Advection2d::CompleteArray al(ad), ar(ad), as(ad); int dir = r.range(0, 1);
  auto val = [&] { return r.coin(0.15) ? 0.0 : r.coin(0.1) ? r.choose({-1., 1.}) : r.uniform(-3, 3); };
  for (int l = 0; l < W; ++l) { L.u[l] = al.mass[l] = val(); R.u[l] = ar.mass[l] = r.coin(0.15) ? L.u[l] : r.coin(0.1) ? -L.u[l] : val(); }
  rb.SolveRiemannProblem(S, L, R, Direction::X); ra.SolveRiemannProblem(as, al, ar, Direction(dir)); auto sb = rb.ComputeSignals(L, R, Direction::X); auto sa = ra.ComputeSignals(al, ar, Direction(dir)); c.describe(vm::str("u ", L.u[0], " ", R.u[0]));
  for (int l = 0; l < W; ++l) {
    double ul = L.u[l], ur = R.u[l], w, s; std::string what = vm::str("uL=", ul, " uR=", ur); int reg;
    if (ul > ur) { s = 0.5 * (ul + ur); w = s >= 0 ? ul : ur; reg = s > 0 ? 0 : 1; } else { s = std::max(std::abs(ul), std::abs(ur)); w = ul > 0 ? ul : ur < 0 ? ur : 0; reg = ul > 0 ? 2 : ur < 0 ? 3 : 4; }
    Burgers1d::Complete l1, r1, w1; l1.u = ul; r1.u = ur; rb.SolveRiemannProblem(w1, l1, r1, Direction::X); bool still = ul > ur && ul + ur == 0; // either side of a shock at rest
    c.check(w1.u == w || (still && w1.u == ur), "burgers", what + vm::str(" got ", w1.u)); c.check(S.u[l] == w || (still && S.u[l] == ur), "burgers-vector", what + vm::str(" got ", S.u[l]));
    c.check(std::abs(rb.ComputeSignals(l1, r1, Direction::X)[0]) == std::abs(s), "burgers-signal", what); c.check(std::abs(sb[0][l]) == std::abs(s), "burgers-signal-vector", what);
    Advection2d::Complete a1, b1, c1; a1.mass = ul; b1.mass = ur; ra.SolveRiemannProblem(c1, a1, b1, Direction(dir)); double v = vel[dir], up = v > 0 ? ul : ur; c.check(v == 0 || c1.mass == up, "advection", what); c.check(v == 0 || as.mass[l] == up, "advection-vector", what); c.check(ra.ComputeSignals(a1, b1, Direction(dir))[0] == v && sa[0][l] == v, "advection-signal", what);
    c.event(vm::fmt("burgers_region_%d", reg)); c.sig(vm::fmt("%d %d %d %ld", reg, dir, v > 0, c.index % 997));
  }
}

// the iteration itself: a root within the tolerance or a reported failure
ORACLE("newton", 4000, 80000) {
  auto& r = c.rng; int kind = r.range(0, 4); double a = r.uniform(0.1, 5), b = r.uniform(0.1, 5), x0 = r.logu(1e-3, 1e3), tol = r.choose({1e-7, 1e-10, 1e-4}); int its = r.choose({5000, 200, 60});
  std::function<double(double)> f, df; bool root = true;
  switch (kind) {
  case 0: f = [=](double x) { return a * x - b; }; df = [=](double) { return a; }; break;
  case 1: f = [=](double x) { return x * x - a; }; df = [](double x) { return 2 * x; }; break;
  case 2: f = [=](double x) { return a - b * std::sqrt(x); }; df = [=](double x) { return -0.5 * b / std::sqrt(x); }; break;
  case 3: f = [=](double x) { return a + x * x; }; df = [](double x) { return 2 * x; }; root = false; break;
  default: f = [=](double x) { return -a - b * x * x; }; df = [=](double x) { return -2 * b * x; }; root = false; break;
  }
  c.describe(vm::fmt("kind %d a %g b %g x0 %g tol %g iterations %d", kind, a, b, x0, tol, its)); bool thrown = false; double x = 0;
  try { x = NewtonIteration(f, df, x0, tol, its); } catch (std::runtime_error&) { thrown = true; }
  if (root) c.check(!thrown && std::abs(f(x)) <= tol && x >= 0, "converged", c.description + vm::str(" x=", x, " f=", thrown ? 0 : f(x)));
  else c.check(thrown, "failure-reported", c.description + vm::str(" returned x=", x, " with residual ", f(x)));
  c.event(root ? "roots" : "no_root"); c.sig(vm::fmt("%d %d %ld", kind, its, c.index % 997));
}
