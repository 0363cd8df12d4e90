// Perfect-gas states described independently of the framework, shared by C07 and C28.
#pragma once
#include "ad_gas.hpp"
#include "ad_mix.hpp"
#include "vm.hpp"
using namespace md;
namespace {
template <typename E> constexpr bool is_mix = false;
template <int N> constexpr bool is_mix<fub::PerfectGasMix<N>> = true;
template <typename T> using Vec = std::vector<T>;

// own description of one state
struct Phys { double rho, p; double u[3] = {0, 0, 0}; std::vector<double> Y, S; };
template <typename E> struct Gas {
  std::unique_ptr<EqAdapter<E>> ad; double gamma, R, msq; int ns, np; std::string name;
  E& eq() { return ad->eqn; }
};
template <typename E> Gas<E> make(vm::Case& c) {
  Gas<E> g; constexpr int N = E::Rank();
  if constexpr (is_mix<E>) { g.ad = make_mix<N>(c.rng); } else g.ad = make_gas<N>(c.rng);
  double gamma = c.rng.coin(0.5) ? g.ad->gamma : c.rng.uniform(1.02, 2.5); g.R = c.rng.coin() ? g.ad->Rspec : c.rng.logu(0.1, 5000);
  if constexpr (is_mix<E>) {
    static_cast<fub::PerfectGasConstants&>(g.eq()) = fub::ComputeConstants(g.R, gamma);
    g.msq = 1; if (c.rng.coin(0.4)) { g.msq = c.rng.logu(1e-3, 10); g.eq().Msq = g.msq; g.eq().Msqinv = 1 / g.msq; } else g.msq = g.eq().Msq;
  } else {
    auto& e = g.eq(); e.gamma = gamma; e.gamma_minus_1_inv = 1 / (gamma - 1); e.gamma_array_ = fub::Array1d::Constant(gamma); e.gamma_minus_1_inv_array_ = fub::Array1d::Constant(1 / (gamma - 1)); e.Rspec = g.R; g.msq = 1;
  }
  g.gamma = gamma; g.ns = g.ad->nspecies; g.np = g.ad->npassive; g.name = g.ad->name;
  return g;
}
template <typename E> Phys random(vm::Case& c, const Gas<E>& g) {
  Phys s; auto& r = c.rng; s.rho = r.logu(1e-4, 1e3); s.p = r.logu(1e-3, 1e6);
  double cs = std::sqrt(g.gamma * s.p / s.rho) / std::sqrt(g.msq);
  int k = r.range(0, 3); double m = k == 0 ? 0 : k == 1 ? 1e-3 : k == 2 ? 1 : 8;
  for (int d = 0; d < E::Rank(); ++d) s.u[d] = r.coin(0.1) ? 0.0 : m * cs * r.uniform(-1, 1);
  double sum = 0; s.Y.resize(std::size_t(g.ns)); for (auto& y : s.Y) sum += y = r.coin(0.2) ? 0.0 : r.u01();
  double tot = r.coin(0.4) ? 1.0 : r.u01(); for (auto& y : s.Y) y = sum > 0 ? y / sum * tot : 0.0;
  s.S.resize(std::size_t(g.np)); for (auto& y : s.S) y = r.uniform(-2, 2);
  return s;
}
double kin(const Phys& s) { return 0.5 * s.rho * (s.u[0] * s.u[0] + s.u[1] * s.u[1] + s.u[2] * s.u[2]); }
template <typename E> double energy(const Gas<E>& g, const Phys& s) { return s.p / (g.gamma - 1) + g.msq * kin(s); }
template <typename E> double sound(const Gas<E>& g, const Phys& s) { return std::sqrt(g.gamma * s.p / s.rho); }
// reference as flat complete state
template <typename E> std::vector<double> complete(const Gas<E>& g, const Phys& s) {
  std::vector<double> q{s.rho}; for (int d = 0; d < E::Rank(); ++d) q.push_back(s.rho * s.u[d]);
  q.push_back(energy(g, s)); for (double y : s.Y) q.push_back(s.rho * y); for (double y : s.S) q.push_back(s.rho * y);
  q.push_back(s.p); q.push_back(sound(g, s)); return q;
}
// scale of each component, for tolerances
template <typename E> std::vector<double> scales(const Gas<E>& g, const Phys& s) {
  auto q = complete(g, s); for (auto& x : q) x = std::abs(x);
  double E_ = energy(g, s), m = std::sqrt(2 * s.rho * kin(s)); constexpr int N = E::Rank();
  for (int d = 0; d < N; ++d) q[std::size_t(1 + d)] = m;
  std::size_t ip = q.size() - 2; q[ip] += E_ * (g.gamma - 1); q[ip + 1] *= q[ip] / s.p;
  return q;
}
template <typename E, typename S> void same(vm::Case& c, const Gas<E>& g, const Phys& s, const S& got, const char* key, const char* what) {
  auto q = complete(g, s), sc = scales(g, s); std::vector<double> x(q.size(), 0.0); flat(got, x.data());
  static const double t = 1e-12;
  for (std::size_t i = 0; i < q.size(); ++i)
    c.checkf(std::abs(x[i] - q[i]) <= t * sc[i], key, [&] { return vm::fmt("%s %s: component %zu (%s) is %.17g, expected %.17g", g.name.c_str(), what, i, g.ad->comps[i].var.c_str(), x[i], q[i]); });
}
template <typename E> void load(const Gas<E>& g, const Phys& s, fub::Complete<E>& q) { auto v = complete(g, s); unflat(q, v.data()); }
void near(vm::Case& c, double a, double b, double scale, const char* key, const std::string& what) {
  c.checkf(std::abs(a - b) <= 1e-12 * scale, key, [&] { return vm::fmt("%s: %.17g, expected %.17g", what.c_str(), a, b); });
}

// ---- isentropic pressure changes
template <int N> void isentropic(vm::Case& c) {
  using E = fub::PerfectGasMix<N>; auto g = make<E>(c); E& eq = g.eq(); eq.Msq = eq.Msqinv = g.msq = 1;
  auto s = random(c, g); { double cs = sound(g, s), m = c.rng.choose({0., 0.3, 1., 3.}); for (int d = 0; d < N; ++d) s.u[d] = m * cs * c.rng.uniform(-1, 1); }
  fub::Complete<E> q(eq), z(eq); load(g, s, q);
  const double gm = g.gamma, h0 = gm / (gm - 1) * s.p / s.rho, k0 = kin(s) / s.rho, H = h0 + k0;
  const double pstag = s.p * std::pow(H / h0, gm / (gm - 1));
  const double ratio = c.rng.coin(0.7) ? c.rng.logu(1e-3, 0.999) : c.rng.coin(0.5) ? 1.0 : c.rng.logu(1, 10); const double pn = ratio * s.p;
  int op = c.rng.range(0, 1); double eff = c.rng.coin(0.6) ? 1.0 : c.rng.u01(); bool inplace = c.rng.coin(0.3);
  if (op == 0) { if (inplace) { z = q; fub::euler::SetIsentropicPressure(eq, z, z, pn); } else fub::euler::SetIsentropicPressure(eq, z, q, pn); }
  else { fub::euler::IsentropicExpansionWithoutDissipation(eq, z, q, pn, eff); }
  const char* name = op == 0 ? "SetIsentropicPressure" : "IsentropicExpansionWithoutDissipation";
  const double tol = 1e-10 * std::max({1.0, std::abs(std::log(ratio)), 1 / (gm - 1)});
  auto chk = [&](double a, double b, double sc, const char* key, const char* what) { c.checkf(std::abs(a - b) <= tol * sc, key, [&] { return vm::fmt("%s %s: %s is %.17g, expected %.17g (p %g -> %g, Mach %g, gamma %g, efficiency %g)", g.name.c_str(), name, what, a, b, s.p, pn, std::sqrt(2 * k0) / sound(g, s), gm, eff); }); };
  chk(z.pressure, pn, pn, "pressure", "pressure");
  const double rho = s.rho * std::pow(pn / s.p, 1 / gm);
  chk(z.density, rho, rho, "entropy", "density on the isentrope");
  const double k = 0.5 * z.momentum.matrix().squaredNorm() / z.density / z.density;
  chk(z.energy / z.density, pn / (gm - 1) / rho + k, H + k, "energy", "total energy per mass");
  chk(z.speed_of_sound, std::sqrt(gm * pn / rho), std::sqrt(gm * pn / rho), "sound", "speed of sound");
  for (int i = 0; i < g.ns; ++i) chk(z.species[i] / z.density, s.Y[std::size_t(i)], 1, "composition", "mass fraction");
  for (int i = 0; i < g.np; ++i) chk(z.passive_scalars[i] / z.density, s.S[std::size_t(i)], 2, "composition", "passive scalar");
  const double h1 = gm / (gm - 1) * pn / rho;
  if (op == 0 && pn < 0.999 * pstag) chk(h1 + k, H, H, "total-enthalpy", "total enthalpy");
  if (op == 1 && ratio <= 1) chk(k, k0 + eff * (h0 - h1), H, "kinetic-energy", "kinetic energy");
  c.event("isentropic changes", 1);
  c.sig(vm::fmt("%s o%d i%d s%d %d e%d M%.1f", g.name.c_str(), op, inplace, g.ns, int(std::floor(std::log2(ratio))), eff == 1, std::sqrt(2 * k0) / sound(g, s)));
}
} // namespace
