// C28: states that meet a prescription (mass flow, pressure) and root finding.
#include "thermo.hpp"
#include "fub/NewtonIteration.hpp"
#include "fub/equations/RequireMassflow.hpp"
namespace {
// left-wave curve of the exact Riemann problem, written independently: star density and velocity for a star pressure
struct Wave { double rho, u; };
Wave star(double g, double rho, double u, double p, double ps) {
  double c = std::sqrt(g * p / rho);
  if (ps <= p) return {rho * std::pow(ps / p, 1 / g), u + 2 * c / (g - 1) * (1 - std::pow(ps / p, (g - 1) / (2 * g)))};
  double r = rho * ((g + 1) * ps + (g - 1) * p) / ((g - 1) * ps + (g + 1) * p);
  double m = std::sqrt(rho * ((g + 1) * ps + (g - 1) * p) / 2); // mass flux through the shock
  return {r, u - (ps - p) / m};
}
template <typename E> void massflow(vm::Case& c) {
  constexpr int N = E::Rank(); auto g = make<E>(c); E& eq = g.eq(); auto s = random(c, g); const double gm = g.gamma;
  if constexpr (is_mix<E>) { eq.Msq = eq.Msqinv = g.msq = 1; }
  int dir = c.rng.range(0, N - 1); double cs = sound(g, s);
  double M = c.rng.choose({0., 0., 0.2, -0.3, 0.9, -2., 0.99}); if (c.rng.coin(0.4)) M = c.rng.uniform(-1.5, 0.99);
  for (int d = 0; d < N; ++d) s.u[d] = d == dir ? M * cs : c.rng.uniform(-1, 1) * cs;
  double u = s.u[dir];
  // choked state: sonic point of the left rarefaction
  double ustar = (gm - 1) / (gm + 1) * (u + 2 * cs / (gm - 1));
  double pchoke = ustar > 0 ? s.p * std::pow(ustar / cs, 2 * gm / (gm - 1)) : 0; double fchoke = 0;
  if (ustar > 0) { Wave w = star(gm, s.rho, u, s.p, pchoke); fchoke = w.rho * w.u; }
  const double f0 = s.rho * u;
  int kind = c.rng.range(0, 3); double want; const char* kn;
  double pt = 0;
  if (kind == 0 && ustar > 0 && pchoke > s.p * 3e-4) { pt = std::exp(c.rng.uniform(std::log(pchoke), std::log(s.p))); if (c.rng.coin(0.2)) pt = pchoke * (1 + c.rng.logu(1e-6, 1e-2)); pt = std::min(pt, s.p); Wave w = star(gm, s.rho, u, s.p, pt); want = w.rho * w.u; kn = "expansion"; }
  else if (kind <= 1) { pt = s.p * c.rng.logu(1, 3000); Wave w = star(gm, s.rho, u, s.p, pt); want = w.rho * w.u; kn = "shock"; }
  else if (kind == 2) { want = f0; pt = s.p; kn = "same"; }
  else { want = ustar > 0 ? fchoke * (1 + c.rng.logu(1e-5, 3)) : std::abs(f0) + s.rho * cs * c.rng.uniform(1, 3); kn = "unattainable"; }
  double area = c.rng.coin() ? 1.0 : c.rng.logu(0.01, 10);
  fub::Complete<E> q(eq), z(eq); load(g, s, q);
  c.describe(vm::fmt("%s gamma %.4g M %.3g dir %d required %.17g (present %.17g, choked %.17g) area %.3g, %s", g.name.c_str(), gm, M, dir, want * area, f0, fchoke, area, kn));
  bool thrown = false; std::string err;
  bool cons = c.rng.coin(0.3); fub::Conservative<E> wq(eq), wz(eq); { auto ref = complete(g, s); unflat(wq, ref.data()); }
  try { if (cons) { fub::RequireMassflow_SolveExactRiemannProblem{}(eq, wz, wq, want * area, area, fub::Direction(dir)); fub::CompleteFromCons(eq, z, wz); } else fub::RequireMassflow_SolveExactRiemannProblem{}(eq, z, q, want * area, area, fub::Direction(dir)); }
  catch (std::exception& e) { thrown = true; err = e.what(); }
  auto tag = [&] { return vm::fmt("%s: required mass flow %.17g, present %.17g, choked %.17g, Mach %.3g, gamma %.4g: ", g.name.c_str(), want, f0, fchoke, M, gm); };
  c.event(thrown ? "reported failures" : "returned states", 1);
  if (kind == 3) { c.checkf(thrown, "unattainable", [&] { return tag() + "no failure reported for a mass flow above the choked one"; }); }
  else if (thrown) {
    c.checkf(false, "attainable", [&] { return tag() + vm::fmt("failure reported for the attainable %s flow at star pressure ratio %.17g: ", kn, pt / s.p) + err; });
  } else {
    double got = z.momentum[dir], sc = std::abs(want) + s.rho * cs + std::abs(f0); sc *= std::sqrt(std::max(1.0, pt / s.p));
    c.checkf(std::abs(got - want) <= 1e-9 * sc, "massflow", [&] { return tag() + vm::fmt("state carries %.17g", got); });
    // on the wave curve of the source
    Wave w = star(gm, s.rho, u, s.p, z.pressure); double vs = cs + std::abs(u) + std::abs(w.u);
    c.checkf(std::abs(z.density - w.rho) <= 1e-9 * w.rho, "wave-density", [&] { return tag() + vm::fmt("density %.17g, on the wave curve %.17g", z.density, w.rho); });
    c.checkf(std::abs(z.momentum[dir] / z.density - w.u) <= 1e-8 * vs, "wave-velocity", [&] { return tag() + vm::fmt("velocity %.17g, on the wave curve %.17g", z.momentum[dir] / z.density, w.u); });
    for (int d = 0; d < N; ++d) if (d != dir) c.checkf(std::abs(z.momentum[d] / z.density - s.u[d]) <= 1e-12 * vs, "transverse", [&] { return tag() + "transverse velocity changed"; });
    if constexpr (is_mix<E>) { for (int i = 0; i < g.ns; ++i) c.checkf(std::abs(z.species[i] / z.density - s.Y[std::size_t(i)]) <= 1e-12, "composition", [&] { return tag() + "composition changed"; }); for (int i = 0; i < g.np; ++i) c.checkf(std::abs(z.passive_scalars[i] / z.density - s.S[std::size_t(i)]) <= 1e-11, "composition", [&] { return tag() + "passive scalar changed"; }); }
    // consistent thermodynamics
    Phys o = s; o.rho = z.density; o.p = z.pressure; for (int d = 0; d < N; ++d) o.u[d] = z.momentum[d] / z.density; same(c, g, o, z, "thermodynamics", "returned state");
    // subsonic or choked outflow
    if (want > f0) c.checkf(z.momentum[dir] / z.density <= std::sqrt(gm * z.pressure / z.density) * (1 + 1e-3), "supersonic", [&] { return tag() + "returned state lies beyond the sonic point"; });
    // and back: the state left of the wave
    if (std::abs(std::log(z.pressure / s.p)) > 1e-6) {
      fub::Primitive<E> L(eq); fub::PrimFromComplete(eq, L, z);
      fub::RequireMassflow_SolveExactRiemannProblem{}(eq, L, z.density, z.momentum[dir] / z.density, z.pressure, s.p, fub::Direction(dir));
      c.checkf(std::abs(L.density - s.rho) <= 1e-9 * s.rho && L.pressure == s.p && std::abs(L.velocity[dir] - u) <= 1e-8 * vs, "left-state", [&] { return tag() + vm::fmt("inverse gives rho %.17g u %.17g, source has %.17g %.17g", L.density, L.velocity[dir], s.rho, u); });
    }
  }
  c.sig(vm::fmt("%s d%d %s M%.1f p%d g%.1f c%d", g.name.c_str(), dir, kn, M, pt > 0 ? int(std::floor(std::log2(pt / s.p) * 4)) : 0, gm, cons));
}
ORACLE("massflow", 60000, 4000000) {
  switch (c.rng.range(0, 5)) { case 0: massflow<fub::PerfectGas<1>>(c); break; case 1: massflow<fub::PerfectGas<2>>(c); break; case 2: massflow<fub::PerfectGas<3>>(c); break; case 3: massflow<fub::PerfectGasMix<1>>(c); break; case 4: massflow<fub::PerfectGasMix<2>>(c); break; default: massflow<fub::PerfectGasMix<3>>(c); }
}
ORACLE("isentropic", 30000, 3000000) { switch (c.rng.range(0, 2)) { case 0: isentropic<1>(c); break; case 1: isentropic<2>(c); break; default: isentropic<3>(c); } }

// root finding: returns a root within the tolerance or throws
ORACLE("newton", 60000, 4000000) {
  auto& r = c.rng; int k = r.range(0, 9); double a = r.logu(1e-3, 1e3), b = r.uniform(-3, 3), n = r.range(2, 7);
  std::function<double(double)> f, df; const char* name = ""; bool must = false; double x0 = r.logu(1e-4, 1e4);
  switch (k) {
  case 0: f = [=](double x) { return x * x - a; }; df = [](double x) { return 2 * x; }; name = "square root"; must = true; break;
  case 1: f = [=](double x) { return std::pow(x, n) - a; }; df = [=](double x) { return n * std::pow(x, n - 1); }; name = "power"; break;
  case 2: f = [=](double x) { return std::log(x) - b; }; df = [](double x) { return 1 / x; }; name = "log"; must = true; break;
  case 3: f = [=](double x) { return std::exp(-x) - x; }; df = [](double x) { return -std::exp(-x) - 1; }; name = "exp"; must = true; break;
  case 4: f = [=](double x) { return x * x + a; }; df = [](double x) { return 2 * x; }; name = "no root"; break;
  case 5: f = [=](double x) { return std::sqrt(x - a) - 1; }; df = [=](double x) { return 0.5 / std::sqrt(x - a); }; name = "domain"; break;
  case 6: f = [=](double x) { return std::log(x - a); }; df = [=](double x) { return 1 / (x - a); }; name = "log domain"; break;
  case 7: f = [](double) { return std::nan(""); }; df = [](double) { return 1.0; }; name = "nan"; break;
  case 8: f = [=](double x) { return a * (x - 1); }; df = [=](double) { return a; }; name = "linear"; must = true; break;
  default: f = [=](double x) { return x > a ? 1.0 : -1.0; }; df = [](double) { return 0.0; }; name = "step"; break;
  }
  double tol = r.choose({1e-7, 1e-4, 1e-9}); int maxit = r.choose({5000, 5000, 3, 0, 1}); int calls = 0;
  auto F = [&](double x) { ++calls; return f(x); };
  bool thrown = false; double x = 0;
  try { if (r.coin()) x = fub::NewtonIteration(F, df, x0, tol, maxit); else { tol = 1e-7; maxit = 5000; x = fub::NewtonIteration(F, df, x0); } } catch (std::runtime_error&) { thrown = true; }
  if (!thrown) { double fx = f(x); c.checkf(std::abs(fx) <= tol, "not-a-root", [&] { return vm::fmt("%s (a=%.17g b=%.17g n=%g x0=%.17g tol=%g max=%d): returned %.17g with residual %.17g", name, a, b, n, x0, tol, maxit, x, fx); }); c.event("roots", 1); }
  else { c.event("failures", 1); if (must && maxit == 5000 && tol >= 1e-7 && x0 > 1e-3 && x0 < 1e3 && (k != 0 || a < 300)) c.checkf(false, "missed-root", [&] { return vm::fmt("%s (a=%.17g b=%.17g x0=%.17g): failure reported", name, a, b, x0); }); else c.eval(); }
  c.checkf(calls <= maxit + 1, "iterations", [&] { return vm::fmt("%s: %d evaluations for at most %d iterations", name, calls, maxit); });
  c.sig(vm::fmt("%s %d %d %d n%d", name, int(std::floor(std::log10(x0) * 2)), maxit, thrown, std::min(calls, 60)));
}
} // namespace
